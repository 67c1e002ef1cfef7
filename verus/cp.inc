//@ drop strings (Cow, Wtf8Str, Wtf8String): a stand-in by the sequence of their code points
//@ drop floats: a stand-in by their bits (equality of floats is that of bits: C22)
/// A string by its code points.
pub struct Str { pub s: Ghost<Seq<u32>> }
impl Str {
    pub open spec fn view(&self) -> Seq<u32> { self.s@ }
}
impl Clone for Str {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[derive(Copy, Clone)]
pub struct TotalF32 { pub bits: u32 }
#[derive(Copy, Clone)]
pub struct TotalF64 { pub bits: u64 }
//@ item src/ty.rs enum Type
//@   pub
//@   bare
//@   subst Cow<'static, Wtf8Str> => Str
//@ end
//@ item src/member.rs struct MemberRef
//@   pub
//@   bare
//@   subst Cow<'static, Wtf8Str> => Str
//@ end
//@ item src/loadable.rs enum MethodHandleKind
//@   pub
//@   bare
//@ end
//@ item src/loadable.rs struct MethodHandle
//@   pub
//@   bare
//@ end
//@ item src/loadable.rs enum Constant
//@   pub
//@   bare
//@   subst Cow<'static, Wtf8Str> => Str
//@ end
//@ drop the cell of a dynamic constant stands for the bootstrap method that it holds in the end; bootstrap methods are stand-ins without contents
pub struct BootstrapMethod { pub id: Ghost<int> }
pub struct Cell { pub v: Ghost<BootstrapMethod> }
//@ item src/dynamic.rs struct Dynamic
//@   pub
//@   bare
//@   subst Arc<OnceCell<BootstrapMethod>> => Cell
//@   subst Cow<'static, Wtf8Str> => Str
//@ end
//@ item src/dynamic.rs enum OrDynamic
//@   pub
//@   bare
//@ end
//@ item src/cp.rs enum RawConstantEntry
//@   pub
//@   bare
//@   subst Cow<'static, Wtf8Str> => Str
//@ end
//@ item src/code/structure.rs struct Label
//@   pub
//@   bare
//@   attr
//@   | #[derive(Copy, Clone)]
//@ end
//@ item src/code/structure.rs struct Catch
//@   pub
//@   bare
//@   subst Cow<'static, Wtf8Str> => Str
//@ end
impl Clone for Dynamic { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> Clone for OrDynamic<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// The constant pool of the class file, its bootstrap methods, and the labels and exception ranges of the
/// method at hand: of a reader, what it reads from; of a writer, what it has in the end.
pub struct Pool {
    pub entries: Map<u16, RawConstantEntry>,
    pub bsms: spec_fn(u16) -> BootstrapMethod,
    pub labels: spec_fn(u32) -> Label,
    pub catches: Map<u16, Catch>,
}
//@ assume descriptors: text and parsing are as C10 says (unit descriptor)
pub uninterp spec fn text_of(t: Type) -> Seq<u32>;
pub uninterp spec fn type_of(s: Seq<u32>) -> Option<Type>;
pub open spec fn bracket(s: Seq<u32>) -> bool { s.len() > 0 && s[0] == '[' as u32 }
/// Field descriptors as they can be written: an array's element is no array, its dimensions are at least one.
pub open spec fn fine(t: Type) -> bool decreases t {
    match t {
        Type::Ref(s) => forall|i: int| 0 <= i < s@.len() ==> s@[i] != ';' as u32,
        Type::ArrayRef(d, e) => d >= 1 && !(*e is ArrayRef) && fine(*e),
        Type::Method { .. } => false,
        _ => true,
    }
}
pub open spec fn fine_method(t: Type) -> bool {
    match t { Type::Method { parameters, ret } => (forall|i: int| 0 <= i < parameters@.len() ==> fine(#[trigger] parameters@[i])) && (ret is Some ==> fine(*ret->Some_0)), _ => false }
}
pub open spec fn fine_any(t: Type) -> bool { fine(t) || fine_method(t) }
#[verifier::external_body]
pub broadcast proof fn c10_back(t: Type) requires fine_any(t) ensures type_of(#[trigger] text_of(t)) == Some(t) {}
#[verifier::external_body]
pub broadcast proof fn c10_array(d: u8, e: Box<Type>) ensures #[trigger] text_of(Type::ArrayRef(d, e)) == Seq::new(d as nat, |i: int| '[' as u32) + text_of(*e) {}
#[verifier::external_body]
pub broadcast proof fn c10_bracket(t: Type) ensures bracket(#[trigger] text_of(t)) == (t is ArrayRef && (t->ArrayRef_0 >= 1 || bracket(text_of(*t->ArrayRef_1)))) {}
#[verifier::external_body]
pub broadcast proof fn c10_is_array(s: Seq<u32>) requires bracket(s), type_of(s) is Some ensures (#[trigger] type_of(s))->Some_0 is ArrayRef {}
pub open spec fn text_at(p: Pool, i: u16) -> Option<Str> {
    if p.entries.contains_key(i) { match p.entries[i] { RawConstantEntry::WTF8(s) => Some(s), _ => None } } else { None }
}
/// Class (7), String (8), Module (19) and Package (20) entries.
pub open spec fn indirect_at(p: Pool, tag: u8, i: u16) -> Option<Str> {
    if p.entries.contains_key(i) {
        match p.entries[i] {
            RawConstantEntry::Class(u) => if tag == 7 { text_at(p, u) } else { None },
            RawConstantEntry::String(u) => if tag == 8 { text_at(p, u) } else { None },
            RawConstantEntry::Module(u) => if tag == 19 { text_at(p, u) } else { None },
            RawConstantEntry::Package(u) => if tag == 20 { text_at(p, u) } else { None },
            _ => None,
        }
    } else { None }
}
pub open spec fn class_at(p: Pool, i: u16) -> Option<Str> { indirect_at(p, 7, i) }
pub open spec fn type_at(p: Pool, i: u16) -> Option<Type> { match text_at(p, i) { Some(s) => type_of(s@), None => None } }
pub open spec fn nat_at(p: Pool, i: u16) -> Option<(Str, Type)> {
    if p.entries.contains_key(i) { match p.entries[i] {
        RawConstantEntry::NameAndType(n, t) => match (text_at(p, n), type_at(p, t)) { (Some(n), Some(t)) => Some((n, t)), _ => None },
        _ => None,
    } } else { None }
}
pub open spec fn member_of(p: Pool, o: u16, nt: u16, itfs: bool) -> Option<MemberRef> {
    match (class_at(p, o), nat_at(p, nt)) { (Some(owner), Some((name, descriptor))) => Some(MemberRef { owner, name, descriptor, itfs }), _ => None }
}
pub open spec fn member_at(p: Pool, i: u16) -> Option<MemberRef> {
    if p.entries.contains_key(i) { match p.entries[i] {
        RawConstantEntry::Field(o, nt) => member_of(p, o, nt, false),
        RawConstantEntry::Method(o, nt) => member_of(p, o, nt, false),
        RawConstantEntry::InterfaceMethod(o, nt) => member_of(p, o, nt, true),
        _ => None,
    } } else { None }
}
pub open spec fn kind_of(k: u8) -> Option<MethodHandleKind> {
    match k {
        1 => Some(MethodHandleKind::GetField), 2 => Some(MethodHandleKind::GetStatic), 3 => Some(MethodHandleKind::PutField), 4 => Some(MethodHandleKind::PutStatic),
        5 => Some(MethodHandleKind::InvokeVirtual), 6 => Some(MethodHandleKind::InvokeStatic), 7 => Some(MethodHandleKind::InvokeSpecial), 8 => Some(MethodHandleKind::NewInvokeSpecial), 9 => Some(MethodHandleKind::InvokeInterface),
        _ => None,
    }
}
pub open spec fn handle_at(p: Pool, i: u16) -> Option<MethodHandle> {
    if p.entries.contains_key(i) { match p.entries[i] {
        RawConstantEntry::MethodHandle(k, m) => match (kind_of(k), member_at(p, m)) { (Some(kind), Some(member)) => Some(MethodHandle { kind, member }), _ => None },
        _ => None,
    } } else { None }
}
pub open spec fn constant_at(p: Pool, i: u16) -> Option<Constant> {
    if p.entries.contains_key(i) { match p.entries[i] {
        RawConstantEntry::Int(n) => Some(Constant::I32(n)),
        RawConstantEntry::Long(n) => Some(Constant::I64(n)),
        RawConstantEntry::Float(n) => Some(Constant::F32(n)),
        RawConstantEntry::Double(n) => Some(Constant::F64(n)),
        RawConstantEntry::String(u) => match text_at(p, u) { Some(s) => Some(Constant::String(s)), None => None },
        RawConstantEntry::Class(u) => match text_at(p, u) { Some(s) => Some(Constant::Class(s)), None => None },
        RawConstantEntry::MethodType(u) => match type_at(p, u) { Some(t) => Some(Constant::MethodType(t)), None => None },
        RawConstantEntry::MethodHandle(k, m) => match handle_at(p, i) { Some(h) => Some(Constant::MethodHandle(h)), None => None },
        _ => match member_at(p, i) { Some(m) => Some(Constant::Member(m)), None => None },
    } } else { None }
}
pub open spec fn dynamic_of(p: Pool, b: u16, nt: u16) -> Option<Dynamic> {
    match nat_at(p, nt) { Some((name, descriptor)) => Some(Dynamic { bsm: Cell { v: Ghost((p.bsms)(b)) }, name, descriptor }), None => None }
}
pub open spec fn dynamic_at(p: Pool, i: u16) -> Option<Dynamic> {
    if p.entries.contains_key(i) { match p.entries[i] { RawConstantEntry::Dynamic(b, nt) => dynamic_of(p, b, nt), _ => None } } else { None }
}
pub open spec fn invokedynamic_at(p: Pool, i: u16) -> Option<Dynamic> {
    if p.entries.contains_key(i) { match p.entries[i] { RawConstantEntry::InvokeDynamic(b, nt) => dynamic_of(p, b, nt), _ => None } } else { None }
}
pub open spec fn fine_member(m: MemberRef) -> bool { fine_any(m.descriptor) && (m.itfs ==> m.descriptor is Method) }
/// Constants as they can be stored: descriptors that can be written, no interface flag on a field.
pub open spec fn fine_constant(c: Constant) -> bool {
    match c { Constant::Member(m) => fine_member(m), Constant::MethodType(t) => fine_any(t), Constant::MethodHandle(h) => fine_member(h.member), _ => true }
}
pub open spec fn fine_dynamic(d: Dynamic) -> bool { fine_any(d.descriptor) }
/// A kind of constant that could also be dynamic: how it is found, and put.
pub trait Pick<T>: Sized { spec fn at(p: Pool, i: u16) -> Option<T>; spec fn good(t: T) -> bool; }
pub struct PickConstant;
pub struct PickMember;
pub struct PickClass;
impl Pick<Constant> for PickConstant { open spec fn at(p: Pool, i: u16) -> Option<Constant> { constant_at(p, i) } open spec fn good(t: Constant) -> bool { fine_constant(t) } }
impl Pick<MemberRef> for PickMember { open spec fn at(p: Pool, i: u16) -> Option<MemberRef> { member_at(p, i) } open spec fn good(t: MemberRef) -> bool { fine_member(t) } }
impl Pick<Str> for PickClass { open spec fn at(p: Pool, i: u16) -> Option<Str> { class_at(p, i) } open spec fn good(t: Str) -> bool { true } }
pub open spec fn or_dynamic_at<T, F: Pick<T>>(p: Pool, i: u16) -> Option<OrDynamic<T>> {
    match dynamic_at(p, i) { Some(d) => Some(OrDynamic::Dynamic(d)), None => match F::at(p, i) { Some(t) => Some(OrDynamic::Static(t)), None => None } }
}
pub open spec fn fine_or<T, F: Pick<T>>(d: OrDynamic<T>) -> bool { match d { OrDynamic::Dynamic(d) => fine_dynamic(d) && !(d.descriptor is Method), OrDynamic::Static(t) => F::good(t) } }
/// Strings of the same code points are the same.
pub broadcast proof fn str_same(a: Str, b: Str) requires #[trigger] a.view() == #[trigger] b.view() ensures a == b { }
