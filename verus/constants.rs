// C09: symbolic constants and the entries that hold them.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ assume usize has 64 bits
//@ include prw.inc
//@ include list.inc
//@ include cp.inc
//@ assume read_raw gives the entry at its index, insert_raw an index at which the entry stands in the pool as it is in the end, not zero (C07, C08, unit pool); insert_bsm and resolve_later the same of bootstrap methods (C19)
//@ assume parse_type and the printing of a descriptor are as C10 says (unit descriptor)
#[verifier::external_body]
pub fn parse_of(s: Str) -> (r: Result<Type>) ensures match r { Ok(t) => type_of(s@) == Some(t), Err(_) => type_of(s@) is None } { unimplemented!() }
#[verifier::external_body]
pub fn type_str(ty: &Type) -> (r: Str) ensures r@ == text_of(*ty) { unimplemented!() }
#[verifier::external_body]
pub fn bsm_of(d: &Dynamic) -> (r: BootstrapMethod) ensures r == d.bsm.v@ { unimplemented!() }
#[verifier::external_body]
pub fn unreached<T>() -> (r: T) requires false { unimplemented!() }
#[verifier::external_body]
pub fn same(s: Str) -> (r: Str) ensures r == s { unimplemented!() }
impl Cell {
    #[verifier::external_body]
    pub fn fresh() -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
fn zip<T, U>(a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>) ensures r == (match (a, b) { (Some(a), Some(b)) => Some((a, b)), _ => None }) { match a { Some(a) => match b { Some(b) => Some((a, b)), None => None }, None => None } }
fn touch<T>(t: &mut T) ensures *final(t) == *old(t) { }
//@ drop the constructors of entries where they stand as functions: a stand-in by the variants, which are applied to their arguments
pub enum Ctor { Class, String, Module, Package, InvokeDynamic, Dynamic, Field, Method, InterfaceMethod }
impl Ctor {
    fn of1(self, a: u16) -> (r: RawConstantEntry)
        requires self is Class || self is String || self is Module || self is Package
        ensures r == (match self { Ctor::Class => RawConstantEntry::Class(a), Ctor::String => RawConstantEntry::String(a), Ctor::Module => RawConstantEntry::Module(a), _ => RawConstantEntry::Package(a) })
    { match self { Ctor::Class => RawConstantEntry::Class(a), Ctor::String => RawConstantEntry::String(a), Ctor::Module => RawConstantEntry::Module(a), _ => RawConstantEntry::Package(a) } }
    fn of2(self, a: u16, b: u16) -> (r: RawConstantEntry)
        requires self is InvokeDynamic || self is Dynamic || self is Field || self is Method || self is InterfaceMethod
        ensures r == (match self { Ctor::InvokeDynamic => RawConstantEntry::InvokeDynamic(a, b), Ctor::Dynamic => RawConstantEntry::Dynamic(a, b), Ctor::Field => RawConstantEntry::Field(a, b), Ctor::Method => RawConstantEntry::Method(a, b), _ => RawConstantEntry::InterfaceMethod(a, b) })
    { match self { Ctor::InvokeDynamic => RawConstantEntry::InvokeDynamic(a, b), Ctor::Dynamic => RawConstantEntry::Dynamic(a, b), Ctor::Field => RawConstantEntry::Field(a, b), Ctor::Method => RawConstantEntry::Method(a, b), _ => RawConstantEntry::InterfaceMethod(a, b) } }
}
/// The kind of entry for a member, with the indices of the entry e.
pub open spec fn member_entry(m: MemberRef, e: RawConstantEntry) -> RawConstantEntry {
    let (a, b) = match e { RawConstantEntry::Field(a, b) => (a, b), RawConstantEntry::Method(a, b) => (a, b), RawConstantEntry::InterfaceMethod(a, b) => (a, b), _ => (0u16, 0u16) };
    if !(m.descriptor is Method) { RawConstantEntry::Field(a, b) } else if m.itfs { RawConstantEntry::InterfaceMethod(a, b) } else { RawConstantEntry::Method(a, b) }
}
pub open spec fn nat_text_at(p: Pool, i: u16) -> Option<(Str, Str)> {
    if p.entries.contains_key(i) { match p.entries[i] {
        RawConstantEntry::NameAndType(n, t) => match (text_at(p, n), text_at(p, t)) { (Some(n), Some(t)) => Some((n, t)), _ => None },
        _ => None,
    } } else { None }
}
impl Type {
//@ item @expanded fn is_method in impl Type
//@   pub
//@   ret r
//@   spec
//@   | ensures r == (*self is Method)
//@ end
}
pub open spec fn number_of(k: MethodHandleKind) -> u8 {
    match k {
        MethodHandleKind::GetField => 1, MethodHandleKind::GetStatic => 2, MethodHandleKind::PutField => 3, MethodHandleKind::PutStatic => 4, MethodHandleKind::InvokeVirtual => 5,
        MethodHandleKind::InvokeStatic => 6, MethodHandleKind::InvokeSpecial => 7, MethodHandleKind::NewInvokeSpecial => 8, MethodHandleKind::InvokeInterface => 9,
    }
}
//@ item src/loadable.rs fn try_from in impl TryFrom<u8> for MethodHandleKind
//@   subst try_from => kind_from
//@   subst Result<Self, Self::Error> => Result<MethodHandleKind, u8>
//@   ret r
//@   spec
//@   | ensures match r { Ok(k) => kind_of(value) == Some(k), Err(_) => kind_of(value) is None }
//@ end
pub trait ConstantPoolReader: Sized {
    spec fn pool(&self) -> Pool;
    fn read_raw(&mut self, idx: u16) -> (r: Option<RawConstantEntry>) ensures final(self).pool() == old(self).pool(), r == (if old(self).pool().entries.contains_key(idx) { Some(old(self).pool().entries[idx]) } else { None });
    fn resolve_later(&mut self, bsm_idx: u16, bsm: Cell) ensures final(self).pool() == old(self).pool(), bsm.v@ == (old(self).pool().bsms)(bsm_idx);
//@ item src/rw.rs fn read_nameandtype in trait ConstantPoolReader
//@   subst Cow<'static, Wtf8Str> => Str
//@   optmap
//@   subst .as_deref() => 
//@   subst crate::ty::parse_type => parse_of
//@   ret r
//@   spec
//@   | ensures final(self).pool() == old(self).pool(), r == nat_at(old(self).pool(), idx)
//@ end
//@ item src/rw.rs fn read_constant in trait ConstantPoolReader
//@   optmap
//@   subst .as_deref() => 
//@   subst parse_type => parse_of
//@   subst MethodHandleKind::try_from(k).ok().zip(self.read_member(m)) => zip(kind_from(k).ok(), self.read_member(m))
//@   ret r
//@   spec
//@   | ensures final(self).pool() == old(self).pool(), r == constant_at(old(self).pool(), idx)
//@ end
//@ item src/rw.rs fn read_int in trait ConstantPoolReader
//@   ret r
//@   spec
//@   | ensures final(self).pool() == old(self).pool(), r == match constant_at(old(self).pool(), idx) { Some(Constant::I32(n)) => Some(n), _ => None }
//@ end
//@ item src/rw.rs fn read_long in trait ConstantPoolReader
//@   ret r
//@   spec
//@   | ensures final(self).pool() == old(self).pool(), r == match constant_at(old(self).pool(), idx) { Some(Constant::I64(n)) => Some(n), _ => None }
//@ end
//@ item src/rw.rs fn read_float in trait ConstantPoolReader
//@   subst f.0 => f
//@   subst Option<f32> => Option<TotalF32>
//@   ret r
//@   spec
//@   | ensures final(self).pool() == old(self).pool(), r == match constant_at(old(self).pool(), idx) { Some(Constant::F32(n)) => Some(n), _ => None }
//@ end
//@ item src/rw.rs fn read_double in trait ConstantPoolReader
//@   subst d.0 => d
//@   subst Option<f64> => Option<TotalF64>
//@   ret r
//@   spec
//@   | ensures final(self).pool() == old(self).pool(), r == match constant_at(old(self).pool(), idx) { Some(Constant::F64(n)) => Some(n), _ => None }
//@ end
//@ item src/rw.rs fn read_indirect_str in trait ConstantPoolReader
//@   subst Cow<'static, Wtf8Str> => Str
//@   subst Into::into => same
//@   optmap
//@   touch self
//@   ret r
//@   spec
//@   | ensures final(self).pool() == old(self).pool(), r == indirect_at(old(self).pool(), tag, idx)
//@ end
//@ item src/rw.rs fn read_class in trait ConstantPoolReader
//@   subst Cow<'static, Wtf8Str> => Str
//@   ret r
//@   spec
//@   | ensures final(self).pool() == old(self).pool(), r == class_at(old(self).pool(), idx)
//@ end
//@ item src/rw.rs fn read_wtf8 in trait ConstantPoolReader
//@   subst Cow<'static, Wtf8Str> => Str
//@   ret r
//@   spec
//@   | ensures final(self).pool() == old(self).pool(), r == text_at(old(self).pool(), idx)
//@ end
//@ item src/rw.rs fn read_invokedynamic in trait ConstantPoolReader
//@   subst Arc::new(OnceCell::default()) => Cell::fresh()
//@   ret r
//@   spec
//@   | ensures final(self).pool() == old(self).pool(), r == invokedynamic_at(old(self).pool(), idx)
//@ end
//@ item src/rw.rs fn read_dynamic in trait ConstantPoolReader
//@   subst Arc::new(OnceCell::default()) => Cell::fresh()
//@   ret r
//@   spec
//@   | ensures final(self).pool() == old(self).pool(), r == dynamic_at(old(self).pool(), idx)
//@ end
//@ item src/rw.rs fn read_method_handle in trait ConstantPoolReader
//@   subst MethodHandleKind::try_from(kind) => kind_from(kind)
//@   ret r
//@   spec
//@   | ensures final(self).pool() == old(self).pool(), r == handle_at(old(self).pool(), idx)
//@ end
//@ item src/rw.rs fn read_member in trait ConstantPoolReader
//@   optmap
//@   ret r
//@   spec
//@   | ensures final(self).pool() == old(self).pool(), r == member_at(old(self).pool(), idx)
//@ end
}
pub trait ConstantPoolWriter: Sized {
    spec fn pool(&self) -> Pool;
    fn insert_raw(&mut self, value: RawConstantEntry) -> (r: u16) ensures final(self).pool() == old(self).pool(), old(self).pool().entries.contains_pair(r, value), r != 0;
    fn insert_bsm(&mut self, bsm: BootstrapMethod) -> (r: u16) ensures final(self).pool() == old(self).pool(), (old(self).pool().bsms)(r) == bsm;
//@ item src/rw.rs fn insert_constant in trait ConstantPoolWriter
//@   subst Cow::Owned((&t).into()) => type_str(&t)
//@   subst f.0 => f
//@   subst d.0 => d
//@   start
//@   | broadcast use c10_back, str_same;
//@   ret r
//@   spec
//@   | ensures final(self).pool() == old(self).pool(), r != 0,
//@   |     fine_constant(value) ==> constant_at(old(self).pool(), r) == Some(value) && dynamic_at(old(self).pool(), r) is None,
//@   |     (value is Member ==> old(self).pool().entries[r] == member_entry(value->Member_0, old(self).pool().entries[r]))
//@ end
//@ item src/rw.rs fn insert_dynamic in trait ConstantPoolWriter
//@   subst Cow::Owned((&d.descriptor).into()) => type_str(&d.descriptor)
//@   subst RawConstantEntry => Ctor
//@   subst d.get_bsm().clone() => bsm_of(&d)
//@   subst e(bsm, => e.of2(bsm,
//@   start
//@   | broadcast use c10_back, str_same;
//@   ret r
//@   spec
//@   | ensures final(self).pool() == old(self).pool(), r != 0,
//@   |     fine_dynamic(d) ==> (if d.descriptor is Method { invokedynamic_at(old(self).pool(), r) == Some(d) } else { dynamic_at(old(self).pool(), r) == Some(d) })
//@ end
//@ item src/rw.rs fn insert_indirect_str in trait ConstantPoolWriter
//@   subst Cow<'static, Wtf8Str> => Str
//@   subst RawConstantEntry => Ctor
//@   subst }(str_ref) => }.of1(str_ref)
//@   subst panic!("invalid tag for indirect string: {}", tag); => unreached()
//@   ret r
//@   spec
//@   | requires tag == 7 || tag == 8 || tag == 19 || tag == 20
//@   | ensures final(self).pool() == old(self).pool(), r != 0,
//@   |     indirect_at(old(self).pool(), tag, r) == Some(st), dynamic_at(old(self).pool(), r) is None
//@ end
//@ item src/rw.rs fn insert_wtf8 in trait ConstantPoolWriter
//@   subst Cow<'static, Wtf8Str> => Str
//@   ret r
//@   spec
//@   | ensures final(self).pool() == old(self).pool(), r != 0,
//@   |     text_at(old(self).pool(), r) == Some(st)
//@ end
//@ item src/rw.rs fn insert_nameandtype in trait ConstantPoolWriter
//@   subst Cow<'static, Wtf8Str> => Str
//@   ret r
//@   spec
//@   | ensures final(self).pool() == old(self).pool(), r != 0,
//@   |     nat_text_at(old(self).pool(), r) == Some((name, descriptor)),
//@   |     type_of(descriptor@) is Some ==> nat_at(old(self).pool(), r) == Some((name, type_of(descriptor@)->Some_0))
//@ end
//@ item src/rw.rs fn insert_class in trait ConstantPoolWriter
//@   subst Cow<'static, Wtf8Str> => Str
//@   ret r
//@   spec
//@   | ensures final(self).pool() == old(self).pool(), r != 0,
//@   |     class_at(old(self).pool(), r) == Some(c), dynamic_at(old(self).pool(), r) is None
//@ end
//@ item src/rw.rs fn insert_package in trait ConstantPoolWriter
//@   subst Cow<'static, Wtf8Str> => Str
//@   ret r
//@   spec
//@   | ensures final(self).pool() == old(self).pool(), r != 0,
//@   |     indirect_at(old(self).pool(), 20, r) == Some(c)
//@ end
//@ item src/rw.rs fn insert_int in trait ConstantPoolWriter
//@   ret r
//@   spec
//@   | ensures final(self).pool() == old(self).pool(), r != 0,
//@   |     old(self).pool().entries.contains_pair(r, RawConstantEntry::Int(i))
//@ end
//@ item src/rw.rs fn insert_long in trait ConstantPoolWriter
//@   ret r
//@   spec
//@   | ensures final(self).pool() == old(self).pool(), r != 0,
//@   |     old(self).pool().entries.contains_pair(r, RawConstantEntry::Long(l))
//@ end
//@ item src/rw.rs fn insert_float in trait ConstantPoolWriter
//@   subst f: f32 => f: TotalF32
//@   subst TotalF32(f) => f
//@   ret r
//@   spec
//@   | ensures final(self).pool() == old(self).pool(), r != 0,
//@   |     old(self).pool().entries.contains_pair(r, RawConstantEntry::Float(f))
//@ end
//@ item src/rw.rs fn insert_double in trait ConstantPoolWriter
//@   subst d: f64 => d: TotalF64
//@   subst TotalF64(d) => d
//@   ret r
//@   spec
//@   | ensures final(self).pool() == old(self).pool(), r != 0,
//@   |     old(self).pool().entries.contains_pair(r, RawConstantEntry::Double(d))
//@ end
//@ item src/rw.rs fn insert_member in trait ConstantPoolWriter
//@   subst Cow::Owned((&mem.descriptor).into()) => type_str(&mem.descriptor)
//@   subst RawConstantEntry => Ctor
//@   subst }(self.insert_class => }.of2(self.insert_class
//@   start
//@   | broadcast use c10_back, str_same;
//@   ret r
//@   spec
//@   | ensures final(self).pool() == old(self).pool(), r != 0,
//@   |     old(self).pool().entries.contains_key(r), old(self).pool().entries[r] == member_entry(mem, old(self).pool().entries[r]), fine_member(mem) ==> member_at(old(self).pool(), r) == Some(mem) && dynamic_at(old(self).pool(), r) is None
//@ end
//@ item src/rw.rs fn insert_method_handle in trait ConstantPoolWriter
//@   ret r
//@   spec
//@   | ensures final(self).pool() == old(self).pool(), r != 0,
//@   |     fine_member(handle.member) ==> handle_at(old(self).pool(), r) == Some(handle)
//@ end
}
//@ drop read_or_dynamic, insert_ordynamic: the function they are given is one of a trait with its contract, and they stand outside of their traits
pub trait Picker<T>: Pick<T> {
    fn read<C: ConstantPoolReader>(self, c: &mut C, idx: u16) -> (r: Option<T>) ensures final(c).pool() == old(c).pool(), r == Self::at(old(c).pool(), idx);
    fn insert<C: ConstantPoolWriter>(self, c: &mut C, t: T) -> (r: u16) ensures final(c).pool() == old(c).pool(), r != 0, Self::good(t) ==> Self::at(old(c).pool(), r) == Some(t) && dynamic_at(old(c).pool(), r) is None;
}
impl Picker<Constant> for PickConstant {
    fn read<C: ConstantPoolReader>(self, c: &mut C, idx: u16) -> Option<Constant> { c.read_constant(idx) }
    fn insert<C: ConstantPoolWriter>(self, c: &mut C, t: Constant) -> u16 { c.insert_constant(t) }
}
impl Picker<MemberRef> for PickMember {
    fn read<C: ConstantPoolReader>(self, c: &mut C, idx: u16) -> Option<MemberRef> { c.read_member(idx) }
    fn insert<C: ConstantPoolWriter>(self, c: &mut C, t: MemberRef) -> u16 { c.insert_member(t) }
}
impl Picker<Str> for PickClass {
    fn read<C: ConstantPoolReader>(self, c: &mut C, idx: u16) -> Option<Str> { c.read_class(idx) }
    fn insert<C: ConstantPoolWriter>(self, c: &mut C, t: Str) -> u16 { c.insert_class(t) }
}
//@ item src/rw.rs fn read_or_dynamic in trait ConstantPoolReader
//@   subst read_or_dynamic<T, F> => read_or_dynamic<C: ConstantPoolReader, T, F: Picker<T>>
//@   subst where F: FnOnce(&mut Self, u16) -> Option<T>, => 
//@   subst f(self, idx) => f.read(self, idx)
//@   subst &mut self => c: &mut C
//@   subst self => c
//@   optmap
//@   ret r
//@   spec
//@   | ensures final(c).pool() == old(c).pool(), r == or_dynamic_at::<T, F>(old(c).pool(), idx)
//@ end
//@ item src/rw.rs fn insert_ordynamic in trait ConstantPoolWriter
//@   subst insert_ordynamic<T, F> => insert_ordynamic<C: ConstantPoolWriter, T, F: Picker<T>>
//@   subst where F: FnOnce(&mut Self, T) -> u16, => 
//@   subst f(self, t) => f.insert(self, t)
//@   subst &mut self => c: &mut C
//@   subst self => c
//@   ret r
//@   spec
//@   | ensures final(c).pool() == old(c).pool(), r != 0, fine_or::<T, F>(or_dyn) ==> or_dynamic_at::<T, F>(old(c).pool(), r) == Some(or_dyn)
//@ end
fn main() {}
}
