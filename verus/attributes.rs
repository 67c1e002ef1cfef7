// C17: attributes, framed by name and length.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ assume usize has 64 bits
//@ include prw.inc
//@ include list.inc
//@ include cp.inc
//@ include cp_traits.inc
//@ include cprw.inc
//@ include helper_cp.inc
pub mod h { use super::*; pub use super::{Normal, Identity, Vec8, Vec16}; pub type Class = StringCp<7>; pub type Package = StringCp<20>; }
/// What has been written stands there as a whole.
pub broadcast proof fn stands_whole(b: Seq<u8>, out: Seq<u8>, s: Seq<u8>, i: int)
    requires #[trigger] stands(b, out, i), #[trigger] pre(out, s), 0 <= i, i + b.len() <= out.len()
    ensures i + b.len() <= s.len(), s.subrange(i, i + b.len()) == b
{
    reveal(pre);
    assert(out.len() <= s.len());
    assert forall|k: int| i <= k < i + b.len() implies #[trigger] s[k] == b[k - i] by { }
    assert(s.subrange(i, i + b.len()) =~= b);
}
pub open spec fn u32_from_ok(n: usize) -> bool { n <= 0xffff_ffff }
fn u32_from(n: usize) -> (r: core::result::Result<u32, ()>) ensures r is Ok <==> n <= 0xffff_ffff, r is Ok ==> r->Ok_0 == n { if n <= 0xffff_ffff { Ok(n as u32) } else { Err(()) } }
//@ item src/rw.rs fn write_size
//@   errors
//@   subst u32::try_from(len) => u32_from(len)
//@   results
//@   ret r
//@   spec
//@   | ensures pre(old(writer).out(), final(writer).out()),
//@   |     r is Ok ==> len <= 0xffff_ffff && forall|s: Seq<u8>| #[trigger] pre(final(writer).out(), s) ==> u32::reads(s, old(writer).out().len() as int) == Some((len as u32, final(writer).out().len() as int))
//@ end
//@ assume Vec::resize, Vec as a writer (it appends) and slices of vectors as readers are as the standard library says
impl Vec<u8> {
    #[verifier::external_body]
    pub fn resize(&mut self, n: usize, x: u8) ensures final(self)@ == if n <= old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ + Seq::new((n - old(self)@.len()) as nat, |i: int| x) } { unimplemented!() }
    #[verifier::external_body]
    pub fn slice(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
impl Clone for Vec<u8> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Write for Vec<u8> {
    open spec fn out(&self) -> Seq<u8> { self@ }
    open spec fn sure(&self) -> bool { true }
    #[verifier::external_body]
    fn write_all(&mut self, b: &[u8]) -> (r: Result<()>) { unimplemented!() }
}
fn least(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
/// `reader.read_exact(&mut v[start..])`
#[verifier::external_body]
fn fill<R: Read>(reader: &mut R, v: &mut Vec<u8>, start: usize) -> (r: Result<()>)
    requires start <= old(v)@.len()
    ensures
        final(v)@.len() == old(v)@.len(), final(reader).data() == old(reader).data(), final(v)@.take(start as int) == old(v)@.take(start as int),
        r is Ok ==> old(reader).pos() + (old(v)@.len() - start) <= old(reader).data().len() && final(v)@.skip(start as int) == old(reader).data().subrange(old(reader).pos(), old(reader).pos() + (old(v)@.len() - start)) && final(reader).pos() == old(reader).pos() + (old(v)@.len() - start),
        r is Err ==> old(reader).pos() + (old(v)@.len() - start) > old(reader).data().len(),
        0 <= old(reader).pos() <= old(reader).data().len(),
{ unimplemented!() }
pub const CHUNK: usize = 0x10000;
//@ present src/rw.rs const CHUNK: usize = 1 << 16;
//@ item src/rw.rs fn read_bytes
//@   attr
//@   | #[verifier::loop_isolation(false)]
//@   cut const CHUNK
//@   subst (len - start).min(CHUNK) => least(len - start, CHUNK)
//@   subst reader.read_exact(&mut bytes[start..]) => fill(reader, &mut bytes, start)
//@   ret r
//@   spec
//@   | requires 0 <= old(reader).pos() <= old(reader).data().len()
//@   | ensures final(reader).data() == old(reader).data(),
//@   |     match r { Ok(v) => old(reader).pos() + len <= old(reader).data().len() && v@ == old(reader).data().subrange(old(reader).pos(), old(reader).pos() + len) && final(reader).pos() == old(reader).pos() + len, Err(_) => old(reader).pos() + len > old(reader).data().len() }
//@   loop 0
//@   | invariant 0 <= old(reader).pos() <= old(reader).data().len(), reader.data() == old(reader).data(), bytes@.len() <= len, reader.pos() == old(reader).pos() + bytes@.len(), reader.pos() <= reader.data().len(), bytes@ == old(reader).data().subrange(old(reader).pos(), old(reader).pos() + bytes@.len()),
//@   | decreases len - bytes@.len()
//@   loopstart 0
//@   | let ghost was = bytes@;
//@   after fill(reader, &mut bytes, start)?;
//@   | proof { assert(bytes@ =~= bytes@.take(start as int) + bytes@.skip(start as int)); assert(bytes@.take(start as int) =~= was); assert(bytes@ =~= old(reader).data().subrange(old(reader).pos(), old(reader).pos() + bytes@.len())); }
//@ end
//@ item src/attr.rs struct RawAttribute
//@   pub
//@   bare
//@   subst Cow<'static, Wtf8Str> => Str
//@   subst Cow<'static, [u8]> => Vec<u8>
//@ end
impl RawAttribute {
//@ item src/attr.rs fn __new in impl RawAttribute
//@   pub
//@   subst Cow<'static, Wtf8Str> => Str
//@   subst Cow::Owned(inner) => inner
//@   ret r
//@   spec
//@   | ensures r == (RawAttribute { name, inner })
//@ end
}
/// A reader of the bytes of a vector.
pub struct Rest { pub s: Ghost<Seq<u8>>, pub at: Ghost<int> }
impl Read for Rest {
    open spec fn data(&self) -> Seq<u8> { self.s@ }
    open spec fn pos(&self) -> int { self.at@ }
    #[verifier::external_body]
    fn read_exact(&mut self, b: &mut [u8]) -> (r: Result<()>) { unimplemented!() }
}
impl Rest {
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures 0 <= self.at@ <= self.s@.len(), r == (self.at@ == self.s@.len()) { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures 0 <= self.at@ <= self.s@.len(), r == self.s@.len() - self.at@ { unimplemented!() }
}
#[verifier::external_body]
fn rest(v: &Vec<u8>) -> (r: Rest) ensures r.s@ == v@, r.at@ == 0 { unimplemented!() }
//@ assume names of attributes that are spelt differently are different strings, and bytes of strings are equal if and only if the strings are
#[derive(Copy, Clone)]
pub enum Name { Signature, Synthetic, Deprecated, SourceFile, InnerClasses, EnclosingMethod, SourceDebugExtension, BootstrapMethods, Module, ModulePackages, ModuleMainClass, NestHost, NestMembers, RuntimeVisibleAnnotations, RuntimeInvisibleAnnotations, RuntimeVisibleTypeAnnotations, RuntimeInvisibleTypeAnnotations, ConstantValue, Code, RuntimeVisibleParameterAnnotations, RuntimeInvisibleParameterAnnotations, Exceptions, AnnotationDefault, MethodParameters, LineNumberTable, LocalVariableTable, LocalVariableTypeTable, StackMapTable, Other }
pub uninterp spec fn name_text(n: Name) -> Seq<u32>;
pub uninterp spec fn kind(s: Seq<u32>) -> Name;
#[verifier::external_body]
pub broadcast proof fn kind_back(n: Name) requires !(n is Other) ensures kind(#[trigger] name_text(n)) == n {}
#[verifier::external_body]
pub broadcast proof fn kind_only(s: Seq<u32>) requires !(kind(s) is Other) ensures name_text(#[trigger] kind(s)) == s {}
#[verifier::external_body]
fn name_of(s: &Str) -> (r: Name) ensures r == kind(s@) { unimplemented!() }
#[verifier::external_body]
fn name_str(n: Name) -> (r: Str) ensures r@ == name_text(n) { unimplemented!() }
/// Name, length and body: what stands at i, and where it ends.
pub open spec fn frame(p: Pool, s: Seq<u8>, i: int) -> Option<(Str, Seq<u8>, int)> {
    match u16::reads(s, i) { None => None, Some((n, j)) => match text_at(p, n) { None => None, Some(name) => match u32::reads(s, j) { None => None, Some((len, k)) =>
        if k + len <= s.len() { Some((name, s.subrange(k, k + len), k + len)) } else { None }
    } } }
}
//@ assume the contents of attributes are read and written as their own contracts say: annotations (unit annotations, C20), modules (unit modules, C21), frames (unit frames, C16), signatures (C11), code (C12 to C15), bootstrap methods (C19)
macro_rules! content { ($t: ident) => { verus! {
pub struct $t { pub id: Ghost<int> }
content_of!($t);
} } }
macro_rules! content_of { ($t: ident) => { verus! {
impl ConstantPoolReadWrite for $t {
    uninterp spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(Self, int)>;
    uninterp spec fn good(&self) -> bool;
    #[verifier::external_body]
    fn read_from<C: ConstantPoolReader, R: Read>(cp: &mut C, reader: &mut R) -> Result<Self> { unimplemented!() }
    #[verifier::external_body]
    fn write_to<C: ConstantPoolWriter, W: Write>(&self, cp: &mut C, writer: &mut W) -> Result<()> { unimplemented!() }
}
} } }
content!(ClassSignature);
content!(FieldSignature);
content!(MethodSignature);
content!(InnerClass);
content!(Module);
content!(Annotation);
content!(AnnotationValue);
content!(ParameterAnnotations);
content!(ClassTypeAnnotation);
content!(FieldTypeAnnotation);
content!(MethodTypeAnnotation);
content!(CodeTypeAnnotation);
content!(MethodParameter);
content!(Code);
content!(LocalVar);
content!(LocalVarType);
content!(RawFrame);
content_of!(BootstrapMethod);
content_of!(Constant);
pub struct LineNumber { pub id: Ghost<int> }
impl ReadWrite for LineNumber {
    uninterp spec fn reads(s: Seq<u8>, i: int) -> Option<(Self, int)>;
    #[verifier::external_body]
    fn read_from<R: Read>(reader: &mut R) -> Result<Self> { unimplemented!() }
    #[verifier::external_body]
    fn write_to<W: Write>(&self, writer: &mut W) -> Result<()> { unimplemented!() }
}
#[verifier::external_body]
fn type_str(t: &Type) -> (r: Str) ensures r@ == text_of(*t) { unimplemented!() }
impl ConstantPoolReadWrite for Option<(Str, Type)> {
    /// Zero for none.
    open spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(Self, int)> {
        match u16::reads(s, i) { None => None, Some((n, j)) => if n == 0 { Some((None, j)) } else { match nat_at(p, n) { None => None, Some(x) => Some((Some(x), j)) } } }
    }
    open spec fn good(&self) -> bool { match *self { Some((n, t)) => fine_any(t), None => true } }
//@ item @expanded fn read_from in impl ConstantPoolReadWrite for Option<(Cow<'static, Wtf8Str>, Type)>
//@   errors
//@   results
//@   resmap
//@ end
//@ item @expanded fn write_to in impl ConstantPoolReadWrite for Option<(Cow<'static, Wtf8Str>, Type)>
//@   subst Cow::Owned(t.into()) => type_str(t)
//@   start
//@   | broadcast use {c10_back};
//@ end
}
//@ item src/attr.rs struct SourceDebugExtension
//@   pub
//@   bare
//@   subst Cow<'static, Wtf8Str> => Str
//@ end
//@ assume modified UTF-8: what is encoded is decoded to the same string (C02); Read::read_to_end is as the standard library says
pub uninterp spec fn decoded(s: Seq<u8>) -> Option<Str>;
#[verifier::external_body]
fn modified_utf8_to_string(b: &Vec<u8>) -> (r: Result<Str>) ensures match r { Ok(x) => decoded(b@) == Some(x), Err(_) => decoded(b@) is None } { unimplemented!() }
#[verifier::external_body]
fn string_to_modified_utf8(s: &Str) -> (r: Vec<u8>) ensures decoded(r@) == Some(*s) { unimplemented!() }
#[verifier::external_body]
fn read_to_end<R: Read>(reader: &mut R, v: &mut Vec<u8>) -> (r: Result<usize>)
    ensures r is Ok, 0 <= old(reader).pos() <= old(reader).data().len(), final(reader).data() == old(reader).data(), final(reader).pos() == old(reader).data().len(), final(v)@ == old(v)@ + old(reader).data().skip(old(reader).pos())
{ unimplemented!() }
/// An attribute whose body is the whole of what there is to read.
pub trait ReadWhole: Sized {
    spec fn whole(s: Seq<u8>) -> Option<Self>;
    fn read_from<T: Read>(reader: &mut T) -> (r: Result<Self>)
        ensures final(reader).data() == old(reader).data(), match r { Ok(v) => Self::whole(old(reader).data().skip(old(reader).pos())) == Some(v) && final(reader).pos() == old(reader).data().len(), Err(_) => Self::whole(old(reader).data().skip(old(reader).pos())) is None };
    fn write_to<T: Write>(&self, writer: &mut T) -> (r: Result<()>)
        ensures pre(old(writer).out(), final(writer).out()), r is Ok ==> Self::whole(final(writer).out().skip(old(writer).out().len() as int)) == Some(*self);
}
impl ReadWhole for SourceDebugExtension {
    open spec fn whole(s: Seq<u8>) -> Option<Self> { match decoded(s) { None => None, Some(x) => Some(SourceDebugExtension(x)) } }
//@ item src/attr.rs fn read_from in impl ReadWrite for SourceDebugExtension
//@   subst vec![] => Vec::new()
//@   subst reader.read_to_end(&mut buf) => read_to_end(reader, &mut buf)
//@   subst modified_utf8_to_string(&buf)?.into() => modified_utf8_to_string(&buf)?
//@   after read_to_end(reader, &mut buf)?;
//@   | assert(buf@ =~= old(reader).data().skip(old(reader).pos()));
//@ end
//@ item src/attr.rs fn write_to in impl ReadWrite for SourceDebugExtension
//@   subst writer.write_all(&string_to_modified_utf8(&self.0)) => writer.write_all(string_to_modified_utf8(&self.0).slice())
//@   before Ok(())
//@   | assert(forall|a: Seq<u8>, b: Seq<u8>| #[trigger] (a + b).skip(a.len() as int) =~= b);
//@ end
}
pub broadcast proof fn skip_none(s: Seq<u8>) ensures #[trigger] s.skip(0) == s { assert(s.skip(0) =~= s); }
//@ item src/attr.rs enum ClassAttribute
//@   pub
//@   bare
//@   subst Cow<'static, Wtf8Str> => Str
//@ end
impl ConstantPoolReadWrite for ClassAttribute {
    open spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(Self, int)> { match frame(p, s, i) { None => None, Some((name, b, e)) => match kind(name@) {
        Name::Signature => match <ClassSignature as ConstantPoolReadWrite>::reads(p, b, 0) { None => None, Some((f0, j0)) => if j0 == b.len() { Some((ClassAttribute::Signature(f0), e)) } else { None } },
        Name::Synthetic => if 0 == b.len() { Some((ClassAttribute::Synthetic, e)) } else { None },
        Name::Deprecated => if 0 == b.len() { Some((ClassAttribute::Deprecated, e)) } else { None },
        Name::SourceFile => match <Str as ConstantPoolReadWrite>::reads(p, b, 0) { None => None, Some((f0, j0)) => if j0 == b.len() { Some((ClassAttribute::SourceFile(f0), e)) } else { None } },
        Name::InnerClasses => match <h::Vec16 as ConstantPoolReadWriteAs<Vec<InnerClass>>>::reads(p, b, 0) { None => None, Some((f0, j0)) => if j0 == b.len() { Some((ClassAttribute::InnerClasses(f0), e)) } else { None } },
        Name::EnclosingMethod => match <h::Class as ConstantPoolReadWriteAs<Str>>::reads(p, b, 0) { None => None, Some((f0, j0)) => match <Option<(Str, Type)> as ConstantPoolReadWrite>::reads(p, b, j0) { None => None, Some((f1, j1)) => if j1 == b.len() { Some((ClassAttribute::EnclosingMethod(f0, f1), e)) } else { None } } },
        Name::SourceDebugExtension => match SourceDebugExtension::whole(b) { None => None, Some(x) => Some((ClassAttribute::SourceDebugExtension(x), e)) },
        Name::BootstrapMethods => match <h::Vec16 as ConstantPoolReadWriteAs<Vec<BootstrapMethod>>>::reads(p, b, 0) { None => None, Some((f0, j0)) => if j0 == b.len() { Some((ClassAttribute::BootstrapMethods(f0), e)) } else { None } },
        Name::Module => match <Module as ConstantPoolReadWrite>::reads(p, b, 0) { None => None, Some((f0, j0)) => if j0 == b.len() { Some((ClassAttribute::Module(f0), e)) } else { None } },
        Name::ModulePackages => match <h::Vec16<h::Package> as ConstantPoolReadWriteAs<Vec<Str>>>::reads(p, b, 0) { None => None, Some((f0, j0)) => if j0 == b.len() { Some((ClassAttribute::ModulePackages(f0), e)) } else { None } },
        Name::ModuleMainClass => match <h::Class as ConstantPoolReadWriteAs<Str>>::reads(p, b, 0) { None => None, Some((f0, j0)) => if j0 == b.len() { Some((ClassAttribute::ModuleMainClass(f0), e)) } else { None } },
        Name::NestHost => match <h::Class as ConstantPoolReadWriteAs<Str>>::reads(p, b, 0) { None => None, Some((f0, j0)) => if j0 == b.len() { Some((ClassAttribute::NestHost(f0), e)) } else { None } },
        Name::NestMembers => match <h::Vec16<h::Class> as ConstantPoolReadWriteAs<Vec<Str>>>::reads(p, b, 0) { None => None, Some((f0, j0)) => if j0 == b.len() { Some((ClassAttribute::NestMembers(f0), e)) } else { None } },
        Name::RuntimeVisibleAnnotations => match <h::Vec16 as ConstantPoolReadWriteAs<Vec<Annotation>>>::reads(p, b, 0) { None => None, Some((f0, j0)) => if j0 == b.len() { Some((ClassAttribute::RuntimeVisibleAnnotations(f0), e)) } else { None } },
        Name::RuntimeInvisibleAnnotations => match <h::Vec16 as ConstantPoolReadWriteAs<Vec<Annotation>>>::reads(p, b, 0) { None => None, Some((f0, j0)) => if j0 == b.len() { Some((ClassAttribute::RuntimeInvisibleAnnotations(f0), e)) } else { None } },
        Name::RuntimeVisibleTypeAnnotations => match <h::Vec16 as ConstantPoolReadWriteAs<Vec<ClassTypeAnnotation>>>::reads(p, b, 0) { None => None, Some((f0, j0)) => if j0 == b.len() { Some((ClassAttribute::RuntimeVisibleTypeAnnotations(f0), e)) } else { None } },
        Name::RuntimeInvisibleTypeAnnotations => match <h::Vec16 as ConstantPoolReadWriteAs<Vec<ClassTypeAnnotation>>>::reads(p, b, 0) { None => None, Some((f0, j0)) => if j0 == b.len() { Some((ClassAttribute::RuntimeInvisibleTypeAnnotations(f0), e)) } else { None } },
        _ => Some((ClassAttribute::Raw(RawAttribute { name, inner: list(b) }), e)),
    } } }
    open spec fn good(&self) -> bool { match *self {
        ClassAttribute::Signature(f0) => <ClassSignature as ConstantPoolReadWrite>::good(&f0),
        ClassAttribute::Synthetic => true,
        ClassAttribute::Deprecated => true,
        ClassAttribute::SourceFile(f0) => <Str as ConstantPoolReadWrite>::good(&f0),
        ClassAttribute::InnerClasses(f0) => <h::Vec16 as ConstantPoolReadWriteAs<Vec<InnerClass>>>::good(f0),
        ClassAttribute::EnclosingMethod(f0, f1) => <h::Class as ConstantPoolReadWriteAs<Str>>::good(f0) && <Option<(Str, Type)> as ConstantPoolReadWrite>::good(&f1),
        ClassAttribute::SourceDebugExtension(_) => true,
        ClassAttribute::BootstrapMethods(f0) => <h::Vec16 as ConstantPoolReadWriteAs<Vec<BootstrapMethod>>>::good(f0),
        ClassAttribute::Module(f0) => <Module as ConstantPoolReadWrite>::good(&f0),
        ClassAttribute::ModulePackages(f0) => <h::Vec16<h::Package> as ConstantPoolReadWriteAs<Vec<Str>>>::good(f0),
        ClassAttribute::ModuleMainClass(f0) => <h::Class as ConstantPoolReadWriteAs<Str>>::good(f0),
        ClassAttribute::NestHost(f0) => <h::Class as ConstantPoolReadWriteAs<Str>>::good(f0),
        ClassAttribute::NestMembers(f0) => <h::Vec16<h::Class> as ConstantPoolReadWriteAs<Vec<Str>>>::good(f0),
        ClassAttribute::RuntimeVisibleAnnotations(f0) => <h::Vec16 as ConstantPoolReadWriteAs<Vec<Annotation>>>::good(f0),
        ClassAttribute::RuntimeInvisibleAnnotations(f0) => <h::Vec16 as ConstantPoolReadWriteAs<Vec<Annotation>>>::good(f0),
        ClassAttribute::RuntimeVisibleTypeAnnotations(f0) => <h::Vec16 as ConstantPoolReadWriteAs<Vec<ClassTypeAnnotation>>>::good(f0),
        ClassAttribute::RuntimeInvisibleTypeAnnotations(f0) => <h::Vec16 as ConstantPoolReadWriteAs<Vec<ClassTypeAnnotation>>>::good(f0),
        ClassAttribute::Raw(r) => !(kind(r.name@) is Signature || kind(r.name@) is Synthetic || kind(r.name@) is Deprecated || kind(r.name@) is SourceFile || kind(r.name@) is InnerClasses || kind(r.name@) is EnclosingMethod || kind(r.name@) is SourceDebugExtension || kind(r.name@) is BootstrapMethods || kind(r.name@) is Module || kind(r.name@) is ModulePackages || kind(r.name@) is ModuleMainClass || kind(r.name@) is NestHost || kind(r.name@) is NestMembers || kind(r.name@) is RuntimeVisibleAnnotations || kind(r.name@) is RuntimeInvisibleAnnotations || kind(r.name@) is RuntimeVisibleTypeAnnotations || kind(r.name@) is RuntimeInvisibleTypeAnnotations),
    } }
//@ item @expanded fn read_from in impl ConstantPoolReadWrite for ClassAttribute
//@   attribute
//@   derived
//@   errors
//@   results
//@   subst <h::Normal as ConstantPoolReadWriteAs<SourceDebugExtension>>::read_from(cp, inner_reader) => <SourceDebugExtension as ReadWhole>::read_from(inner_reader)
//@   start
//@   | broadcast use {stands_whole, kind_back, kind_only, skip_none};
//@ end
//@ item @expanded fn write_to in impl ConstantPoolReadWrite for ClassAttribute
//@   attribute
//@   derived
//@   subst <h::Normal as ConstantPoolReadWriteAs<SourceDebugExtension>>::write_to(__binding_0, cp, &mut vec) => <SourceDebugExtension as ReadWhole>::write_to(__binding_0, &mut vec)
//@   subst writer.write_all(&vec) => writer.write_all(vec.slice())
//@   subst writer.write_all(&__binding_0.inner) => writer.write_all(__binding_0.inner.slice())
//@   start
//@   | broadcast use {stands_whole, kind_back, kind_only, skip_none};
//@ end
}
//@ item src/member.rs enum FieldAttribute
//@   pub
//@   bare
//@ end
impl ConstantPoolReadWrite for FieldAttribute {
    open spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(Self, int)> { match frame(p, s, i) { None => None, Some((name, b, e)) => match kind(name@) {
        Name::Deprecated => if 0 == b.len() { Some((FieldAttribute::Deprecated, e)) } else { None },
        Name::Synthetic => if 0 == b.len() { Some((FieldAttribute::Synthetic, e)) } else { None },
        Name::Signature => match <FieldSignature as ConstantPoolReadWrite>::reads(p, b, 0) { None => None, Some((f0, j0)) => if j0 == b.len() { Some((FieldAttribute::Signature(f0), e)) } else { None } },
        Name::ConstantValue => match <Constant as ConstantPoolReadWrite>::reads(p, b, 0) { None => None, Some((f0, j0)) => if j0 == b.len() { Some((FieldAttribute::ConstantValue(f0), e)) } else { None } },
        Name::RuntimeVisibleAnnotations => match <h::Vec16 as ConstantPoolReadWriteAs<Vec<Annotation>>>::reads(p, b, 0) { None => None, Some((f0, j0)) => if j0 == b.len() { Some((FieldAttribute::RuntimeVisibleAnnotations(f0), e)) } else { None } },
        Name::RuntimeInvisibleAnnotations => match <h::Vec16 as ConstantPoolReadWriteAs<Vec<Annotation>>>::reads(p, b, 0) { None => None, Some((f0, j0)) => if j0 == b.len() { Some((FieldAttribute::RuntimeInvisibleAnnotations(f0), e)) } else { None } },
        Name::RuntimeVisibleTypeAnnotations => match <h::Vec16 as ConstantPoolReadWriteAs<Vec<FieldTypeAnnotation>>>::reads(p, b, 0) { None => None, Some((f0, j0)) => if j0 == b.len() { Some((FieldAttribute::RuntimeVisibleTypeAnnotations(f0), e)) } else { None } },
        Name::RuntimeInvisibleTypeAnnotations => match <h::Vec16 as ConstantPoolReadWriteAs<Vec<FieldTypeAnnotation>>>::reads(p, b, 0) { None => None, Some((f0, j0)) => if j0 == b.len() { Some((FieldAttribute::RuntimeInvisibleTypeAnnotations(f0), e)) } else { None } },
        _ => Some((FieldAttribute::Raw(RawAttribute { name, inner: list(b) }), e)),
    } } }
    open spec fn good(&self) -> bool { match *self {
        FieldAttribute::Deprecated => true,
        FieldAttribute::Synthetic => true,
        FieldAttribute::Signature(f0) => <FieldSignature as ConstantPoolReadWrite>::good(&f0),
        FieldAttribute::ConstantValue(f0) => <Constant as ConstantPoolReadWrite>::good(&f0),
        FieldAttribute::RuntimeVisibleAnnotations(f0) => <h::Vec16 as ConstantPoolReadWriteAs<Vec<Annotation>>>::good(f0),
        FieldAttribute::RuntimeInvisibleAnnotations(f0) => <h::Vec16 as ConstantPoolReadWriteAs<Vec<Annotation>>>::good(f0),
        FieldAttribute::RuntimeVisibleTypeAnnotations(f0) => <h::Vec16 as ConstantPoolReadWriteAs<Vec<FieldTypeAnnotation>>>::good(f0),
        FieldAttribute::RuntimeInvisibleTypeAnnotations(f0) => <h::Vec16 as ConstantPoolReadWriteAs<Vec<FieldTypeAnnotation>>>::good(f0),
        FieldAttribute::Raw(r) => !(kind(r.name@) is Deprecated || kind(r.name@) is Synthetic || kind(r.name@) is Signature || kind(r.name@) is ConstantValue || kind(r.name@) is RuntimeVisibleAnnotations || kind(r.name@) is RuntimeInvisibleAnnotations || kind(r.name@) is RuntimeVisibleTypeAnnotations || kind(r.name@) is RuntimeInvisibleTypeAnnotations),
    } }
//@ item @expanded fn read_from in impl ConstantPoolReadWrite for FieldAttribute
//@   attribute
//@   derived
//@   errors
//@   results
//@   start
//@   | broadcast use {stands_whole, kind_back, kind_only, skip_none};
//@ end
//@ item @expanded fn write_to in impl ConstantPoolReadWrite for FieldAttribute
//@   attribute
//@   derived
//@   subst writer.write_all(&vec) => writer.write_all(vec.slice())
//@   subst writer.write_all(&__binding_0.inner) => writer.write_all(__binding_0.inner.slice())
//@   start
//@   | broadcast use {stands_whole, kind_back, kind_only, skip_none};
//@ end
}
//@ item src/member.rs enum MethodAttribute
//@   pub
//@   bare
//@   subst Cow<'static, Wtf8Str> => Str
//@ end
impl ConstantPoolReadWrite for MethodAttribute {
    open spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(Self, int)> { match frame(p, s, i) { None => None, Some((name, b, e)) => match kind(name@) {
        Name::Code => match <Code as ConstantPoolReadWrite>::reads(p, b, 0) { None => None, Some((f0, j0)) => if j0 == b.len() { Some((MethodAttribute::Code(f0), e)) } else { None } },
        Name::Deprecated => if 0 == b.len() { Some((MethodAttribute::Deprecated, e)) } else { None },
        Name::Synthetic => if 0 == b.len() { Some((MethodAttribute::Synthetic, e)) } else { None },
        Name::Signature => match <MethodSignature as ConstantPoolReadWrite>::reads(p, b, 0) { None => None, Some((f0, j0)) => if j0 == b.len() { Some((MethodAttribute::Signature(f0), e)) } else { None } },
        Name::RuntimeVisibleAnnotations => match <h::Vec16 as ConstantPoolReadWriteAs<Vec<Annotation>>>::reads(p, b, 0) { None => None, Some((f0, j0)) => if j0 == b.len() { Some((MethodAttribute::RuntimeVisibleAnnotations(f0), e)) } else { None } },
        Name::RuntimeInvisibleAnnotations => match <h::Vec16 as ConstantPoolReadWriteAs<Vec<Annotation>>>::reads(p, b, 0) { None => None, Some((f0, j0)) => if j0 == b.len() { Some((MethodAttribute::RuntimeInvisibleAnnotations(f0), e)) } else { None } },
        Name::RuntimeVisibleTypeAnnotations => match <h::Vec16 as ConstantPoolReadWriteAs<Vec<MethodTypeAnnotation>>>::reads(p, b, 0) { None => None, Some((f0, j0)) => if j0 == b.len() { Some((MethodAttribute::RuntimeVisibleTypeAnnotations(f0), e)) } else { None } },
        Name::RuntimeInvisibleTypeAnnotations => match <h::Vec16 as ConstantPoolReadWriteAs<Vec<MethodTypeAnnotation>>>::reads(p, b, 0) { None => None, Some((f0, j0)) => if j0 == b.len() { Some((MethodAttribute::RuntimeInvisibleTypeAnnotations(f0), e)) } else { None } },
        Name::RuntimeVisibleParameterAnnotations => match <h::Vec8 as ConstantPoolReadWriteAs<Vec<ParameterAnnotations>>>::reads(p, b, 0) { None => None, Some((f0, j0)) => if j0 == b.len() { Some((MethodAttribute::RuntimeVisibleParameterAnnotations(f0), e)) } else { None } },
        Name::RuntimeInvisibleParameterAnnotations => match <h::Vec8 as ConstantPoolReadWriteAs<Vec<ParameterAnnotations>>>::reads(p, b, 0) { None => None, Some((f0, j0)) => if j0 == b.len() { Some((MethodAttribute::RuntimeInvisibleParameterAnnotations(f0), e)) } else { None } },
        Name::Exceptions => match <h::Vec16<h::Class> as ConstantPoolReadWriteAs<Vec<Str>>>::reads(p, b, 0) { None => None, Some((f0, j0)) => if j0 == b.len() { Some((MethodAttribute::Exceptions(f0), e)) } else { None } },
        Name::AnnotationDefault => match <AnnotationValue as ConstantPoolReadWrite>::reads(p, b, 0) { None => None, Some((f0, j0)) => if j0 == b.len() { Some((MethodAttribute::AnnotationDefault(f0), e)) } else { None } },
        Name::MethodParameters => match <h::Vec8 as ConstantPoolReadWriteAs<Vec<MethodParameter>>>::reads(p, b, 0) { None => None, Some((f0, j0)) => if j0 == b.len() { Some((MethodAttribute::MethodParameters(f0), e)) } else { None } },
        _ => Some((MethodAttribute::Raw(RawAttribute { name, inner: list(b) }), e)),
    } } }
    open spec fn good(&self) -> bool { match *self {
        MethodAttribute::Code(f0) => <Code as ConstantPoolReadWrite>::good(&f0),
        MethodAttribute::Deprecated => true,
        MethodAttribute::Synthetic => true,
        MethodAttribute::Signature(f0) => <MethodSignature as ConstantPoolReadWrite>::good(&f0),
        MethodAttribute::RuntimeVisibleAnnotations(f0) => <h::Vec16 as ConstantPoolReadWriteAs<Vec<Annotation>>>::good(f0),
        MethodAttribute::RuntimeInvisibleAnnotations(f0) => <h::Vec16 as ConstantPoolReadWriteAs<Vec<Annotation>>>::good(f0),
        MethodAttribute::RuntimeVisibleTypeAnnotations(f0) => <h::Vec16 as ConstantPoolReadWriteAs<Vec<MethodTypeAnnotation>>>::good(f0),
        MethodAttribute::RuntimeInvisibleTypeAnnotations(f0) => <h::Vec16 as ConstantPoolReadWriteAs<Vec<MethodTypeAnnotation>>>::good(f0),
        MethodAttribute::RuntimeVisibleParameterAnnotations(f0) => <h::Vec8 as ConstantPoolReadWriteAs<Vec<ParameterAnnotations>>>::good(f0),
        MethodAttribute::RuntimeInvisibleParameterAnnotations(f0) => <h::Vec8 as ConstantPoolReadWriteAs<Vec<ParameterAnnotations>>>::good(f0),
        MethodAttribute::Exceptions(f0) => <h::Vec16<h::Class> as ConstantPoolReadWriteAs<Vec<Str>>>::good(f0),
        MethodAttribute::AnnotationDefault(f0) => <AnnotationValue as ConstantPoolReadWrite>::good(&f0),
        MethodAttribute::MethodParameters(f0) => <h::Vec8 as ConstantPoolReadWriteAs<Vec<MethodParameter>>>::good(f0),
        MethodAttribute::Raw(r) => !(kind(r.name@) is Code || kind(r.name@) is Deprecated || kind(r.name@) is Synthetic || kind(r.name@) is Signature || kind(r.name@) is RuntimeVisibleAnnotations || kind(r.name@) is RuntimeInvisibleAnnotations || kind(r.name@) is RuntimeVisibleTypeAnnotations || kind(r.name@) is RuntimeInvisibleTypeAnnotations || kind(r.name@) is RuntimeVisibleParameterAnnotations || kind(r.name@) is RuntimeInvisibleParameterAnnotations || kind(r.name@) is Exceptions || kind(r.name@) is AnnotationDefault || kind(r.name@) is MethodParameters),
    } }
//@ item @expanded fn read_from in impl ConstantPoolReadWrite for MethodAttribute
//@   attribute
//@   derived
//@   errors
//@   results
//@   start
//@   | broadcast use {stands_whole, kind_back, kind_only, skip_none};
//@ end
//@ item @expanded fn write_to in impl ConstantPoolReadWrite for MethodAttribute
//@   attribute
//@   derived
//@   subst writer.write_all(&vec) => writer.write_all(vec.slice())
//@   subst writer.write_all(&__binding_0.inner) => writer.write_all(__binding_0.inner.slice())
//@   start
//@   | broadcast use {stands_whole, kind_back, kind_only, skip_none};
//@ end
}
//@ item src/code/structure.rs enum CodeAttr
//@   pub
//@   bare
//@ end
impl ConstantPoolReadWrite for CodeAttr {
    open spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(Self, int)> { match frame(p, s, i) { None => None, Some((name, b, e)) => match kind(name@) {
        Name::LineNumberTable => match <h::Vec16<h::Normal> as ConstantPoolReadWriteAs<Vec<LineNumber>>>::reads(p, b, 0) { None => None, Some((f0, j0)) => if j0 == b.len() { Some((CodeAttr::LineNumberTable(f0), e)) } else { None } },
        Name::LocalVariableTable => match <h::Vec16 as ConstantPoolReadWriteAs<Vec<LocalVar>>>::reads(p, b, 0) { None => None, Some((f0, j0)) => if j0 == b.len() { Some((CodeAttr::LocalVariableTable(f0), e)) } else { None } },
        Name::LocalVariableTypeTable => match <h::Vec16 as ConstantPoolReadWriteAs<Vec<LocalVarType>>>::reads(p, b, 0) { None => None, Some((f0, j0)) => if j0 == b.len() { Some((CodeAttr::LocalVariableTypeTable(f0), e)) } else { None } },
        Name::RuntimeInvisibleTypeAnnotations => match <h::Vec16 as ConstantPoolReadWriteAs<Vec<CodeTypeAnnotation>>>::reads(p, b, 0) { None => None, Some((f0, j0)) => if j0 == b.len() { Some((CodeAttr::RuntimeInvisibleTypeAnnotations(f0), e)) } else { None } },
        Name::RuntimeVisibleTypeAnnotations => match <h::Vec16 as ConstantPoolReadWriteAs<Vec<CodeTypeAnnotation>>>::reads(p, b, 0) { None => None, Some((f0, j0)) => if j0 == b.len() { Some((CodeAttr::RuntimeVisibleTypeAnnotations(f0), e)) } else { None } },
        Name::StackMapTable => match <h::Vec16 as ConstantPoolReadWriteAs<Vec<RawFrame>>>::reads(p, b, 0) { None => None, Some((f0, j0)) => if j0 == b.len() { Some((CodeAttr::StackMapTable(f0), e)) } else { None } },
        _ => Some((CodeAttr::Raw(RawAttribute { name, inner: list(b) }), e)),
    } } }
    open spec fn good(&self) -> bool { match *self {
        CodeAttr::LineNumberTable(f0) => <h::Vec16<h::Normal> as ConstantPoolReadWriteAs<Vec<LineNumber>>>::good(f0),
        CodeAttr::LocalVariableTable(f0) => <h::Vec16 as ConstantPoolReadWriteAs<Vec<LocalVar>>>::good(f0),
        CodeAttr::LocalVariableTypeTable(f0) => <h::Vec16 as ConstantPoolReadWriteAs<Vec<LocalVarType>>>::good(f0),
        CodeAttr::RuntimeInvisibleTypeAnnotations(f0) => <h::Vec16 as ConstantPoolReadWriteAs<Vec<CodeTypeAnnotation>>>::good(f0),
        CodeAttr::RuntimeVisibleTypeAnnotations(f0) => <h::Vec16 as ConstantPoolReadWriteAs<Vec<CodeTypeAnnotation>>>::good(f0),
        CodeAttr::StackMapTable(f0) => <h::Vec16 as ConstantPoolReadWriteAs<Vec<RawFrame>>>::good(f0),
        CodeAttr::Raw(r) => !(kind(r.name@) is LineNumberTable || kind(r.name@) is LocalVariableTable || kind(r.name@) is LocalVariableTypeTable || kind(r.name@) is RuntimeInvisibleTypeAnnotations || kind(r.name@) is RuntimeVisibleTypeAnnotations || kind(r.name@) is StackMapTable),
    } }
//@ item @expanded fn read_from in impl ConstantPoolReadWrite for CodeAttr
//@   attribute
//@   derived
//@   errors
//@   results
//@   start
//@   | broadcast use {stands_whole, kind_back, kind_only, skip_none};
//@ end
//@ item @expanded fn write_to in impl ConstantPoolReadWrite for CodeAttr
//@   attribute
//@   derived
//@   subst writer.write_all(&vec) => writer.write_all(vec.slice())
//@   subst writer.write_all(&__binding_0.inner) => writer.write_all(__binding_0.inner.slice())
//@   start
//@   | broadcast use {stands_whole, kind_back, kind_only, skip_none};
//@ end
}

fn main() {}
}
