pub mod error { pub use super::{Error, Result}; }
/// ConstantPoolReadWrite of src/rw.rs: what stands in s at i in a class file with this pool, the value and where it ends.
pub trait ConstantPoolReadWrite: Sized {
    spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(Self, int)>;
    /// Values that a class file can hold.
    spec fn good(&self) -> bool;
    fn read_from<C: ConstantPoolReader, R: Read>(cp: &mut C, reader: &mut R) -> (r: Result<Self>)
        ensures
            final(cp).pool() == old(cp).pool(),
            final(reader).data() == old(reader).data(),
            match r {
                Ok(v) => Self::reads(old(cp).pool(), old(reader).data(), old(reader).pos()) == Some((v, final(reader).pos())),
                Err(_) => Self::reads(old(cp).pool(), old(reader).data(), old(reader).pos()) is None,
            };
    fn write_to<C: ConstantPoolWriter, W: Write>(&self, cp: &mut C, writer: &mut W) -> (r: Result<()>)
        ensures
            final(cp).pool() == old(cp).pool(),
            pre(old(writer).out(), final(writer).out()),
            r is Ok && self.good() ==> forall|s: Seq<u8>| pre(final(writer).out(), s) ==> #[trigger] Self::reads(old(cp).pool(), s, old(writer).out().len() as int) == Some((*self, final(writer).out().len() as int));
}
/// ConstantPoolReadWriteAs of src/helper.rs, with the same contract.
pub trait ConstantPoolReadWriteAs<T> {
    spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(T, int)>;
    spec fn good(x: T) -> bool;
    fn read_from<C: ConstantPoolReader, R: Read>(cp: &mut C, reader: &mut R) -> (r: Result<T>)
        ensures
            final(cp).pool() == old(cp).pool(),
            final(reader).data() == old(reader).data(),
            match r {
                Ok(v) => Self::reads(old(cp).pool(), old(reader).data(), old(reader).pos()) == Some((v, final(reader).pos())),
                Err(_) => Self::reads(old(cp).pool(), old(reader).data(), old(reader).pos()) is None,
            };
    fn write_to<C: ConstantPoolWriter, W: Write>(x: &T, cp: &mut C, writer: &mut W) -> (r: Result<()>)
        ensures
            final(cp).pool() == old(cp).pool(),
            pre(old(writer).out(), final(writer).out()),
            r is Ok && Self::good(*x) ==> forall|s: Seq<u8>| pre(final(writer).out(), s) ==> #[trigger] Self::reads(old(cp).pool(), s, old(writer).out().len() as int) == Some((*x, final(writer).out().len() as int));
}
#[verifier::external_body]
pub fn same(s: Str) -> (r: Str) ensures r == s { unimplemented!() }
pub open spec fn str_in(p: Pool, s: Seq<u8>, i: int) -> Option<(Str, int)> {
    match u16::reads(s, i) { None => None, Some((n, j)) => match text_at(p, n) { None => None, Some(x) => Some((x, j)) } }
}
impl ConstantPoolReadWrite for Str {
    open spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(Str, int)> { str_in(p, s, i) }
    open spec fn good(&self) -> bool { true }
//@ item src/ty.rs fn read_from in impl ConstantPoolReadWrite for Cow<'static, Wtf8Str>
//@   errors
//@   subst ReadWrite::read_from(reader) => u16::read_from(reader)
//@   subst Into::into => same
//@   results
//@   resmap
//@ end
//@ item src/ty.rs fn write_to in impl ConstantPoolReadWrite for Cow<'static, Wtf8Str>
//@ end
}
impl ConstantPoolReadWrite for Option<Str> {
    /// Zero for none.
    open spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(Option<Str>, int)> {
        match u16::reads(s, i) { None => None, Some((n, j)) => if n == 0 { Some((None, j)) } else { match text_at(p, n) { None => None, Some(x) => Some((Some(x), j)) } } }
    }
    open spec fn good(&self) -> bool { true }
//@ item src/ty.rs fn read_from in impl ConstantPoolReadWrite for Option<Cow<'static, Wtf8Str>>
//@   errors
//@   subst ReadWrite::read_from(reader) => u16::read_from(reader)
//@   subst Into::into => Some
//@   results
//@   resmap
//@ end
//@ item src/ty.rs fn write_to in impl ConstantPoolReadWrite for Option<Cow<'static, Wtf8Str>>
//@ end
}
