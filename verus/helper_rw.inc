/// ReadWriteAs of src/helper.rs, with the same contract as ReadWrite.
pub trait ReadWriteAs<T> {
    spec fn reads(s: Seq<u8>, i: int) -> Option<(T, int)>;
    fn read_from<R: Read>(reader: &mut R) -> (r: Result<T>)
        ensures
            final(reader).data() == old(reader).data(),
            match r {
                Ok(v) => Self::reads(old(reader).data(), old(reader).pos()) == Some((v, final(reader).pos())),
                Err(_) => Self::reads(old(reader).data(), old(reader).pos()) is None,
            };
    fn write_to<W: Write>(x: &T, writer: &mut W) -> (r: Result<()>)
        ensures
            pre(old(writer).out(), final(writer).out()),
            r is Ok ==> forall|s: Seq<u8>| pre(final(writer).out(), s) ==> #[trigger] Self::reads(s, old(writer).out().len() as int) == Some((*x, final(writer).out().len() as int));
}
pub struct Identity;
impl<T: ReadWrite> ReadWriteAs<T> for Identity {
    open spec fn reads(s: Seq<u8>, i: int) -> Option<(T, int)> { T::reads(s, i) }
//@ item src/helper.rs fn read_from in impl<T: ReadWrite> ReadWriteAs<T> for Identity
//@   subst crate::Result => Result
//@ end
//@ item src/helper.rs fn write_to in impl<T: ReadWrite> ReadWriteAs<T> for Identity
//@   subst crate::Result => Result
//@ end
}
/// n values one after the other.
pub open spec fn many<H: ReadWriteAs<T>, T>(s: Seq<u8>, i: int, n: int) -> Option<(Seq<T>, int)> decreases n {
    if n <= 0 { Some((Seq::empty(), i)) } else { match many::<H, T>(s, i, n - 1) { None => None, Some((v, j)) => match H::reads(s, j) { None => None, Some((x, k)) => Some((v.push(x), k)) } } }
}
pub proof fn many_stops<H: ReadWriteAs<T>, T>(s: Seq<u8>, i: int, k: int, n: int)
    requires k <= n, many::<H, T>(s, i, k) is None
    ensures many::<H, T>(s, i, n) is None
    decreases n
{ if k < n { many_stops::<H, T>(s, i, k, n - 1); } }
/// TryInto<usize> of u32.
fn to_usize(n: u32) -> (r: Result<usize, core::num::TryFromIntError>) ensures r == Ok::<usize, core::num::TryFromIntError>(n as usize) { Ok(n as usize) }
pub struct VecLen<Helper, L> { pub p: core::marker::PhantomData<(Helper, L)> }
pub type Vec32 = VecLen<Identity, u32>;
impl<Helper: ReadWriteAs<T>, T> ReadWriteAs<Vec<T>> for VecLen<Helper, u32> {
    open spec fn reads(s: Seq<u8>, i: int) -> Option<(Vec<T>, int)> {
        match u32::reads(s, i) { None => None, Some((n, j)) => match many::<Helper, T>(s, j, n as int) { None => None, Some((v, k)) => Some((list(v), k)) } }
    }
//@ item src/helper.rs fn read_from in impl<Helper: ReadWriteAs<T>, T, L> ReadWriteAs<Vec<T>> for VecLen<Helper, L> where L: TryInto<usize> + TryFrom<usize> + ReadWrite + Display + Copy,
//@   errors
//@   subst crate::Result => Result
//@   subst L => u32
//@   subst len.try_into() => to_usize(len)
//@   results
//@   collect try all
//@   iter 0 it
//@   loop 0
//@   | invariant reader.data() == old(reader).data(), n == len, u32::reads(old(reader).data(), old(reader).pos()) is Some, u32::reads(old(reader).data(), old(reader).pos())->Some_0.0 == len,
//@   |     many::<Helper, T>(reader.data(), u32::reads(old(reader).data(), old(reader).pos())->Some_0.1, it.index()) == Some((all@, reader.pos())),
//@   loopstart 0
//@   | proof { if many::<Helper, T>(reader.data(), u32::reads(old(reader).data(), old(reader).pos())->Some_0.1, it.index() + 1) is None { many_stops::<Helper, T>(reader.data(), u32::reads(old(reader).data(), old(reader).pos())->Some_0.1, it.index() + 1, n as int); } }
//@ end
    #[verifier::external_body]
    fn write_to<W: Write>(x: &Vec<T>, writer: &mut W) -> Result<()> { unimplemented!() }
}
