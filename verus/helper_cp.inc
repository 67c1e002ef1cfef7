pub struct Identity;
impl<T: ConstantPoolReadWrite> ConstantPoolReadWriteAs<T> for Identity {
    open spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(T, int)> { T::reads(p, s, i) }
    open spec fn good(x: T) -> bool { x.good() }
//@ item src/helper.rs fn read_from in impl<T: ConstantPoolReadWrite> ConstantPoolReadWriteAs<T> for Identity
//@   subst crate::Result => Result
//@ end
//@ item src/helper.rs fn write_to in impl<T: ConstantPoolReadWrite> ConstantPoolReadWriteAs<T> for Identity
//@   subst crate::Result => Result
//@ end
}
pub struct Normal;
impl<T: ReadWrite> ConstantPoolReadWriteAs<T> for Normal {
    open spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(T, int)> { T::reads(s, i) }
    open spec fn good(x: T) -> bool { true }
//@ item src/helper.rs fn read_from in impl<T: ReadWrite> ConstantPoolReadWriteAs<T> for Normal
//@   subst crate::Result => Result
//@   subst _: &mut C => cp: &mut C
//@ end
//@ item src/helper.rs fn write_to in impl<T: ReadWrite> ConstantPoolReadWriteAs<T> for Normal
//@   subst crate::Result => Result
//@   subst _: &mut C => cp: &mut C
//@ end
}
pub struct StringCp<const TAG: u8>;
impl<const TAG: u8> ConstantPoolReadWriteAs<Str> for StringCp<TAG> {
    open spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(Str, int)> {
        match u16::reads(s, i) { None => None, Some((n, j)) => match indirect_at(p, TAG, n) { None => None, Some(x) => Some((x, j)) } }
    }
    open spec fn good(x: Str) -> bool { true }
//@ item src/helper.rs fn read_from in impl<const TAG: u8> ConstantPoolReadWriteAs<Cow<'static, Wtf8Str>> for StringCp<TAG>
//@   errors
//@   subst crate::Result => Result
//@   subst Cow<'static, Wtf8Str> => Str
//@   results
//@ end
//@ item src/helper.rs fn write_to in impl<const TAG: u8> ConstantPoolReadWriteAs<Cow<'static, Wtf8Str>> for StringCp<TAG>
//@   assume TAG is 7, 8, 19 or 20, as in the four names that helper.rs gives to StringCp
//@   subst crate::Result => Result
//@   subst Cow<'static, Wtf8Str> => Str
//@   start
//@   | proof { assume(TAG == 7 || TAG == 8 || TAG == 19 || TAG == 20); }
//@ end
}
impl<const TAG: u8> ConstantPoolReadWriteAs<Option<Str>> for StringCp<TAG> {
    open spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(Option<Str>, int)> {
        match u16::reads(s, i) { None => None, Some((n, j)) => if n == 0 { Some((None, j)) } else { match indirect_at(p, TAG, n) { None => None, Some(x) => Some((Some(x), j)) } } }
    }
    open spec fn good(x: Option<Str>) -> bool { true }
//@ item src/helper.rs fn read_from in impl<const TAG: u8> ConstantPoolReadWriteAs<Option<Cow<'static, Wtf8Str>>> for StringCp<TAG>
//@   errors
//@   subst crate::Result => Result
//@   subst Cow<'static, Wtf8Str> => Str
//@   results
//@   resmap
//@ end
//@ item src/helper.rs fn write_to in impl<const TAG: u8> ConstantPoolReadWriteAs<Option<Cow<'static, Wtf8Str>>> for StringCp<TAG>
//@   subst crate::Result => Result
//@   subst Cow<'static, Wtf8Str> => Str
//@   start
//@   | proof { assume(TAG == 7 || TAG == 8 || TAG == 19 || TAG == 20); }
//@ end
}
//@ present src/helper.rs pub type Class = StringCp<7>; pub type String = StringCp<8>; pub type Module = StringCp<19>; pub type Package = StringCp<20>;
//@ present src/helper.rs pub type Vec8<H = Identity> = VecLen<H, u8>; pub type Vec16<H = Identity> = VecLen<H, u16>;
/// n values one after the other.
pub open spec fn many<H: ConstantPoolReadWriteAs<T>, T>(p: Pool, s: Seq<u8>, i: int, n: int) -> Option<(Seq<T>, int)> decreases n {
    if n <= 0 { Some((Seq::empty(), i)) } else { match many::<H, T>(p, s, i, n - 1) { None => None, Some((v, j)) => match H::reads(p, s, j) { None => None, Some((x, k)) => Some((v.push(x), k)) } } }
}
pub proof fn many_stops<H: ConstantPoolReadWriteAs<T>, T>(p: Pool, s: Seq<u8>, i: int, k: int, n: int)
    requires k <= n, many::<H, T>(p, s, i, k) is None
    ensures many::<H, T>(p, s, i, n) is None
    decreases n
{ if k < n { many_stops::<H, T>(p, s, i, k, n - 1); } }
pub struct VecLen<Helper, L> { pub p: core::marker::PhantomData<(Helper, L)> }
pub type Vec8<H = Identity> = VecLen<H, u8>;
pub type Vec16<H = Identity> = VecLen<H, u16>;
//@ drop VecLen: for lengths of u8 and u16, one by one; the conversions of lengths stand as functions
fn u8_from(n: usize) -> (r: core::result::Result<u8, ()>) ensures r is Ok <==> n <= 255, r is Ok ==> r->Ok_0 == n { if n <= 255 { Ok(n as u8) } else { Err(()) } }
fn u16_from(n: usize) -> (r: core::result::Result<u16, ()>) ensures r is Ok <==> n <= 65535, r is Ok ==> r->Ok_0 == n { if n <= 65535 { Ok(n as u16) } else { Err(()) } }
impl<Helper: ConstantPoolReadWriteAs<T>, T> ConstantPoolReadWriteAs<Vec<T>> for VecLen<Helper, u8> {
    open spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(Vec<T>, int)> {
        match u8::reads(s, i) { None => None, Some((n, j)) => match many::<Helper, T>(p, s, j, n as int) { None => None, Some((v, k)) => Some((list(v), k)) } }
    }
    open spec fn good(x: Vec<T>) -> bool { forall|k: int| 0 <= k < x@.len() ==> Helper::good(#[trigger] x@[k]) }
//@ item src/helper.rs fn read_from in impl<Helper: ConstantPoolReadWriteAs<T>, T, L> ConstantPoolReadWriteAs<Vec<T>> for VecLen<Helper, L> where L: Into<usize> + TryFrom<usize> + ReadWrite,
//@   subst crate::Result => Result
//@   subst L => u8
//@   subst len.into() => len as usize
//@   collect try all
//@   iter 0 it
//@   loop 0
//@   | invariant cp.pool() == old(cp).pool(), reader.data() == old(reader).data(), n == len, u8::reads(old(reader).data(), old(reader).pos()) is Some, u8::reads(old(reader).data(), old(reader).pos())->Some_0.0 == len,
//@   |     many::<Helper, T>(cp.pool(), reader.data(), u8::reads(old(reader).data(), old(reader).pos())->Some_0.1, it.index()) == Some((all@, reader.pos())),
//@   loopstart 0
//@   | proof { if many::<Helper, T>(cp.pool(), reader.data(), u8::reads(old(reader).data(), old(reader).pos())->Some_0.1, it.index() + 1) is None { many_stops::<Helper, T>(cp.pool(), reader.data(), u8::reads(old(reader).data(), old(reader).pos())->Some_0.1, it.index() + 1, n as int); } }
//@ end
//@ item src/helper.rs fn write_to in impl<Helper: ConstantPoolReadWriteAs<T>, T, L> ConstantPoolReadWriteAs<Vec<T>> for VecLen<Helper, L> where L: Into<usize> + TryFrom<usize> + ReadWrite,
//@   errors
//@   subst crate::Result => Result
//@   subst L::try_from => u8_from
//@   subst L::write_to => u8::write_to
//@   subst it = x; => it = x.iter();
//@   results
//@   forloop 0 it
//@   start
//@   | let ghost i0 = writer.out().len() as int; let ghost y = *x;
//@   after u8::write_to(&l, writer)?;
//@   | let ghost j0 = writer.out().len() as int;
//@   loop 0
//@   | invariant
//@   |     cp.pool() == old(cp).pool(), it.s == y.s, 0 <= it.at@ <= y@.len(), l == y@.len(), pre(old(writer).out(), writer.out()),
//@   |     Self::good(y) ==> forall|s: Seq<u8>| #[trigger] pre(writer.out(), s) ==> u8::reads(s, i0) == Some((l, j0)) && many::<Helper, T>(cp.pool(), s, j0, it.at@) == Some((y@.take(it.at@), writer.out().len() as int)),
//@   | ensures it.at@ == y@.len(),
//@   | decreases y@.len() - it.at@
//@   before Ok(())
//@   | assert(y@.take(y@.len() as int) =~= y@);
//@ end
}
impl<Helper: ConstantPoolReadWriteAs<T>, T> ConstantPoolReadWriteAs<Vec<T>> for VecLen<Helper, u16> {
    open spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(Vec<T>, int)> {
        match u16::reads(s, i) { None => None, Some((n, j)) => match many::<Helper, T>(p, s, j, n as int) { None => None, Some((v, k)) => Some((list(v), k)) } }
    }
    open spec fn good(x: Vec<T>) -> bool { forall|k: int| 0 <= k < x@.len() ==> Helper::good(#[trigger] x@[k]) }
//@ item src/helper.rs fn read_from in impl<Helper: ConstantPoolReadWriteAs<T>, T, L> ConstantPoolReadWriteAs<Vec<T>> for VecLen<Helper, L> where L: Into<usize> + TryFrom<usize> + ReadWrite,
//@   subst crate::Result => Result
//@   subst L => u16
//@   subst len.into() => len as usize
//@   collect try all
//@   iter 0 it
//@   loop 0
//@   | invariant cp.pool() == old(cp).pool(), reader.data() == old(reader).data(), n == len, u16::reads(old(reader).data(), old(reader).pos()) is Some, u16::reads(old(reader).data(), old(reader).pos())->Some_0.0 == len,
//@   |     many::<Helper, T>(cp.pool(), reader.data(), u16::reads(old(reader).data(), old(reader).pos())->Some_0.1, it.index()) == Some((all@, reader.pos())),
//@   loopstart 0
//@   | proof { if many::<Helper, T>(cp.pool(), reader.data(), u16::reads(old(reader).data(), old(reader).pos())->Some_0.1, it.index() + 1) is None { many_stops::<Helper, T>(cp.pool(), reader.data(), u16::reads(old(reader).data(), old(reader).pos())->Some_0.1, it.index() + 1, n as int); } }
//@ end
//@ item src/helper.rs fn write_to in impl<Helper: ConstantPoolReadWriteAs<T>, T, L> ConstantPoolReadWriteAs<Vec<T>> for VecLen<Helper, L> where L: Into<usize> + TryFrom<usize> + ReadWrite,
//@   errors
//@   subst crate::Result => Result
//@   subst L::try_from => u16_from
//@   subst L::write_to => u16::write_to
//@   subst it = x; => it = x.iter();
//@   results
//@   forloop 0 it
//@   start
//@   | let ghost i0 = writer.out().len() as int; let ghost y = *x;
//@   after u16::write_to(&l, writer)?;
//@   | let ghost j0 = writer.out().len() as int;
//@   loop 0
//@   | invariant
//@   |     cp.pool() == old(cp).pool(), it.s == y.s, 0 <= it.at@ <= y@.len(), l == y@.len(), pre(old(writer).out(), writer.out()),
//@   |     Self::good(y) ==> forall|s: Seq<u8>| #[trigger] pre(writer.out(), s) ==> u16::reads(s, i0) == Some((l, j0)) && many::<Helper, T>(cp.pool(), s, j0, it.at@) == Some((y@.take(it.at@), writer.out().len() as int)),
//@   | ensures it.at@ == y@.len(),
//@   | decreases y@.len() - it.at@
//@   before Ok(())
//@   | assert(y@.take(y@.len() as int) =~= y@);
//@ end
}
