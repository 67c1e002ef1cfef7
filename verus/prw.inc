pub mod prefix {
use vstd::prelude::*;
/// The first part of what is written in the end.
#[verifier::opaque]
pub open spec fn pre(a: Seq<u8>, b: Seq<u8>) -> bool { a.is_prefix_of(b) }
pub broadcast proof fn pre_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) requires #[trigger] pre(a, b), #[trigger] pre(b, c) ensures pre(a, c) { reveal(pre); assert(a =~= c.subrange(0, a.len() as int)); }
pub broadcast proof fn pre_same(a: Seq<u8>) ensures #[trigger] pre(a, a) { reveal(pre); assert(a =~= a.subrange(0, a.len() as int)); }
}
pub use prefix::*;
broadcast use {prefix::pre_trans, prefix::pre_same};
pub struct Text;
pub enum Error { Invalid(&'static str, Text), AttributeLength(u32, u32, &'static str), IO }
pub type Result<T, E = Error> = core::result::Result<T, E>;
/// What has been written stands there in the end.
pub open spec fn stands(b: Seq<u8>, out: Seq<u8>, i: int) -> bool { forall|s: Seq<u8>, k: int| pre(out, s) && i <= k < i + b.len() ==> 0 <= k < s.len() && #[trigger] s[k] == b[k - i] }
/// std::io::Write into memory: what has been written so far.
pub trait Write: Sized {
    spec fn out(&self) -> Seq<u8>;
    /// Into memory nothing fails.
    spec fn sure(&self) -> bool;
    fn write_all(&mut self, b: &[u8]) -> (r: Result<()>)
        ensures old(self).sure() ==> r is Ok, r is Ok ==> final(self).out() == old(self).out() + b@ && stands(b@, final(self).out(), old(self).out().len() as int), pre(old(self).out(), final(self).out());
}
/// std::io::Read from memory: all of it, and how much has been read.
pub trait Read: Sized {
    spec fn data(&self) -> Seq<u8>;
    spec fn pos(&self) -> int;
    fn read_exact(&mut self, b: &mut [u8]) -> (r: Result<()>)
        ensures
            final(b)@.len() == old(b)@.len(), final(self).data() == old(self).data(),
            r is Ok ==> old(self).pos() + old(b)@.len() <= old(self).data().len() && final(b)@ == old(self).data().subrange(old(self).pos(), old(self).pos() + old(b)@.len()) && final(self).pos() == old(self).pos() + old(b)@.len(),
            r is Err ==> old(self).pos() + old(b)@.len() > old(self).data().len();
}
/// What stands in s at i: the value and where it ends. Both directions are held against this.
pub trait ReadWrite: Sized {
    spec fn reads(s: Seq<u8>, i: int) -> Option<(Self, int)>;
    fn read_from<R: Read>(reader: &mut R) -> (r: Result<Self>)
        ensures
            final(reader).data() == old(reader).data(),
            match r {
                Ok(v) => Self::reads(old(reader).data(), old(reader).pos()) == Some((v, final(reader).pos())),
                Err(_) => Self::reads(old(reader).data(), old(reader).pos()) is None,
            };
    fn write_to<W: Write>(&self, writer: &mut W) -> (r: Result<()>)
        ensures
            pre(old(writer).out(), final(writer).out()),
            r is Ok ==> forall|s: Seq<u8>| pre(final(writer).out(), s) ==> #[trigger] Self::reads(s, old(writer).out().len() as int) == Some((*self, final(writer).out().len() as int));
}
pub open spec fn u8_at(s: Seq<u8>, i: int) -> int { s[i] as int }
pub open spec fn u16_at(s: Seq<u8>, i: int) -> int { s[i] * 256 + s[i + 1] }
pub open spec fn u32_at(s: Seq<u8>, i: int) -> int { s[i] * 0x1000000 + s[i + 1] * 0x10000 + s[i + 2] * 256 + s[i + 3] }
pub open spec fn signed(n: int, half: int) -> int { if n >= half { n - 2 * half } else { n } }
pub open spec fn u8_in(s: Seq<u8>, i: int) -> Option<(u8, int)> { if 0 <= i && i + 1 <= s.len() { Some((s[i], i + 1)) } else { None } }
pub open spec fn i8_in(s: Seq<u8>, i: int) -> Option<(i8, int)> { if 0 <= i && i + 1 <= s.len() { Some((signed(u8_at(s, i), 128) as i8, i + 1)) } else { None } }
pub open spec fn u16_in(s: Seq<u8>, i: int) -> Option<(u16, int)> { if 0 <= i && i + 2 <= s.len() { Some((u16_at(s, i) as u16, i + 2)) } else { None } }
pub open spec fn i16_in(s: Seq<u8>, i: int) -> Option<(i16, int)> { if 0 <= i && i + 2 <= s.len() { Some((signed(u16_at(s, i), 0x8000) as i16, i + 2)) } else { None } }
pub open spec fn u32_in(s: Seq<u8>, i: int) -> Option<(u32, int)> { if 0 <= i && i + 4 <= s.len() { Some((u32_at(s, i) as u32, i + 4)) } else { None } }
pub open spec fn i32_in(s: Seq<u8>, i: int) -> Option<(i32, int)> { if 0 <= i && i + 4 <= s.len() { Some((signed(u32_at(s, i), 0x80000000) as i32, i + 4)) } else { None } }
//@ assume numbers are read and written big-endian (C01, proved by Kani of the compiled code); readers and writers are in memory or behave as such
macro_rules! number { ($t: ident, $f: ident) => { verus! {
impl ReadWrite for $t {
    open spec fn reads(s: Seq<u8>, i: int) -> Option<(Self, int)> { $f(s, i) }
    #[verifier::external_body]
    fn read_from<R: Read>(reader: &mut R) -> Result<Self> { unimplemented!() }
    #[verifier::external_body]
    fn write_to<W: Write>(&self, writer: &mut W) -> (r: Result<()>) ensures old(writer).sure() ==> r is Ok { unimplemented!() }
}
} } }
number!(u8, u8_in);
number!(i8, i8_in);
number!(u16, u16_in);
number!(i16, i16_in);
number!(u32, u32_in);
