pub struct Text;
pub enum Error { Invalid(&'static str, Text), IO }
pub type Result<T> = core::result::Result<T, Error>;
/// std::io::Write: what has been written so far.
pub trait Write: Sized {
    spec fn out(&self) -> Seq<u8>;
    fn write_all(&mut self, b: &[u8]) -> (r: Result<()>)
        ensures r is Ok ==> final(self).out() == old(self).out() + b@, old(self).out().is_prefix_of(final(self).out());
}
/// std::io::Read: what is still to be read.
pub trait Read: Sized {
    spec fn rest(&self) -> Seq<u8>;
    fn read_exact(&mut self, b: &mut [u8]) -> (r: Result<()>)
        ensures
            final(b)@.len() == old(b)@.len(),
            r is Ok ==> old(b)@.len() <= old(self).rest().len() && final(b)@ == old(self).rest().take(old(b)@.len() as int) && final(self).rest() == old(self).rest().skip(old(b)@.len() as int),
            r is Err ==> old(b)@.len() > old(self).rest().len();
}
/// What is written is `bytes`, what is read is as `parse` says: the value and how many bytes it takes.
pub trait ReadWrite: Sized {
    spec fn bytes(&self) -> Seq<u8>;
    spec fn fits(&self) -> bool;
    spec fn parse(s: Seq<u8>) -> Option<(Self, int)>;
    fn read_from<T: Read>(reader: &mut T) -> (r: Result<Self>)
        ensures match r {
            Ok(v) => Self::parse(old(reader).rest()) is Some && Self::parse(old(reader).rest())->Some_0.0 == v && final(reader).rest() == old(reader).rest().skip(Self::parse(old(reader).rest())->Some_0.1),
            Err(_) => Self::parse(old(reader).rest()) is None,
        };
    fn write_to<T: Write>(&self, writer: &mut T) -> (r: Result<()>)
        ensures r is Ok ==> self.fits() && final(writer).out() == old(writer).out() + self.bytes(), old(writer).out().is_prefix_of(final(writer).out());
}
pub open spec fn be16(n: int) -> Seq<u8> { seq![(n / 256) as u8, (n % 256) as u8] }
pub open spec fn num16(s: Seq<u8>) -> int { s[0] * 256 + s[1] }
#[verifier::external_body]
pub fn from_be16(b: [u8; 2]) -> (r: u16) ensures r == num16(b@) { u16::from_be_bytes(b) }
#[verifier::external_body]
pub fn to_be16(n: u16) -> (r: [u8; 2]) ensures r@ == be16(n as int) { n.to_be_bytes() }
impl ReadWrite for u16 {
    open spec fn bytes(&self) -> Seq<u8> { be16(*self as int) }
    open spec fn fits(&self) -> bool { true }
    open spec fn parse(s: Seq<u8>) -> Option<(Self, int)> { if s.len() < 2 { None } else { Some((num16(s) as u16, 2)) } }
//@ item src/rw.rs fn read_from in impl ReadWrite for $i
//@   subst <$i>::from_be_bytes => from_be16
//@   subst $s => 2
//@ end
//@ item src/rw.rs fn write_to in impl ReadWrite for $i
//@   subst self.to_be_bytes() => to_be16(*self)
//@ end
}
//@ item src/rw.rs fn write_len
//@   pub
//@   subst len.to_string().into() => Text
//@   subst |_| => |_e: core::num::TryFromIntError|
//@   ret r
//@   spec
//@   | ensures r is Ok ==> len <= 65535 && final(writer).out() == old(writer).out() + be16(len as int), old(writer).out().is_prefix_of(final(writer).out())
//@ end
