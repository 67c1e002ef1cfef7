//@ assume flag types (bitflags): a value has only bits that its type defines; from_bits_truncate keeps exactly those
macro_rules! flags { ($t: ident) => { verus! {
pub struct $t { pub bits: u16 }
impl $t {
    /// All bits that the type defines.
    pub uninterp spec fn mask() -> u16;
    #[verifier::external_body]
    pub fn from_bits_truncate(n: u16) -> (r: Self) ensures r.bits == n & Self::mask() { unimplemented!() }
    #[verifier::external_body]
    pub fn bits(&self) -> (r: u16) ensures r == self.bits, r & Self::mask() == r { unimplemented!() }
}
} } }
