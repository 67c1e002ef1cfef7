/// What has bytes.
pub trait Bytes {
    spec fn b(&self) -> Seq<u8>;
    fn get_bytes(&self) -> (r: &[u8]) ensures r@ == self.b();
}
impl Bytes for [u8] { open spec fn b(&self) -> Seq<u8> { self@ } fn get_bytes(&self) -> (r: &[u8]) { self } }
impl Bytes for Vec<u8> { open spec fn b(&self) -> Seq<u8> { self@ } fn get_bytes(&self) -> (r: &[u8]) { self.as_slice() } }
impl<B: Bytes + ?Sized> Bytes for &B { open spec fn b(&self) -> Seq<u8> { (**self).b() } fn get_bytes(&self) -> (r: &[u8]) { (**self).get_bytes() } }
impl Bytes for Buf { open spec fn b(&self) -> Seq<u8> { self@ } fn get_bytes(&self) -> (r: &[u8]) { self.v.as_slice() } }
/// Vec<u8>, with what its methods do said of the sequence as a whole.
pub struct Buf { pub v: Vec<u8> }
impl Buf {
    pub open spec fn view(&self) -> Seq<u8> { self.v@ }
    pub fn new() -> (r: Self) ensures r@ == Seq::<u8>::empty() { Buf { v: Vec::new() } }
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Seq::<u8>::empty() { Buf { v: Vec::new() } }
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.v.len() == 0 }
    pub fn get(&self, i: usize) -> (r: Option<&u8>) ensures i < self@.len() ==> r == Some(&self@[i as int]), i >= self@.len() ==> r is None { self.v.get(i) }
    pub fn clear(&mut self) ensures final(self)@ == Seq::<u8>::empty() { self.v.clear(); proof { assert(self@ =~= Seq::<u8>::empty()); } }
    pub fn push(&mut self, b: u8) ensures final(self)@ == old(self)@.push(b) { self.v.push(b); }
    pub fn truncate(&mut self, n: usize) ensures final(self)@ == if n <= old(self)@.len() { old(self)@.subrange(0, n as int) } else { old(self)@ } { self.v.truncate(n); proof { if n <= old(self)@.len() { assert(self@ =~= old(self)@.subrange(0, n as int)); } else { assert(self@ =~= old(self)@); } } }
    pub fn extend_from_slice<B: Bytes + ?Sized>(&mut self, b: &B) ensures final(self)@ == old(self)@ + b.b() { self.v.extend_from_slice(b.get_bytes()); proof { assert(self@ =~= old(self)@ + b.b()); } }
    pub fn reserve(&mut self, n: usize) ensures final(self)@ == old(self)@ {}
}
pub fn back3<B: Bytes + ?Sized>(s: &B) -> (r: Option<(u8, u8, u8)>)
    ensures s.b().len() < 3 ==> r is None, s.b().len() >= 3 ==> r == Some((s.b()[s.b().len() - 3], s.b()[s.b().len() - 2], s.b()[s.b().len() - 1]))
{ let s = s.get_bytes(); let n = s.len(); if n < 3 { None } else { Some((s[n - 3], s[n - 2], s[n - 1])) } }
pub fn front3<B: Bytes + ?Sized>(s: &B) -> (r: Option<(u8, u8, u8)>)
    ensures s.b().len() < 3 ==> r is None, s.b().len() >= 3 ==> r == Some((s.b()[0], s.b()[1], s.b()[2]))
{ let s = s.get_bytes(); if s.len() < 3 { None } else { Some((s[0], s[1], s[2])) } }
#[verifier::external_body]
pub fn range<B: Bytes + ?Sized>(s: &B, a: usize, b: usize) -> (r: &[u8]) requires a <= b <= s.b().len() ensures r@ == s.b().subrange(a as int, b as int) { &s.get_bytes()[a..b] }
pub fn range_from<B: Bytes + ?Sized>(s: &B, a: usize) -> (r: &[u8]) requires a <= s.b().len() ensures r@ == s.b().subrange(a as int, s.b().len() as int) { let n = s.get_bytes().len(); range(s, a, n) }
pub fn range_to<B: Bytes + ?Sized>(s: &B, b: usize) -> (r: &[u8]) requires b <= s.b().len() ensures r@ == s.b().subrange(0, b as int) { range(s, 0, b) }
