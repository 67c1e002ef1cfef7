//@ drop Vec: a stand-in by the sequence of its elements, with the operations of the standard library that occur
#[verifier::accept_recursive_types(T)]
pub struct Vec<T> { pub s: Ghost<Seq<T>> }
#[verifier::accept_recursive_types(T)]
pub struct Iter<'a, T> { pub s: Ghost<Seq<T>>, pub at: Ghost<int>, pub p: core::marker::PhantomData<&'a T> }
#[verifier::accept_recursive_types(T)]
pub struct IntoIter<T> { pub s: Ghost<Seq<T>>, pub at: Ghost<int> }
impl<T> Vec<T> {
    pub open spec fn view(&self) -> Seq<T> { self.s@ }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: Iter<'a, T>) ensures r.s == self.s, r.at@ == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: IntoIter<T>) ensures r.s == self.s, r.at@ == 0 { unimplemented!() }
}
impl<'a, T> Iter<'a, T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a T>)
        requires 0 <= old(self).at@ <= old(self).s@.len()
        ensures final(self).s == old(self).s, if old(self).at@ < old(self).s@.len() { r is Some && *r->Some_0 == old(self).s@[old(self).at@] && final(self).at@ == old(self).at@ + 1 } else { r is None && final(self).at == old(self).at }
    { unimplemented!() }
}
impl<T> IntoIter<T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        requires 0 <= old(self).at@ <= old(self).s@.len()
        ensures final(self).s == old(self).s, if old(self).at@ < old(self).s@.len() { r == Some(old(self).s@[old(self).at@]) && final(self).at@ == old(self).at@ + 1 } else { r is None && final(self).at == old(self).at }
    { unimplemented!() }
}
pub open spec fn list<T>(s: Seq<T>) -> Vec<T> { Vec { s: Ghost(s) } }
/// `a..=b` of i32.
pub struct Upto { pub at: i64, pub end: i32 }
pub fn upto(a: i32, b: i32) -> (r: Upto) ensures r.at == a, r.end == b { Upto { at: a as i64, end: b } }
impl Upto {
    pub fn next(&mut self) -> (r: Option<i32>)
        requires old(self).at <= old(self).end + 1, old(self).at >= i32::MIN
        ensures final(self).end == old(self).end, if old(self).at <= old(self).end { r == Some(old(self).at as i32) && final(self).at == old(self).at + 1 } else { r is None && final(self).at == old(self).at }
    { if self.at <= self.end as i64 { let x = self.at as i32; self.at = self.at + 1; Some(x) } else { None } }
}
