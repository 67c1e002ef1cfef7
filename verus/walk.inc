pub struct Walk<'a> { pub s: &'a [u8], pub pos: usize }
impl<'a> Walk<'a> {
    pub open spec fn ok(&self, s: Seq<u8>) -> bool { self.s@ == s && self.pos <= self.s@.len() }
    pub fn new(s: &'a [u8]) -> (r: Self) ensures r.ok(s@), r.pos == 0 { Walk { s, pos: 0 } }
    pub fn next(&mut self) -> (r: Option<(usize, u8)>)
        requires old(self).pos <= old(self).s@.len()
        ensures final(self).s == old(self).s, final(self).pos <= final(self).s@.len(),
          old(self).pos < old(self).s@.len() ==> r == Some((old(self).pos, old(self).s@[old(self).pos as int])) && final(self).pos == old(self).pos + 1,
          old(self).pos >= old(self).s@.len() ==> r is None && final(self).pos == old(self).pos
    { if self.pos < self.s.len() { let p = self.pos; self.pos = p + 1; Some((p, self.s[p])) } else { None } }
    pub fn nth(&mut self, n: usize) -> (r: Option<(usize, u8)>)
        requires old(self).pos <= old(self).s@.len()
        ensures final(self).s == old(self).s, final(self).pos <= final(self).s@.len(),
          old(self).pos + n < old(self).s@.len() ==> r == Some(((old(self).pos + n) as usize, old(self).s@[old(self).pos + n])) && final(self).pos == old(self).pos + n + 1,
          old(self).pos + n >= old(self).s@.len() ==> r is None && final(self).pos == old(self).s@.len()
    { if n < self.s.len() - self.pos { let p = self.pos + n; self.pos = p + 1; Some((p, self.s[p])) } else { self.pos = self.s.len(); None } }
}
