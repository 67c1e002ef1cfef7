// C05: what is seen of a string is its content.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ assume usize has 64 bits; a string has at most isize::MAX bytes
//@ assume slice::Iter gives the elements in order; str::from_utf8_unchecked and String::from_utf8_unchecked keep the bytes; Vec and Cow as the standard library says
//@ assume encode_utf16_raw gives the one or two units of a code point (proved of the compiled code for every code point by Kani, harness c05_wide of C05)
//@ drop the types Wtf8Str and Wtf8String: one stand-in with their one field, as Deref makes the one the other; text stands as its bytes
//@ present wtf8/src/lib.rs const UTF8_REPLACEMENT_CHARACTER: &str = "\u{FFFD}";
//@ include wtf8_spec.inc
//@ include wtf8_str.inc
//@ include buf.inc
pub assume_specification<T>[ Option::<T>::unwrap_unchecked ](o: Option<T>) -> (r: T) requires o is Some ensures o == Some(r);
pub fn overwrite(v: &mut Buf, a: usize, b: usize, x: &[u8])
    requires a <= b <= old(v)@.len(), x@.len() == b - a
    ensures final(v)@.len() == old(v)@.len(), final(v)@ == old(v)@.subrange(0, a as int) + x@ + old(v)@.subrange(b as int, old(v)@.len() as int)
{
    let mut i: usize = 0;
    while i < x.len()
        invariant i <= x@.len(), a <= b <= old(v)@.len(), x@.len() == b - a, v@.len() == old(v)@.len(),
            forall|j: int| 0 <= j < v@.len() ==> #[trigger] v@[j] == if a <= j < a + i { x@[j - a] } else { old(v)@[j] },
        decreases x@.len() - i
    { v.v.set(a + i, x[i]); i += 1; }
    proof { assert(v@ =~= old(v)@.subrange(0, a as int) + x@ + old(v)@.subrange(b as int, old(v)@.len() as int)); }
}
pub struct Iter<'a> { pub s: &'a [u8], pub pos: usize }
impl<'a> Iter<'a> {
    pub open spec fn ok(&self) -> bool { self.pos <= self.s@.len() }
    pub fn next(&mut self) -> (r: Option<&'a u8>)
        requires old(self).ok()
        ensures final(self).ok(), final(self).s == old(self).s,
          old(self).pos < old(self).s@.len() ==> r == Some(&old(self).s@[old(self).pos as int]) && final(self).pos == old(self).pos + 1,
          old(self).pos == old(self).s@.len() ==> r is None && final(self).pos == old(self).pos
    { if self.pos < self.s.len() { let p = self.pos; self.pos = p + 1; Some(&self.s[p]) } else { None } }
    pub fn as_slice(&self) -> (r: &'a [u8]) requires self.ok() ensures r@ == self.s@.subrange(self.pos as int, self.s@.len() as int) { range_from(self.s, self.pos) }
}
pub fn walk<'a, B: Bytes + ?Sized>(s: &'a B) -> (r: Iter<'a>) ensures r.s@ == s.b(), r.pos == 0 { Iter { s: s.get_bytes(), pos: 0 } }
pub struct Text { pub bytes: Vec<u8> }
pub enum Cow { Borrowed(Text), Owned(Text) }
impl Cow { pub open spec fn b(&self) -> Seq<u8> { match *self { Cow::Borrowed(t) => t.bytes@, Cow::Owned(t) => t.bytes@ } } }
#[verifier::external_body]
pub unsafe fn text_of<B: Bytes>(b: &B) -> (r: Text) requires clean(b.b(), 0) ensures r.bytes@ == b.b() { unimplemented!() }
#[verifier::external_body]
pub unsafe fn owned_text_of<B: Bytes>(b: B) -> (r: Text) requires clean(b.b(), 0) ensures r.bytes@ == b.b() { unimplemented!() }
pub fn replacement() -> (r: &'static [u8]) ensures r@ == repl() { let r: &'static [u8; 3] = &[0xEF, 0xBF, 0xBD]; proof { assert(r@ =~= repl()); } r }
pub open spec fn repl() -> Seq<u8> { seq![0xEFu8, 0xBFu8, 0xBDu8] }

/// Sequences of generalized UTF-8 from i on.
pub open spec fn plain(s: Seq<u8>, i: int) -> bool decreases s.len() - i { i >= s.len() || (seq_len(s, i) > 0 && plain(s, i + seq_len(s, i))) }
pub open spec fn is_sur(s: Seq<u8>, i: int) -> bool { high(s, i) || low(s, i) }
/// UTF-8 from i on: no surrogates.
pub open spec fn clean(s: Seq<u8>, i: int) -> bool decreases s.len() - i { i >= s.len() || (seq_len(s, i) > 0 && !is_sur(s, i) && clean(s, i + seq_len(s, i))) }
/// The first surrogate from i on.
#[verifier::opaque]
pub open spec fn next_sur(s: Seq<u8>, i: int) -> Option<int> decreases s.len() - i {
    if i >= s.len() || seq_len(s, i) <= 0 { None } else if is_sur(s, i) { Some(i) } else { next_sur(s, i + seq_len(s, i)) }
}
/// Each surrogate replaced, all else as it is.
#[verifier::opaque]
pub open spec fn lossy(s: Seq<u8>, i: int) -> Seq<u8> decreases s.len() - i {
    if i >= s.len() || seq_len(s, i) <= 0 { seq![] }
    else { (if is_sur(s, i) { repl() } else { s.subrange(i, i + seq_len(s, i)) }) + lossy(s, i + seq_len(s, i)) }
}
proof fn wf_plain(s: Seq<u8>, i: int, h: bool) requires wf(s, i, h), 0 <= i ensures plain(s, i) decreases s.len() - i { if i < s.len() { wf_plain(s, i + seq_len(s, i), high(s, i)); } }
proof fn plain_rest(s: Seq<u8>, k: int, i: int)
    requires plain(s, i), 0 <= k <= i <= s.len()
    ensures plain(s.subrange(k, s.len() as int), i - k)
    decreases s.len() - i
{
    let t = s.subrange(k, s.len() as int);
    if i < s.len() {
        let n = seq_len(s, i);
        let j = i - k;
        assert(t[j] == s[i] && (n >= 2 ==> t[j + 1] == s[i + 1]) && (n >= 3 ==> t[j + 2] == s[i + 2]) && (n >= 4 ==> t[j + 3] == s[i + 3]));
        assert(seq_len(t, j) == n);
        plain_rest(s, k, i + n);
        assert(i + n - k == j + n);
    }
}
proof fn sur_facts(s: Seq<u8>, i: int)
    requires plain(s, i), 0 <= i <= s.len()
    ensures
        next_sur(s, i) is None ==> clean(s, i) && lossy(s, i) == s.subrange(i, s.len() as int),
        clean(s, i) ==> next_sur(s, i) is None,
        next_sur(s, i) is Some ==> ({ let p = next_sur(s, i)->Some_0; i <= p && p + 3 <= s.len() && is_sur(s, p) && seq_len(s, p) == 3 && plain(s, p + 3) && lossy(s, i) == s.subrange(i, p) + repl() + lossy(s, p + 3) }),
    decreases s.len() - i
{
    reveal(next_sur); reveal(lossy);
    if i < s.len() {
        let n = seq_len(s, i);
        if !is_sur(s, i) {
            sur_facts(s, i + n);
            if next_sur(s, i) is None { assert(lossy(s, i) =~= s.subrange(i, s.len() as int)); }
            else { let p = next_sur(s, i)->Some_0; assert(lossy(s, i) =~= s.subrange(i, p) + repl() + lossy(s, p + 3)); }
        } else { assert(s.subrange(i, i) + repl() =~= repl()); }
    } else { assert(s.subrange(i, s.len() as int) =~= seq![]); }
}
proof fn clean_behind(a: Seq<u8>, b: Seq<u8>, k: int)
    requires clean(b, k), 0 <= k <= b.len()
    ensures clean(a + b, a.len() + k)
    decreases b.len() - k
{
    let (c, j) = (a + b, a.len() + k);
    if k < b.len() {
        let n = seq_len(b, k);
        assert(c[j] == b[k] && (n >= 2 ==> c[j + 1] == b[k + 1]) && (n >= 3 ==> c[j + 2] == b[k + 2]) && (n >= 4 ==> c[j + 3] == b[k + 3]));
        assert(seq_len(c, j) == n);
        assert(!is_sur(c, j)) by { if c[j] == 0xED { assert(n == 3); } }
        clean_behind(a, b, k + n);
        assert(a.len() + (k + n) == j + n);
    }
}
proof fn lossy_clean(s: Seq<u8>, i: int)
    requires plain(s, i), 0 <= i <= s.len()
    ensures clean(lossy(s, i), 0), lossy(s, i).len() == s.len() - i
    decreases s.len() - i
{
    reveal(lossy);
    if i < s.len() {
        let n = seq_len(s, i);
        lossy_clean(s, i + n);
        let x = if is_sur(s, i) { repl() } else { s.subrange(i, i + n) };
        let c = lossy(s, i);
        assert(is_sur(s, i) ==> n == 3);
        assert(x.len() == n);
        assert(forall|j: int| 0 <= j < n ==> #[trigger] c[j] == x[j]);
        assert(c[0] == x[0] && (n >= 2 ==> c[1] == x[1]) && (n >= 3 ==> c[2] == x[2]) && (n >= 4 ==> c[3] == x[3]));
        assert(seq_len(c, 0) == n && !is_sur(c, 0));
        clean_behind(x, lossy(s, i + n), 0);
    }
}
/// All these look at what is behind only.
proof fn behind(s: Seq<u8>, t: Seq<u8>, i: int)
    requires s.len() == t.len(), 0 <= i, forall|j: int| i <= j < s.len() ==> s[j] == t[j]
    ensures plain(s, i) == plain(t, i), next_sur(s, i) == next_sur(t, i), lossy(s, i) == lossy(t, i)
    decreases s.len() - i
{
    reveal(next_sur); reveal(lossy);
    if i < s.len() && seq_len(s, i) > 0 { assert(s.subrange(i, i + seq_len(s, i)) =~= t.subrange(i, i + seq_len(s, i))); behind(s, t, i + seq_len(s, i)); }
}
proof fn surrogate_bits(y: u8, z: u8)
    requires 0xA0 <= y <= 0xBF
    ensures (0xD800u16 | (y as u16 & 0x3F) << 6 | z as u16 & 0x3F) == 0xD000 + (y - 0x80) * 64 + z % 64,
{
    assert((0xD800u16 | (y as u16 & 0x3F) << 6 | z as u16 & 0x3F) == 0xD000u16 + ((y as u16) - 0x80) * 64 + z as u16 % 64) by (bit_vector) requires 0xA0 <= y, y <= 0xBF;
}
//@ item wtf8/src/lib.rs fn decode_surrogate
//@   pub
//@   ret r
//@   spec
//@   | requires 0xA0 <= second_byte <= 0xBF, tail(third_byte)
//@   | ensures r == sur(second_byte, third_byte)
//@   start
//@   | proof { surrogate_bits(second_byte, third_byte); }
//@ end
//@ item wtf8/src/std_internal.rs const CONT_MASK
//@ end
//@ item wtf8/src/std_internal.rs fn utf8_first_byte
//@   ret r
//@   spec
//@   | requires width == 2
//@   | ensures r == (byte & 0x1F) as u32
//@   start
//@   | proof { assert(0x7Fu8 >> width == 0x1F) by (bit_vector) requires width == 2; }
//@ end
//@ item wtf8/src/std_internal.rs fn utf8_acc_cont_byte
//@   ret r
//@   spec
//@   | ensures r == (ch << 6) | (byte & 0x3F) as u32
//@ end
proof fn bits(x: u8, y: u8, z: u8, w: u8)
    requires 0x80 <= y <= 0xBF
    ensures
        0xC2 <= x <= 0xDF ==> (((x & 0x1F) as u32) << 6 | (y & 0x3F) as u32) == (x - 0xC0) * 64 + (y - 0x80),
        0xE0 <= x <= 0xEF && 0x80 <= z <= 0xBF ==> (((x & 0x1F) as u32) << 12 | (((y & 0x3F) as u32) << 6 | (z & 0x3F) as u32)) == (x - 0xE0) * 4096 + (y - 0x80) * 64 + (z - 0x80),
        0xF0 <= x <= 0xF4 && 0x80 <= z <= 0xBF && 0x80 <= w <= 0xBF ==> ((((x & 0x1F) as u32) & 7) << 18 | (((((y & 0x3F) as u32) << 6 | (z & 0x3F) as u32)) << 6 | (w & 0x3F) as u32)) == (x - 0xF0) * 0x40000 + (y - 0x80) * 4096 + (z - 0x80) * 64 + (w - 0x80),
{
    assert(0xC2 <= x && x <= 0xDF ==> (((x & 0x1F) as u32) << 6 | (y & 0x3F) as u32) == (x as u32 - 0xC0) * 64 + (y as u32 - 0x80)) by (bit_vector) requires 0x80 <= y, y <= 0xBF;
    assert(0xE0 <= x && x <= 0xEF && 0x80 <= z && z <= 0xBF ==> (((x & 0x1F) as u32) << 12 | (((y & 0x3F) as u32) << 6 | (z & 0x3F) as u32)) == ((x as u32 - 0xE0) * 4096 + (y as u32 - 0x80) * 64 + (z as u32 - 0x80))) by (bit_vector) requires 0x80 <= y, y <= 0xBF;
    assert(0xF0 <= x && x <= 0xF4 && 0x80 <= z && z <= 0xBF && 0x80 <= w && w <= 0xBF ==> ((((x & 0x1F) as u32) & 7) << 18 | (((((y & 0x3F) as u32) << 6 | (z & 0x3F) as u32)) << 6 | (w & 0x3F) as u32)) == ((x as u32 - 0xF0) * 0x40000 + (y as u32 - 0x80) * 4096 + (z as u32 - 0x80) * 64 + (w as u32 - 0x80))) by (bit_vector) requires 0x80 <= y, y <= 0xBF;
}
//@ item wtf8/src/std_internal.rs fn next_code_point
//@   subst <'a, I: Iterator<Item = &'a u8>>(bytes: &mut I) => (bytes: &mut Iter<'_>)
//@   ret r
//@   spec
//@   | requires old(bytes).ok(), plain(old(bytes).s@, old(bytes).pos as int)
//@   | ensures final(bytes).ok(), final(bytes).s == old(bytes).s, plain(final(bytes).s@, final(bytes).pos as int),
//@   |   old(bytes).pos == old(bytes).s@.len() ==> r is None && final(bytes).pos == old(bytes).pos,
//@   |   old(bytes).pos < old(bytes).s@.len() ==> r is Some && r->Some_0 == cp(old(bytes).s@, old(bytes).pos as int) && final(bytes).pos == old(bytes).pos + seq_len(old(bytes).s@, old(bytes).pos as int),
//@   start
//@   | proof { let (s, p) = (bytes.s@, bytes.pos as int); if p + 1 < s.len() && tail(s[p + 1]) { bits(s[p], s[p + 1], s[p + 2], s[p + 3]); } }
//@ end
#[derive(Clone, Copy)]
pub struct Codepoint { pub value: u32 }
pub struct Wtf8CodePoints<'a> { pub bytes: Iter<'a> }
impl<'a> Wtf8CodePoints<'a> {
    pub open spec fn ok(&self) -> bool { self.bytes.ok() && plain(self.bytes.s@, self.bytes.pos as int) }
//@ item wtf8/src/lib.rs fn next in impl<'a> Iterator for Wtf8CodePoints<'a>
//@   optmap
//@   ret r
//@   spec
//@   | requires old(self).ok()
//@   | ensures final(self).ok(), final(self).bytes.s == old(self).bytes.s,
//@   |   old(self).bytes.pos == old(self).bytes.s@.len() ==> r is None && final(self).bytes.pos == old(self).bytes.pos,
//@   |   old(self).bytes.pos < old(self).bytes.s@.len() ==> r is Some && r->Some_0.value == cp(old(self).bytes.s@, old(self).bytes.pos as int) && final(self).bytes.pos == old(self).bytes.pos + seq_len(old(self).bytes.s@, old(self).bytes.pos as int),
//@ end
}
pub struct Wtf8Str { pub bytes: Buf }
impl Wtf8Str { #[verifier::external_body] pub unsafe fn from_bytes_unchecked<'a>(b: &'a [u8]) -> (r: &'a Wtf8Str) requires plain(b@, 0) ensures r.bytes@ == b@ { unimplemented!() } }
impl<'a> Wtf8CodePoints<'a> {
//@ item wtf8/src/lib.rs fn as_str in impl<'a> Wtf8CodePoints<'a>
//@   ret r
//@   spec
//@   | requires self.ok()
//@   | ensures r.bytes@ == self.bytes.s@.subrange(self.bytes.pos as int, self.bytes.s@.len() as int)
//@   start
//@   | proof { plain_rest(self.bytes.s@, self.bytes.pos as int, self.bytes.pos as int); }
//@ end
}
pub struct Len { pub n: usize }
impl Len { pub fn len(&self) -> (r: usize) ensures r == self.n { self.n } }
#[verifier::external_body]
pub fn encode_utf16_raw(c: u32, b: &mut [u16; 2]) -> (r: Len)
    requires c <= 0x10FFFF
    ensures r.n == u16s(c as int).len(), final(b)@[0] == u16s(c as int)[0], r.n == 2 ==> final(b)@[1] == u16s(c as int)[1]
{ unimplemented!() }
pub struct EncodeWide<'a> { pub code_points: Wtf8CodePoints<'a>, pub extra: u16 }
impl<'a> EncodeWide<'a> {
    /// The units still to come.
    pub open spec fn rest(&self) -> Seq<int> { (if self.extra != 0 { seq![self.extra as int] } else { seq![] }) + units(self.code_points.bytes.s@, self.code_points.bytes.pos as int) }
//@ item wtf8/src/lib.rs fn next in impl<'a> Iterator for EncodeWide<'a>
//@   optmap
//@   subst std_internal::encode_utf16_raw => encode_utf16_raw
//@   ret r
//@   spec
//@   | requires old(self).code_points.ok()
//@   | ensures final(self).code_points.ok(), final(self).code_points.bytes.s == old(self).code_points.bytes.s,
//@   |   r is None ==> old(self).rest() =~= Seq::<int>::empty() && final(self).rest() =~= Seq::<int>::empty(),
//@   |   r is Some ==> old(self).rest() =~= seq![r->Some_0 as int] + final(self).rest(),
//@   start
//@   | proof { reveal(units); }
//@ end
}
type Wtf8String = Wtf8Str;
impl Wtf8Str {
    pub fn len(&self) -> (r: usize) ensures r == self.bytes@.len() { self.bytes.len() }
//@ item wtf8/src/lib.rs fn codepoints
//@   subst self.bytes.iter() => walk(&self.bytes)
//@   ret r
//@   spec
//@   | requires good(self.bytes@)
//@   | ensures r.ok(), r.bytes.s@ == self.bytes@, r.bytes.pos == 0
//@   start
//@   | proof { wf_plain(self.bytes@, 0, false); }
//@ end
//@ item wtf8/src/lib.rs fn encode_wide
//@   ret r
//@   spec
//@   | requires good(self.bytes@)
//@   | ensures r.code_points.ok(), r.rest() =~= units(self.bytes@, 0)
//@ end
//@ item wtf8/src/lib.rs fn next_surrogate
//@   attr
//@   | #[verifier::loop_isolation(false)]
//@   refpats
//@   subst self.bytes[pos..].iter() => walk(range_from(&self.bytes, pos))
//@   ret r
//@   spec
//@   | requires pos <= self.bytes@.len() <= 0x7FFF_FFFF_FFFF_FFFF, plain(self.bytes@, pos as int)
//@   | ensures r is Some == next_sur(self.bytes@, pos as int) is Some, r is Some ==> r->Some_0.0 == next_sur(self.bytes@, pos as int)->Some_0 && r->Some_0.1 == cp(self.bytes@, r->Some_0.0 as int)
//@   start
//@   | let ghost start = pos as int;
//@   loop 0
//@   | invariant 0 <= start <= pos <= self.bytes@.len() <= 0x7FFF_FFFF_FFFF_FFFF, plain(self.bytes@, pos as int), iter.ok(), iter.s@ == self.bytes@.subrange(start, self.bytes@.len() as int), iter.pos == pos - start,
//@   |   next_sur(self.bytes@, start) == next_sur(self.bytes@, pos as int)
//@   | decreases self.bytes@.len() - pos
//@   loopstart 0
//@   | proof {
//@   |     reveal(next_sur);
//@   |     let (s, p) = (self.bytes@, pos as int);
//@   |     assert(p < s.len() ==> iter.s@[iter.pos as int] == s[p] && seq_len(s, p) > 0 && p + seq_len(s, p) <= s.len());
//@   |     assert(p + 1 < s.len() ==> iter.s@[iter.pos + 1] == s[p + 1]);
//@   |     assert(p + 2 < s.len() ==> iter.s@[iter.pos + 2] == s[p + 2]);
//@   | }
//@ end
//@ item wtf8/src/lib.rs fn as_str in impl Wtf8Str
//@   subst str::from_utf8_unchecked => text_of
//@   subst &str => Text
//@   ret r
//@   spec
//@   | requires good(self.bytes@), self.bytes@.len() <= 0x7FFF_FFFF_FFFF_FFFF
//@   | ensures r is Some <==> clean(self.bytes@, 0), r is Some ==> r->Some_0.bytes@ == self.bytes@
//@   start
//@   | proof { wf_plain(self.bytes@, 0, false); sur_facts(self.bytes@, 0); }
//@ end
//@ item wtf8/src/lib.rs fn into_string in impl Wtf8String
//@   subst String::from_utf8_unchecked => owned_text_of
//@   subst Result<String, Wtf8String> => Result<Text, Wtf8String>
//@   ret r
//@   spec
//@   | requires good(self.bytes@), self.bytes@.len() <= 0x7FFF_FFFF_FFFF_FFFF
//@   | ensures r is Ok <==> clean(self.bytes@, 0), r is Ok ==> r->Ok_0.bytes@ == self.bytes@, r is Err ==> r->Err_0 == self
//@   start
//@   | proof { wf_plain(self.bytes@, 0, false); sur_facts(self.bytes@, 0); }
//@ end
//@ item wtf8/src/lib.rs fn to_string_lossy
//@   ranges
//@   subst str::from_utf8_unchecked => text_of
//@   subst String::from_utf8_unchecked => owned_text_of
//@   subst Cow<'_, str> => Cow
//@   subst Vec::with_capacity => Buf::with_capacity
//@   subst UTF8_REPLACEMENT_CHARACTER.as_bytes() => replacement()
//@   ret r
//@   spec
//@   | requires good(self.bytes@), self.bytes@.len() <= 0x7FFF_FFFF_FFFF_FFFF
//@   | ensures r.b() == lossy(self.bytes@, 0)
//@   loop 0
//@   | invariant plain(self.bytes@, pos as int), pos <= self.bytes@.len() <= 0x7FFF_FFFF_FFFF_FFFF, utf8_bytes@ + lossy(self.bytes@, pos as int) == lossy(self.bytes@, 0), clean(lossy(self.bytes@, 0), 0), wtf8_bytes == &self.bytes
//@   | decreases self.bytes@.len() - pos
//@   loopstart 0
//@   | proof {
//@   |     sur_facts(self.bytes@, pos as int);
//@   |     if next_sur(self.bytes@, pos as int) is Some {
//@   |         let p = next_sur(self.bytes@, pos as int)->Some_0;
//@   |         assert(utf8_bytes@ + (self.bytes@.subrange(pos as int, p) + repl() + lossy(self.bytes@, p + 3)) =~= utf8_bytes@ + self.bytes@.subrange(pos as int, p) + repl() + lossy(self.bytes@, p + 3));
//@   |     }
//@   | }
//@   start
//@   | proof { wf_plain(self.bytes@, 0, false); sur_facts(self.bytes@, 0); lossy_clean(self.bytes@, 0);
//@   |     assert(self.bytes@.subrange(0, self.bytes@.len() as int) =~= self.bytes@);
//@   |     if next_sur(self.bytes@, 0) is Some { let p = next_sur(self.bytes@, 0)->Some_0; assert(Seq::<u8>::empty() + self.bytes@.subrange(0, p) + repl() =~= self.bytes@.subrange(0, p) + repl()); }
//@   | }
//@ end
//@ item wtf8/src/lib.rs fn into_string_lossy
//@   ranges
//@   mutself me
//@   subst String::from_utf8_unchecked => owned_text_of
//@   subst -> String => -> Text
//@   subst UTF8_REPLACEMENT_CHARACTER.as_bytes() => replacement()
//@   ret r
//@   spec
//@   | requires good(self.bytes@), self.bytes@.len() <= 0x7FFF_FFFF_FFFF_FFFF
//@   | ensures r.bytes@ == lossy(self.bytes@, 0)
//@   start
//@   | let ghost s = self.bytes@;
//@   | proof { wf_plain(s, 0, false); lossy_clean(s, 0); assert(s.subrange(0, 0) + lossy(s, 0) =~= lossy(s, 0)); }
//@   loop 0
//@   | invariant s == self.bytes@, plain(s, pos as int), pos <= s.len() <= 0x7FFF_FFFF_FFFF_FFFF, me.bytes@.len() == s.len(), forall|j: int| pos <= j < s.len() ==> #[trigger] me.bytes@[j] == s[j], me.bytes@.subrange(0, pos as int) + lossy(s, pos as int) == lossy(s, 0), clean(lossy(s, 0), 0)
//@   | decreases s.len() - pos
//@   loopstart 0
//@   | proof {
//@   |     behind(me.bytes@, s, pos as int);
//@   |     sur_facts(s, pos as int);
//@   |     let t = me.bytes@;
//@   |     if next_sur(s, pos as int) is Some {
//@   |         let p = next_sur(s, pos as int)->Some_0;
//@   |         let u = t.subrange(0, p) + repl() + t.subrange(p + 3, t.len() as int);
//@   |         assert(t.subrange(0, p) =~= t.subrange(0, pos as int) + s.subrange(pos as int, p));
//@   |         assert(u.subrange(0, p + 3) =~= t.subrange(0, p) + repl());
//@   |         assert(u.subrange(0, p + 3) + lossy(s, p + 3) =~= t.subrange(0, pos as int) + (s.subrange(pos as int, p) + repl() + lossy(s, p + 3)));
//@   |     } else { assert(t =~= t.subrange(0, pos as int) + s.subrange(pos as int, s.len() as int)); }
//@   | }
//@ end
}
fn main() {}
}
