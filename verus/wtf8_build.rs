// C04: operations that build strings keep them well-formed, and their units are those of the parts.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ assume usize has 64 bits; a string has at most isize::MAX bytes
//@ assume encode_utf8_raw gives the generalized UTF-8 of a code point (proved of the compiled code for every code point by Kani, harness c04_encode of C04)
//@ assume Vec::truncate, extend_from_slice and reserve, char::from_u32_unchecked and slice patterns do what the standard library and the language say
//@ drop the types Wtf8Str and Wtf8String: one stand-in with their one field, as Deref makes the one the other
//@ include wtf8_spec.inc
//@ include wtf8_str.inc
#[derive(Clone, Copy)]
pub struct Codepoint { pub value: u32 }
#[verifier::external_body]
pub fn encode_utf8_raw(c: u32, b: &mut [u8; 4]) -> (r: &mut [u8]) requires c <= 0x10FFFF ensures r@ == utf8(c as int) { unimplemented!() }
#[verifier::external_body]
pub fn scalar(c: u32) -> (r: char) requires c <= 0xD7FF || 0xE000 <= c <= 0x10FFFF ensures r as u32 == c { unimplemented!() }
//@ include buf.inc
pub struct Wtf8Str { pub bytes: Buf }
proof fn surrogate_bits(y: u8, z: u8)
    requires 0xA0 <= y <= 0xBF
    ensures (0xD800u16 | (y as u16 & 0x3F) << 6 | z as u16 & 0x3F) == 0xD000 + (y - 0x80) * 64 + z % 64,
{
    assert((0xD800u16 | (y as u16 & 0x3F) << 6 | z as u16 & 0x3F) == 0xD000u16 + ((y as u16) - 0x80) * 64 + z as u16 % 64) by (bit_vector) requires 0xA0 <= y, y <= 0xBF;
}
proof fn pair_bits(h: u16, l: u16)
    requires is_high(h as int), is_low(l as int)
    ensures 0x10000 + ((((h - 0xD800) as u32) << 10) | (l - 0xDC00) as u32) == join_of(h as int, l as int)
{
    let (a, b) = ((h - 0xD800) as u32, (l - 0xDC00) as u32);
    assert(((a << 10) | b) == a * 1024 + b) by (bit_vector) requires a < 1024, b < 1024;
}
//@ item wtf8/src/lib.rs fn decode_surrogate
//@   pub
//@   ret r
//@   spec
//@   | requires 0xA0 <= second_byte <= 0xBF, tail(third_byte)
//@   | ensures r == sur(second_byte, third_byte)
//@   start
//@   | proof { surrogate_bits(second_byte, third_byte); }
//@ end
//@ item wtf8/src/lib.rs fn decode_surrogate_pair
//@   pub
//@   subst char::from_u32_unchecked => scalar
//@   ret r
//@   spec
//@   | requires is_high(lead as int), is_low(trail as int)
//@   | ensures r as u32 == join_of(lead as int, trail as int)
//@   start
//@   | proof { pair_bits(lead, trail); }
//@ end
impl Codepoint {
//@ item wtf8/src/lib.rs fn from_u32_unchecked
//@   ret r
//@   spec
//@   | ensures r.value == value
//@ end
//@ item wtf8/src/lib.rs fn from_char
//@   pub
//@   ret r
//@   spec
//@   | ensures r.value == value as u32
//@ end
//@ item wtf8/src/lib.rs fn to_u32 in impl Codepoint
//@   pub
//@   ret r
//@   spec
//@   | ensures r == self.value
//@ end
//@ item wtf8/src/lib.rs fn from_u32 in impl Codepoint
//@   pub
//@   ret r
//@   spec
//@   | ensures value <= 0x10FFFF ==> r == Some(Codepoint { value }), value > 0x10FFFF ==> r is None
//@ end
}
//@ assume `assert!` and slice_error_fail do not return where what is asked is wrong; slice_unchecked gives the bytes in between
#[verifier::external_body]
pub fn refuse_unless(b: bool) ensures b { assert!(b) }
#[verifier::external_body]
pub unsafe fn slice_unchecked(s: &Wtf8Str, begin: usize, end: usize) -> (r: &Wtf8Str) requires begin <= end <= s.bytes@.len() ensures r.bytes@ == s.bytes@.subrange(begin as int, end as int) { unimplemented!() }
#[verifier::external_body]
pub fn slice_error_fail(s: &Wtf8Str, begin: usize, end: usize) -> (r: &Wtf8Str) requires !(begin <= end && boundary(s.bytes@, begin as int) && boundary(s.bytes@, end as int)) ensures false { unimplemented!() }
proof fn cut2(s: Seq<u8>, a: int, b: int)
    requires good(s), 0 <= a <= b <= s.len(), boundary(s, a), boundary(s, b)
    ensures good(s.subrange(a, b)), units(s, 0) == units(s.subrange(0, a), 0) + units(s.subrange(a, b), 0) + units(s.subrange(b, s.len() as int), 0)
{
    cut(s, b);
    let t = s.subrange(0, b);
    cut(t, a);
    assert(t.subrange(0, a) =~= s.subrange(0, a));
    assert(t.subrange(a, b) =~= s.subrange(a, b));
}
/// The part of a string between two places is a string, and these places are boundaries.
pub open spec fn part(s: Seq<u8>, a: int, b: int, r: Seq<u8>) -> bool {
    &&& 0 <= a <= b <= s.len() && boundary(s, a) && boundary(s, b)
    &&& r == s.subrange(a, b) && good(r)
    &&& units(s, 0) == units(s.subrange(0, a), 0) + units(r, 0) + units(s.subrange(b, s.len() as int), 0)
}
proof fn parts(s: Seq<u8>) requires good(s) ensures forall|a: int, b: int| 0 <= a <= b <= s.len() && boundary(s, a) && boundary(s, b) ==> part(s, a, b, #[trigger] s.subrange(a, b)), boundary(s, 0)
{
    assert forall|a: int, b: int| 0 <= a <= b <= s.len() && boundary(s, a) && boundary(s, b) implies part(s, a, b, #[trigger] s.subrange(a, b)) by { cut2(s, a, b); }
}
//@ item wtf8/src/lib.rs fn is_code_point_boundary
//@   refpats
//@   ret r
//@   spec
//@   | ensures r == boundary(slice.bytes@, index as int)
//@ end
/// The units of code points, one after the other.
pub open spec fn all(s: Seq<Codepoint>, n: int) -> Seq<int> decreases n { if n <= 0 { seq![] } else { all(s, n - 1) + u16s(s[n - 1].value as int) } }
/// An iterator over code points: a finite sequence of them.
pub struct Cps { pub v: Vec<Codepoint>, pub pos: usize }
impl Cps {
    pub open spec fn ok(&self) -> bool { self.pos <= self.v@.len() && forall|i: int| 0 <= i < self.v@.len() ==> (#[trigger] self.v@[i]).value <= 0x10FFFF }
    pub fn into_iter(self) -> (r: Self) ensures r == self { self }
    #[verifier::external_body]
    pub fn size_hint(&self) -> (r: (usize, Option<usize>)) { unimplemented!() }
    pub fn next(&mut self) -> (r: Option<Codepoint>)
        requires old(self).ok()
        ensures final(self).ok(), final(self).v == old(self).v, old(self).pos < old(self).v@.len() ==> r == Some(old(self).v@[old(self).pos as int]) && final(self).pos == old(self).pos + 1,
            old(self).pos == old(self).v@.len() ==> r is None && final(self).pos == old(self).pos
    { if self.pos < self.v.len() { self.pos = self.pos + 1; Some(self.v[self.pos - 1]) } else { None } }
}
/// char::decode_utf16: pairs as characters, other units as they are, surrogates among them as errors.
pub struct Unpaired { pub code: u16 }
impl Unpaired { pub fn unpaired_surrogate(&self) -> (r: u16) ensures r == self.code { self.code } }
pub struct Decode<'a> { pub v: &'a [u16], pub pos: usize }
pub open spec fn paired(s: Seq<u16>, i: int) -> bool { i + 1 < s.len() && is_high(s[i] as int) && is_low(s[i + 1] as int) }
impl<'a> Decode<'a> {
    pub open spec fn ok(&self) -> bool { self.pos <= self.v@.len() }
    pub fn new(v: &'a [u16]) -> (r: Self) ensures r.ok(), r.v == v, r.pos == 0 { Decode { v, pos: 0 } }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Result<char, Unpaired>>)
        requires old(self).ok()
        ensures final(self).ok(), final(self).v == old(self).v, ({
            let (s, i, j) = (old(self).v@, old(self).pos as int, final(self).pos as int);
            if i == s.len() { r is None && i == j }
            else if paired(s, i) { j == i + 2 && r is Some && r->Some_0 is Ok && r->Some_0->Ok_0 as u32 == join_of(s[i] as int, s[i + 1] as int) }
            else if is_high(s[i] as int) || is_low(s[i] as int) { j == i + 1 && r is Some && r->Some_0 is Err && r->Some_0->Err_0.code == s[i] }
            else { j == i + 1 && r is Some && r->Some_0 is Ok && r->Some_0->Ok_0 as u32 == s[i] }
        })
    { unimplemented!() }
}
pub open spec fn ints(s: Seq<u16>, n: int) -> Seq<int> { Seq::new(n as nat, |i: int| s[i] as int) }
spec fn wide(b: Seq<u8>, s: Seq<u16>, i: int) -> bool {
    &&& good(b) && 0 <= i <= s.len()
    &&& units(b, 0) == ints(s, i)
    &&& ends_high(b) && i < s.len() ==> !is_low(s[i] as int)
}
proof fn wide_step(b: Seq<u8>, s: Seq<u16>, i: int)
    requires wide(b, s, i), i < s.len()
    ensures
        paired(s, i) ==> wide(b + utf8(join_of(s[i] as int, s[i + 1] as int)), s, i + 2),
        !paired(s, i) ==> wide(b + utf8(s[i] as int), s, i + 1),
{
    if paired(s, i) {
        let c = join_of(s[i] as int, s[i + 1] as int);
        one(c);
        cat(b, utf8(c));
        let x = b + utf8(c);
        assert(units(x, 0) =~= ints(s, i + 2));
        assert(!ends_high(x)) by { assert(x[x.len() - 3] == utf8(c)[1]); }
    } else {
        let c = s[i] as int;
        one(c);
        cat(b, utf8(c));
        let x = b + utf8(c);
        assert(units(x, 0) =~= ints(s, i + 1));
        if ends_high(x) && !is_high(c) {
            let k = utf8(c).len();
            assert(x[x.len() - 1] == utf8(c)[k - 1]);
            assert(x[x.len() - 2] == if k >= 2 { utf8(c)[k - 2] } else { b[b.len() - 1] });
            assert(x[x.len() - 3] == if k == 3 { utf8(c)[0] } else { x[x.len() - 3] });
            no_high(b, c);
        }
    }
}
proof fn no_high(b: Seq<u8>, c: int)
    requires good(b), 0 <= c <= 0x10FFFF, !is_high(c), good(b + utf8(c))
    ensures !ends_high(b + utf8(c))
{
    one(c);
    let x = b + utf8(c);
    if ends_high(x) {
        cut(x, x.len() - 3);
        assert(utf8(c).len() < 3);
        assert(x.subrange(x.len() - 3, x.len() as int)[0] == 0xED);
        let k = utf8(c).len();
        assert(!tail(utf8(c)[0]));
        assert(x[x.len() - k] == utf8(c)[0]);
        let t = x.subrange(x.len() - 3, x.len() as int);
        assert(t[3 - k] == utf8(c)[0]);
        assert(seq_len(t, 0) == 3);
    }
}
proof fn empty() ensures good(Seq::<u8>::empty()), units(Seq::<u8>::empty(), 0) == Seq::<int>::empty(), forall|s: Seq<u16>| wide(Seq::<u8>::empty(), s, 0), !ends_high(Seq::<u8>::empty())
{ reveal(units); assert forall|s: Seq<u16>| wide(Seq::<u8>::empty(), s, 0) by { assert(units(Seq::<u8>::empty(), 0) =~= ints(s, 0)); } }
impl Wtf8Str {
    pub fn new() -> (r: Self) ensures r.bytes@ == Seq::<u8>::empty() { Wtf8Str { bytes: Buf::new() } }
    pub fn with_capacity(n: usize) -> (r: Self) ensures r.bytes@ == Seq::<u8>::empty() { Wtf8Str { bytes: Buf::new() } }
    pub fn len(&self) -> (r: usize) ensures r == self.bytes@.len() { self.bytes.len() }
//@ item wtf8/src/lib.rs fn final_lead_surrogate
//@   slices
//@   ret r
//@   spec
//@   | requires good(self.bytes@)
//@   | ensures r is Some <==> ends_high(self.bytes@), r is Some ==> r->Some_0 == sur(self.bytes@[self.bytes@.len() - 2], self.bytes@[self.bytes@.len() - 1]) && is_high(r->Some_0 as int)
//@   start
//@   | proof { if ends_high(self.bytes@) { high_end(self.bytes@); } }
//@ end
//@ item wtf8/src/lib.rs fn initial_trail_surrogate
//@   slices
//@   ret r
//@   spec
//@   | requires good(self.bytes@)
//@   | ensures r is Some <==> starts_low(self.bytes@), r is Some ==> r->Some_0 == sur(self.bytes@[1], self.bytes@[2]) && is_low(r->Some_0 as int)
//@ end
//@ item wtf8/src/lib.rs fn push_code_point_unchecked
//@   spec
//@   | requires code_point.value <= 0x10FFFF
//@   | ensures final(self).bytes@ == old(self).bytes@ + utf8(code_point.value as int)
//@ end
//@ item wtf8/src/lib.rs fn push_char
//@   spec
//@   | requires good(old(self).bytes@)
//@   | ensures final(self).bytes@ == old(self).bytes@ + utf8(c as u32 as int), good(final(self).bytes@), units(final(self).bytes@, 0) == units(old(self).bytes@, 0) + u16s(c as u32 as int)
//@   start
//@   | proof { one(c as u32 as int); cat(self.bytes@, utf8(c as u32 as int)); }
//@ end
//@ item wtf8/src/lib.rs fn push in impl Wtf8String
//@   spec
//@   | requires good(old(self).bytes@), code_point.value <= 0x10FFFF
//@   | ensures good(final(self).bytes@), units(final(self).bytes@, 0) == units(old(self).bytes@, 0) + u16s(code_point.value as int)
//@   start
//@   | proof {
//@   |     let c = code_point.value as int;
//@   |     one(c);
//@   |     if !(ends_high(self.bytes@) && is_low(c)) { cat(self.bytes@, utf8(c)); }
//@   |     else {
//@   |         let (a, b) = (self.bytes@, utf8(c));
//@   |         join(a, b);
//@   |         assert(b.subrange(3, 3) =~= seq![]);
//@   |     }
//@   | }
//@ end
//@ item wtf8/src/lib.rs fn push_wtf8
//@   ranges
//@   spec
//@   | requires good(old(self).bytes@), good(other.bytes@), other.bytes@.len() <= 0x7FFF_FFFF_FFFF_FFFF
//@   | ensures good(final(self).bytes@), units(final(self).bytes@, 0) == units(old(self).bytes@, 0) + units(other.bytes@, 0)
//@   start
//@   | proof {
//@   |     let (a, b) = (self.bytes@, other.bytes@);
//@   |     if ends_high(a) && starts_low(b) {
//@   |         join(a, b);
//@   |     } else { cat(a, b); }
//@   | }
//@ end
//@ item wtf8/src/lib.rs fn truncate in impl Wtf8String
//@   subst assert!(is_code_point_boundary(self, new_len)) => refuse_unless(is_code_point_boundary(self, new_len))
//@   spec
//@   | requires good(old(self).bytes@)
//@   | ensures part(old(self).bytes@, 0, new_len as int, final(self).bytes@)
//@   start
//@   | proof { parts(self.bytes@); }
//@ end
//@ item wtf8/src/lib.rs fn index in impl ops::Index<ops::Range<usize>> for Wtf8Str
//@   subst fn index => fn index_range
//@   subst ops::Range<usize> => std::ops::Range<usize>
//@   ret r
//@   spec
//@   | requires good(self.bytes@)
//@   | ensures part(self.bytes@, range.start as int, range.end as int, r.bytes@)
//@   start
//@   | proof { parts(self.bytes@); }
//@ end
//@ item wtf8/src/lib.rs fn index in impl ops::Index<ops::RangeFrom<usize>> for Wtf8Str
//@   subst fn index => fn index_from
//@   subst ops::RangeFrom<usize> => std::ops::RangeFrom<usize>
//@   ret r
//@   spec
//@   | requires good(self.bytes@)
//@   | ensures part(self.bytes@, range.start as int, self.bytes@.len() as int, r.bytes@)
//@   start
//@   | proof { parts(self.bytes@); }
//@ end
//@ item wtf8/src/lib.rs fn index in impl ops::Index<ops::RangeTo<usize>> for Wtf8Str
//@   subst fn index => fn index_to
//@   subst ops::RangeTo<usize> => std::ops::RangeTo<usize>
//@   ret r
//@   spec
//@   | requires good(self.bytes@)
//@   | ensures part(self.bytes@, 0, range.end as int, r.bytes@)
//@   start
//@   | proof { parts(self.bytes@); }
//@ end
//@ item wtf8/src/lib.rs fn extend in impl Extend<Codepoint> for Wtf8String
//@   foreach it
//@   subst <T: IntoIterator<Item = Codepoint>>(&mut self, iter: T) => (&mut self, iter: Cps)
//@   spec
//@   | requires good(old(self).bytes@), iter.ok(), iter.pos == 0
//@   | ensures good(final(self).bytes@), units(final(self).bytes@, 0) == units(old(self).bytes@, 0) + all(iter.v@, iter.v@.len() as int)
//@   loop 0
//@   | invariant it.ok(), it.v == iter.v, good(self.bytes@), units(self.bytes@, 0) =~= units(old(self).bytes@, 0) + all(iter.v@, it.pos as int)
//@   | ensures it.pos == it.v@.len()
//@   | decreases it.v@.len() - it.pos
//@ end
//@ item wtf8/src/lib.rs fn from_iter in impl FromIterator<Codepoint> for Wtf8String
//@   subst <T: IntoIterator<Item = Codepoint>>(iter: T) -> Wtf8String => (iter: Cps) -> Wtf8Str
//@   subst Wtf8String::new() => Wtf8Str::new()
//@   ret r
//@   spec
//@   | requires iter.ok(), iter.pos == 0
//@   | ensures good(r.bytes@), units(r.bytes@, 0) =~= all(iter.v@, iter.v@.len() as int)
//@   start
//@   | proof { empty(); }
//@ end
//@ item wtf8/src/lib.rs fn from_wide
//@   forloop 0 it
//@   subst char::decode_utf16(v.iter().cloned()) => Decode::new(v)
//@   subst Wtf8String::with_capacity => Wtf8Str::with_capacity
//@   subst -> Wtf8String => -> Wtf8Str
//@   ret r
//@   spec
//@   | ensures good(r.bytes@), units(r.bytes@, 0) == ints(v@, v@.len() as int)
//@   loop 0
//@   | invariant it.ok(), it.v == v, wide(string.bytes@, v@, it.pos as int)
//@   | ensures it.pos == v@.len()
//@   | decreases v@.len() - it.pos
//@   loopstart 0
//@   | proof { wide_step(string.bytes@, v@, units(string.bytes@, 0).len() as int); }
//@   start
//@   | proof { empty(); }
//@ end
}
fn main() {}
}
