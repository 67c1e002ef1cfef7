// C02: strings to Modified UTF-8.
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
verus! {
global size_of usize == 8;
//@ assume usize has 64 bits; a string has fewer than 2^60 code points (it is in memory)
//@ assume Wtf8Str::codepoints gives the code points of the string in order, each at most 0x10FFFF (its contract is C05's)
//@ drop the type Wtf8Str: stands as its sequence of code points
pub struct CodePoint { pub value: u32 }
impl CodePoint {
    pub open spec fn v(&self) -> u32 { self.value }
    pub fn to_u32(&self) -> (r: u32) ensures r == self.v() { self.value }
}
pub struct Wtf8Str { pub cps: Vec<CodePoint> }
impl Wtf8Str {
    pub open spec fn view(&self) -> Seq<CodePoint> { self.cps@ }
    pub open spec fn ok(&self) -> bool { self@.len() < 0x1000_0000_0000_0000 && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).v() <= 0x10FFFF }
    pub open spec fn codes(&self) -> Seq<int> { self@.map_values(|c: CodePoint| c.v() as int) }
    pub open spec fn refs(&self) -> Seq<&CodePoint> { self@.map_values(|c: CodePoint| &c) }
    pub fn codepoints(&self) -> (r: std::slice::Iter<'_, CodePoint>)
        ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, r.remaining() == self.refs()
    { let r = self.cps.iter(); assert(r.remaining() =~= self.refs()); r }
}
//@ include mutf8_enc.inc
/// The code points that take n bytes.
pub open spec fn takes(c: u32, n: u32) -> bool {
    if n == 1 { 1 <= c && c <= 0x7F } else if n == 2 { c == 0 || 0x80 <= c && c <= 0x7FF } else if n == 3 { 0x800 <= c && c <= 0xFFFF } else { n == 6 && 0x10000 <= c && c <= 0x10FFFF }
}
/// Byte k of the n bytes of c, in bits.
pub open spec fn byte(c: u32, n: u32, k: u32) -> u8 {
    if n == 1 { c as u8 }
    else if n == 2 { if k == 0 { (0xC0u32 | (c >> 6)) as u8 } else { (0x80u32 | (c & 63)) as u8 } }
    else if n == 3 { if k == 0 { (0xE0u32 | (c >> 12)) as u8 } else if k == 1 { (0x80u32 | ((c >> 6) & 63)) as u8 } else { (0x80u32 | (c & 63)) as u8 } }
    else if k == 0 || k == 3 { 0xEDu8 }
    else if k == 1 { (0xA0u32 | (((sub(c, 0x10000)) >> 16) & 15)) as u8 }
    else if k == 2 { (0x80u32 | ((c >> 10) & 63)) as u8 }
    else if k == 4 { (0xB0u32 | ((c >> 6) & 15)) as u8 }
    else { (0x80u32 | (c & 63)) as u8 }
}
proof fn b1(c: u32) requires takes(c, 1) ensures enc(c as int) =~= seq![byte(c, 1, 0)] {}
proof fn b2(c: u32) requires takes(c, 2) ensures enc(c as int) =~= seq![byte(c, 2, 0), byte(c, 2, 1)] {
    assert((0xC0u32 | (c >> 6)) == 0xC0 + c / 64 && (0x80u32 | (c & 63)) == 0x80 + c % 64) by (bit_vector) requires c <= 0x7FF;
}
proof fn b3(c: u32) requires takes(c, 3) ensures enc(c as int) =~= seq![byte(c, 3, 0), byte(c, 3, 1), byte(c, 3, 2)] {
    assert((0xE0u32 | (c >> 12)) == 0xE0 + c / 4096 && (0x80u32 | ((c >> 6) & 63)) == 0x80 + c / 64 % 64 && (0x80u32 | (c & 63)) == 0x80 + c % 64) by (bit_vector) requires c <= 0xFFFF;
}
proof fn b6(c: u32) requires takes(c, 6) ensures enc(c as int) =~= seq![byte(c, 6, 0), byte(c, 6, 1), byte(c, 6, 2), byte(c, 6, 3), byte(c, 6, 4), byte(c, 6, 5)] {
    let d = sub(c, 0x10000);
    let h = add(0xD800, d / 1024);
    let l = add(0xDC00, d % 1024);
    assert(h == 0xD800 + d / 1024 && l == 0xDC00 + d % 1024 && d == c - 0x10000);
    assert(0xE0u32 + h / 4096 == 0xED && 0xE0u32 + l / 4096 == 0xED
        && 0x80u32 + h / 64 % 64 == (0xA0u32 | (d >> 16) & 15)
        && 0x80u32 + h % 64 == (0x80u32 | (c >> 10) & 63)
        && 0x80u32 + l / 64 % 64 == (0xB0u32 | (c >> 6) & 15)
        && 0x80u32 + l % 64 == (0x80u32 | c & 63)) by (bit_vector)
        requires 0x10000 <= c, c <= 0x10FFFF, d == sub(c, 0x10000), h == add(0xD800, d / 1024), l == add(0xDC00, d % 1024);
    assert(unit(h as int) =~= seq![byte(c, 6, 0), byte(c, 6, 1), byte(c, 6, 2)]);
    assert(unit(l as int) =~= seq![byte(c, 6, 3), byte(c, 6, 4), byte(c, 6, 5)]);
}
//@ item src/mod_utf8.rs fn string_to_modified_utf8
//@   ret r
//@   spec
//@   | requires str.ok()
//@   | ensures r@ == encs(str.codes(), str@.len() as int)
//@   iter 0 it
//@   loop 0
//@   | invariant utflen <= 6 * it.index@, str.ok(), it.snapshot@.remaining() == str.refs()
//@   iter 1 it
//@   loop 1
//@   | invariant str.ok(), it.snapshot@.remaining() == str.refs(), vec@ == encs(str.codes(), it.index@)
//@   loopstart 1
//@   | let ghost so_far = vec@;
//@   | proof { assert(c == str.refs()[it.index@]); assert(c.v() == str@[it.index@].v()); }
//@   each vec.push
//@   | proof { assert(takes(c, $n)); b$n(c);
//@   | $sub assert($x >= $y) by (bit_vector) requires takes(c, $n);
//@   | assert(($0) == byte(c, $n, $k)) by (bit_vector) requires takes(c, $n); }
//@ end
fn main() {}
}
