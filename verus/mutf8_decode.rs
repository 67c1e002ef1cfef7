// C03: Modified UTF-8 to strings.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ assume usize has 64 bits; a slice has at most isize::MAX bytes
//@ assume slice::Iter, Copied and Enumerate give each element of the slice with its index, in order; nth skips
//@ assume char::from_u32 gives the character of a scalar value; char::encode_utf8 writes the four bytes of RFC 3629 of a supplementary character
//@ assume Wtf8String::from_bytes keeps the bytes and is Ok exactly if they are well-formed (proved of validate_wtf8 in unit validate_wtf8)
//@ include walk.inc
//@ include wtf8_spec.inc
pub struct Wtf8Error { pub valid_up_to: usize }
pub enum MutfError { PartialCharacterAtEnd, AroundByte(usize), WTF8Error(Wtf8Error) }
impl From<Wtf8Error> for MutfError { fn from(e: Wtf8Error) -> Self { MutfError::WTF8Error(e) } }
impl vstd::std_specs::convert::FromSpecImpl<Wtf8Error> for MutfError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: Wtf8Error) -> Self { MutfError::WTF8Error(e) }
}
pub struct Wtf8String { pub bytes: Vec<u8> }
impl Wtf8String {
    #[verifier::external_body]
    pub fn from_bytes(bytes: Vec<u8>) -> (r: Result<Wtf8String, Wtf8Error>)
        ensures r is Ok <==> wf(bytes@, 0, false), r is Ok ==> r->Ok_0.bytes@ == bytes@
    { unimplemented!() }
}
#[verifier::external_body]
pub fn scalar(c: u32) -> (r: char) requires c <= 0xD7FF || 0xE000 <= c <= 0x10FFFF ensures r as u32 == c { unimplemented!() }
#[verifier::external_body]
pub fn utf8(c: char, b: &mut [u8; 4]) requires c as u32 >= 0x10000 ensures final(b)@ == four(c as u32 as int) { unimplemented!() }

pub fn owned(b: &[u8]) -> (r: Vec<u8>) ensures r@ == b@ { let mut v = Vec::new(); v.extend_from_slice(b); proof { assert(v@ =~= b@); } v }
pub fn extend(v: &mut Vec<u8>, b: &[u8]) ensures final(v)@ == old(v)@ + b@ { v.extend_from_slice(b); proof { assert(v@ =~= old(v)@ + b@); } }
//@ include mutf8_dec.inc
spec fn all_copy(s: Seq<u8>, k: int) -> bool { forall|j: int| 0 <= j < k ==> #[trigger] copies(s, j) }
spec fn bad(s: Seq<u8>) -> bool { !wf(s, 0, false) && !wf(dec(s, 0), 0, false) }
/// What the first pass knows: nothing to change before p, but perhaps the high surrogate just seen; or all is lost.
spec fn scan(s: Seq<u8>, p: int, h: bool) -> bool {
    &&& 0 <= p <= s.len()
    &&& h ==> p >= 3 && s[p - 3] == 0xED && 0xA0 <= s[p - 2] <= 0xAF
    &&& bad(s) || forall|j: int| 0 <= j < p ==> (h && j == p - 3) || #[trigger] copies(s, j)
}
proof fn leads(t: Seq<u8>, i: int, h: bool, j: int)
    requires wf(t, i, h), 0 <= i <= j < t.len(), !tail(t[j])
    ensures seq_len(t, j) > 0
    decreases t.len() - i
{ if j > i { assert(j >= i + seq_len(t, i)); leads(t, i + seq_len(t, i), high(t, i), j); } }
proof fn prefix(s: Seq<u8>, k: int)
    requires all_copy(s, k), 0 <= k <= s.len()
    ensures dec(s, 0) =~= s.subrange(0, k) + dec(s, k)
    decreases k
{ reveal(dec); if k > 0 { assert forall|j: int| 0 <= j < k - 1 implies #[trigger] copies(s, j) by {} prefix(s, k - 1); assert(copies(s, k - 1)); assert(s.subrange(0, k) =~= s.subrange(0, k - 1) + seq![s[k - 1]]); } }
proof fn four_bytes(c: int) requires 0x10000 <= c <= 0x10FFFF ensures four(c)[0] >= 0xF0 {}
proof fn pair_range(s: Seq<u8>, i: int) requires pair(s, i) ensures 0x10000 <= pair_of(unit3(s, i), unit3(s, i + 3)) <= 0x10FFFF {}
proof fn head(s: Seq<u8>, i: int)
    requires 0 <= i < s.len()
    ensures dec(s, i).len() > 0, tail(dec(s, i)[0]) == tail(s[i])
{ reveal(dec); if pair(s, i) { pair_range(s, i); four_bytes(pair_of(unit3(s, i), unit3(s, i + 3))); } }
/// A lead byte without what has to follow it.
proof fn broken(s: Seq<u8>, p: int)
    requires 0 <= p < s.len(), all_copy(s, p + 1), !tail(s[p]), s[p] == 0xC0 || (s[p] == 0xED && (p + 1 >= s.len() || !tail(s[p + 1]) || (copies(s, p + 1) && (p + 2 >= s.len() || !tail(s[p + 2])))))
    ensures bad(s)
{
    reveal(dec);
    let d = dec(s, 0);
    prefix(s, p + 1);
    assert(d[p] == s[p]);
    if s[p] == 0xED && p + 1 < s.len() {
        head(s, p + 1);
        assert(d[p + 1] == dec(s, p + 1)[0]);
        if tail(s[p + 1]) {
            assert(all_copy(s, p + 2)) by { assert forall|j: int| 0 <= j < p + 2 implies #[trigger] copies(s, j) by { if j < p + 1 {} } }
            prefix(s, p + 2);
            if p + 2 < s.len() { head(s, p + 2); assert(d[p + 2] == dec(s, p + 2)[0]); }
        }
    }
    if wf(s, 0, false) { leads(s, 0, false, p); }
    if wf(d, 0, false) { leads(d, 0, false, p); }
}
proof fn scan_step(s: Seq<u8>, p: int, h: bool)
    requires scan(s, p, h), p < s.len()
    ensures
        s[p] != 0xC0 && s[p] != 0xED ==> scan(s, p + 1, false),
        s[p] == 0xC0 && p + 1 >= s.len() ==> !wf(dec(s, 0), 0, false),
        s[p] == 0xC0 && p + 1 < s.len() && s[p + 1] != 0x80 ==> scan(s, p + 2, false),
        s[p] == 0xED && p + 1 >= s.len() ==> !wf(dec(s, 0), 0, false),
        s[p] == 0xED && p + 1 < s.len() && 0xA0 <= s[p + 1] <= 0xAF && p + 2 >= s.len() ==> !wf(dec(s, 0), 0, false),
        s[p] == 0xED && p + 2 < s.len() && 0xA0 <= s[p + 1] <= 0xAF ==> scan(s, p + 3, true),
        s[p] == 0xED && p + 1 < s.len() && 0xB0 <= s[p + 1] <= 0xBF && !h ==> scan(s, p + 2, false),
        s[p] == 0xED && p + 1 < s.len() && !(0xA0 <= s[p + 1] <= 0xBF) ==> scan(s, p + 2, false),
{
    if !bad(s) {
        let second_low = s[p] == 0xED && p + 1 < s.len() && 0xB0 <= s[p + 1] <= 0xBF;
        if !(second_low && h) {
            assert(all_copy(s, p)) by { assert forall|j: int| 0 <= j < p implies #[trigger] copies(s, j) by { if h && j == p - 3 { assert(!pair(s, j)); } } }
            if !nul(s, p) && !pair(s, p) {
                assert(all_copy(s, p + 1)) by { assert forall|j: int| 0 <= j < p + 1 implies #[trigger] copies(s, j) by { if j == p {} } }
                if s[p] == 0xC0 { broken(s, p); }
                else if s[p] == 0xED {
                    if p + 1 >= s.len() || !tail(s[p + 1]) || (p + 2 >= s.len() && 0xA0 <= s[p + 1]) { if p + 1 < s.len() && tail(s[p + 1]) { assert(copies(s, p + 1)); } broken(s, p); }
                    else {
                        assert(copies(s, p + 1));
                        if 0xA0 <= s[p + 1] <= 0xAF && !copies(s, p + 2) { broken(s, p); }
                    }
                }
            } else if pair(s, p) { assert(copies(s, p + 1) && copies(s, p + 2)); }
        }
    }
}
proof fn scan_end(s: Seq<u8>, h: bool)
    requires scan(s, s.len() as int, h)
    ensures bad(s) || dec(s, 0) == s
{
    reveal(dec);
    if !bad(s) {
        assert(all_copy(s, s.len() as int)) by { assert forall|j: int| 0 <= j < s.len() implies #[trigger] copies(s, j) by { if h && j == s.len() - 3 { assert(!pair(s, j)); } } }
        prefix(s, s.len() as int);
        assert(s.subrange(0, s.len() as int) =~= s);
        assert(dec(s, 0) =~= s);
    }
}
/// The second pass: this is the result before i.
#[verifier::opaque]
spec fn done(out: Seq<u8>, s: Seq<u8>, i: int) -> bool { out + dec(s, i) == dec(s, 0) }
proof fn done_step(out: Seq<u8>, s: Seq<u8>, i: int)
    requires done(out, s, i), 0 <= i < s.len()
    ensures
        nul(s, i) ==> done(out.push(0), s, i + 2),
        pair(s, i) ==> done(out + four(pair_of(unit3(s, i), unit3(s, i + 3))), s, i + 6),
        copies(s, i) ==> done(out.push(s[i]), s, i + 1),
{
    reveal(done);
    reveal(dec);
    assert(out.push(0) + dec(s, i + 2) =~= out + (seq![0u8] + dec(s, i + 2)));
    assert(out.push(s[i]) + dec(s, i + 1) =~= out + (seq![s[i]] + dec(s, i + 1)));
    let f = four(pair_of(unit3(s, i), unit3(s, i + 3)));
    assert((out + f) + dec(s, i + 6) =~= out + (f + dec(s, i + 6)));
}
proof fn done_ends(s: Seq<u8>)
    ensures done(seq![], s, 0), forall|out: Seq<u8>| #[trigger] done(out, s, s.len() as int) ==> out == dec(s, 0)
{
    reveal(done);
    reveal(dec);
    assert(seq![] + dec(s, 0) =~= dec(s, 0));
    assert forall|out: Seq<u8>| #[trigger] done(out, s, s.len() as int) implies out == dec(s, 0) by { assert(out + dec(s, s.len() as int) =~= out); }
}
proof fn pair_bits(n: u8, n1: u8, n3: u8, n4: u8)
    requires 0xA0 <= n <= 0xAF, tail(n1), 0xB0 <= n3 <= 0xBF, tail(n4)
    ensures
        0x10000 + (((n & 0xf) as u32) << 16) + (((n1 & 0x3f) as u32) << 10) + (((n3 & 0xf) as u32) << 6) + (n4 & 0x3f) as u32
            == pair_of((0xED - 0xE0) * 4096 + (n - 0x80) * 64 + (n1 - 0x80), (0xED - 0xE0) * 4096 + (n3 - 0x80) * 64 + (n4 - 0x80)),
{
    assert((n & 0xf) == n - 0xA0 && (n1 & 0x3f) == n1 - 0x80 && (n3 & 0xf) == n3 - 0xB0 && (n4 & 0x3f) == n4 - 0x80) by (bit_vector)
        requires 0xA0 <= n <= 0xAF, 0x80 <= n1 <= 0xBF, 0xB0 <= n3 <= 0xBF, 0x80 <= n4 <= 0xBF;
    let (a, b, c, d) = ((n & 0xf) as u32, (n1 & 0x3f) as u32, (n3 & 0xf) as u32, (n4 & 0x3f) as u32);
    assert((a << 16) == a * 0x10000 && (b << 10) == b * 1024 && (c << 6) == c * 64) by (bit_vector) requires a <= 15, b <= 63, c <= 15;
}
//@ item src/mod_utf8.rs fn modified_utf8_to_string
//@   macros
//@   subst buf.iter().copied().enumerate() => Walk::new(buf)
//@   subst buf.to_owned() => owned(buf)
//@   subst char::from_u32(char).unwrap() => scalar(char)
//@   subst ch.encode_utf8(&mut bytes) => utf8(ch, &mut bytes)
//@   subst out.extend_from_slice(&bytes) => extend(&mut out, &bytes)
//@   ret r
//@   spec
//@   | requires buf@.len() <= 0x7FFF_FFFF_FFFF_FFFF
//@   | ensures r is Ok <==> wf(dec(buf@, 0), 0, false), r is Ok ==> r->Ok_0.bytes@ == dec(buf@, 0)
//@   loop 0
//@   | invariant_except_break scan(buf@, iter.pos as int, is_high_surrogate), !modification
//@   | invariant iter.ok(buf@)
//@   | ensures modification || (iter.pos == buf@.len() && scan(buf@, iter.pos as int, is_high_surrogate))
//@   | decreases buf@.len() - iter.pos
//@   loopstart 0
//@   | proof { scan_step(buf@, index as int, is_high_surrogate); }
//@   loop 1
//@   | invariant iter.ok(buf@), done(out@, buf@, iter.pos as int), buf@.len() <= 0x7FFF_FFFF_FFFF_FFFF
//@   | ensures iter.pos == buf@.len()
//@   | decreases buf@.len() - iter.pos
//@   loopstart 1
//@   | proof {
//@   |     done_step(out@, buf@, index as int);
//@   |     if pair(buf@, index as int) { pair_range(buf@, index as int); pair_bits(buf@[index + 1], buf@[index + 2], buf@[index + 4], buf@[index + 5]); }
//@   | }
//@   start
//@   | proof { done_ends(buf@); assert forall|h: bool| scan(buf@, buf@.len() as int, h) implies bad(buf@) || #[trigger] dec(buf@, 0) == buf@ by { scan_end(buf@, h); } }
//@ end
fn main() {}
}
