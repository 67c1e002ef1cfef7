// C02: what encoding gives, decoding takes back. A lemma over the contracts of units mutf8_encode,
// mutf8_decode and wtf8_view (the code points of a string).
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ include wtf8_spec.inc
//@ include wtf8_str.inc
//@ include mutf8_enc.inc
//@ include mutf8_dec.inc
/// The code points of a string from i on, as Wtf8Str::codepoints gives them.
pub open spec fn cps(s: Seq<u8>, i: int) -> Seq<int> decreases s.len() - i {
    if i >= s.len() || seq_len(s, i) <= 0 { seq![] } else { seq![cp(s, i)] + cps(s, i + seq_len(s, i)) }
}
pub open spec fn enc_from(s: Seq<u8>, i: int) -> Seq<u8> decreases s.len() - i {
    if i >= s.len() || seq_len(s, i) <= 0 { seq![] } else { enc(cp(s, i)) + enc_from(s, i + seq_len(s, i)) }
}
proof fn encs_front(c: int, t: Seq<int>, n: int)
    requires 0 <= n <= t.len()
    ensures encs(seq![c] + t, n + 1) == enc(c) + encs(t, n)
    decreases n
{
    let s = seq![c] + t;
    if n > 0 {
        encs_front(c, t, n - 1);
        assert(s[n] == t[n - 1]);
        assert(encs(s, n + 1) =~= enc(c) + encs(t, n));
    } else { assert(encs(s, 0) =~= seq![]); assert(encs(s, 1) =~= enc(c) + encs(t, 0)); }
}
proof fn same(s: Seq<u8>, i: int)
    ensures encs(cps(s, i), cps(s, i).len() as int) == enc_from(s, i)
    decreases s.len() - i
{ if i < s.len() && seq_len(s, i) > 0 { let t = cps(s, i + seq_len(s, i)); same(s, i + seq_len(s, i)); encs_front(cp(s, i), t, t.len() as int); } }
proof fn dec_behind(a: Seq<u8>, b: Seq<u8>, k: int)
    requires 0 <= k <= b.len()
    ensures dec(a + b, a.len() + k) == dec(b, k)
    decreases b.len() - k
{
    reveal(dec);
    let (c, j) = (a + b, a.len() + k);
    if k < b.len() {
        assert(c[j] == b[k]);
        assert(k + 1 < b.len() ==> c[j + 1] == b[k + 1]);
        assert(k + 2 < b.len() ==> c[j + 2] == b[k + 2]);
        assert(k + 3 < b.len() ==> c[j + 3] == b[k + 3]);
        assert(k + 4 < b.len() ==> c[j + 4] == b[k + 4]);
        assert(k + 5 < b.len() ==> c[j + 5] == b[k + 5]);
        assert(nul(c, j) == nul(b, k) && pair(c, j) == pair(b, k));
        if nul(b, k) { dec_behind(a, b, k + 2); assert(a.len() + (k + 2) == j + 2); }
        else if pair(b, k) { dec_behind(a, b, k + 6); assert(a.len() + (k + 6) == j + 6); assert(unit3(c, j) == unit3(b, k) && unit3(c, j + 3) == unit3(b, k + 3)); }
        else { dec_behind(a, b, k + 1); assert(a.len() + (k + 1) == j + 1); }
    }
}
/// The first bytes of what is encoded: a low surrogate only as a code point of its own.
proof fn starts(s: Seq<u8>, i: int)
    requires 0 <= i < s.len(), seq_len(s, i) > 0
    ensures enc_from(s, i).len() > 0, enc_from(s, i)[0] == enc(cp(s, i))[0], enc_from(s, i)[0] == 0xED ==> enc_from(s, i).len() >= 3 && (0xB0 <= enc_from(s, i)[1] <= 0xBF ==> low(s, i))
{
    let c = cp(s, i);
    assert(enc(c).len() >= 1);
    if enc(c)[0] == 0xED { assert(enc(c).len() >= 3); assert(enc_from(s, i)[1] == enc(c)[1]); if c >= 0x10000 { super_bytes(c); } else { assert(0xD000 <= c); assert(seq_len(s, i) == 3); } }
}
proof fn super_bytes(c: int)
    requires 0x10000 <= c <= 0x10FFFF
    ensures enc(c).len() == 6, pair(enc(c), 0), pair_of(unit3(enc(c), 0), unit3(enc(c), 3)) == c
{
    let (h, l) = (0xD800 + (c - 0x10000) / 1024, 0xDC00 + (c - 0x10000) % 1024);
    let (a, b) = (unit(h), unit(l));
    let e = enc(c);
    assert(e[0] == a[0] && e[1] == a[1] && e[2] == a[2] && e[3] == b[0] && e[4] == b[1] && e[5] == b[2]);
    assert(unit3(e, 0) == h);
    assert(unit3(e, 3) == l);
}
proof fn copy1(e: Seq<u8>, i: int) requires 0 <= i < e.len(), copies(e, i) ensures dec(e, i) == seq![e[i]] + dec(e, i + 1) { reveal(dec); }
proof fn dec_nul(e: Seq<u8>) requires e.len() >= 2, e[0] == 0xC0, e[1] == 0x80 ensures dec(e, 0) == seq![0u8] + dec(e, 2) { reveal(dec); }
proof fn dec_pair(e: Seq<u8>) requires pair(e, 0) ensures dec(e, 0) == four(pair_of(unit3(e, 0), unit3(e, 3))) + dec(e, 6) { reveal(dec); }
proof fn dec_empty() ensures dec(seq![], 0) == Seq::<u8>::empty() { reveal(dec); }
proof fn at1(s: Seq<u8>, i: int, rest: Seq<u8>)
    requires 0 <= i < s.len(), seq_len(s, i) == 1
    ensures dec(enc(cp(s, i)) + rest, 0) == s.subrange(i, i + 1) + dec(rest, 0)
{
    let (c, x) = (cp(s, i), enc(cp(s, i)));
    let e = x + rest;
    dec_behind(x, rest, 0);
    if c == 0 { assert(x.len() == 2 && x[0] == 0xC0 && x[1] == 0x80); assert(e[0] == 0xC0 && e[1] == 0x80); dec_nul(e); assert(s.subrange(i, i + 1) =~= seq![0u8]); }
    else { assert(x.len() == 1 && e[0] == s[i]); copy1(e, 0); assert(s.subrange(i, i + 1) =~= seq![s[i]]); }
}
proof fn at2(s: Seq<u8>, i: int, rest: Seq<u8>)
    requires 0 <= i < s.len(), seq_len(s, i) == 2
    ensures dec(enc(cp(s, i)) + rest, 0) == s.subrange(i, i + 2) + dec(rest, 0)
{
    let x = enc(cp(s, i));
    let e = x + rest;
    assert(x.len() == 2 && x[0] == s[i] && x[1] == s[i + 1]);
    assert(e[0] == x[0] && e[1] == x[1]);
    dec_behind(x, rest, 0);
    copy1(e, 0);
    copy1(e, 1);
    assert(seq![e[0]] + (seq![e[1]] + dec(rest, 0)) =~= s.subrange(i, i + 2) + dec(rest, 0));
}
proof fn at3(s: Seq<u8>, i: int, rest: Seq<u8>)
    requires 0 <= i < s.len(), seq_len(s, i) == 3, !pair(enc(cp(s, i)) + rest, 0)
    ensures dec(enc(cp(s, i)) + rest, 0) == s.subrange(i, i + 3) + dec(rest, 0)
{
    let x = enc(cp(s, i));
    let e = x + rest;
    three(s, i);
    assert(e[0] == x[0] && e[1] == x[1] && e[2] == x[2]);
    dec_behind(x, rest, 0);
    copy1(e, 0);
    copy1(e, 1);
    copy1(e, 2);
    assert(seq![e[0]] + (seq![e[1]] + (seq![e[2]] + dec(rest, 0))) =~= s.subrange(i, i + 3) + dec(rest, 0));
}
proof fn three(s: Seq<u8>, i: int)
    requires 0 <= i < s.len(), seq_len(s, i) == 3
    ensures enc(cp(s, i)).len() == 3, enc(cp(s, i))[0] == s[i], enc(cp(s, i))[1] == s[i + 1], enc(cp(s, i))[2] == s[i + 2]
{
    let c = cp(s, i);
    assert(c / 4096 == s[i] - 0xE0);
    assert(c / 64 % 64 == s[i + 1] - 0x80);
    assert(c % 64 == s[i + 2] - 0x80);
    assert(0x800 <= c < 0x10000);
}
proof fn four_of(s: Seq<u8>, i: int)
    requires 0 <= i < s.len(), seq_len(s, i) == 4
    ensures four(cp(s, i)) =~= s.subrange(i, i + 4), 0x10000 <= cp(s, i) <= 0x10FFFF
{
    let c = cp(s, i);
    assert(c / 0x40000 == s[i] - 0xF0);
    assert(c / 0x1000 % 64 == s[i + 1] - 0x80);
    assert(c / 64 % 64 == s[i + 2] - 0x80);
    assert(c % 64 == s[i + 3] - 0x80);
}
proof fn at4(s: Seq<u8>, i: int, rest: Seq<u8>)
    requires 0 <= i < s.len(), seq_len(s, i) == 4
    ensures dec(enc(cp(s, i)) + rest, 0) == s.subrange(i, i + 4) + dec(rest, 0)
{
    let (c, x) = (cp(s, i), enc(cp(s, i)));
    let e = x + rest;
    four_of(s, i);
    super_bytes(c);
    assert(e[0] == x[0] && e[1] == x[1] && e[2] == x[2] && e[3] == x[3] && e[4] == x[4] && e[5] == x[5]);
    dec_behind(x, rest, 0);
    dec_pair(e);
}
proof fn ahead(s: Seq<u8>, i: int, h: bool)
    requires wf(s, i, h), 0 <= i <= s.len()
    ensures dec(enc_from(s, i), 0) == s.subrange(i, s.len() as int)
    decreases s.len() - i
{
    if i < s.len() {
        let n = seq_len(s, i);
        let rest = enc_from(s, i + n);
        let e = enc(cp(s, i)) + rest;
        ahead(s, i + n, high(s, i));
        if n == 1 { at1(s, i, rest); }
        else if n == 2 { at2(s, i, rest); }
        else if n == 3 {
            if pair(e, 0) {
                three(s, i);
                assert(e[0] == s[i] && e[1] == s[i + 1]);
                assert(e[3] == rest[0] && e[4] == rest[1]);
                if i + n >= s.len() { assert(rest.len() == 0); }
                starts(s, i + n);
                assert(high(s, i) && low(s, i + n));
                assert(wf(s, i + n, true));
                assert(false);
            }
            at3(s, i, rest);
        }
        else { at4(s, i, rest); }
        assert(s.subrange(i, i + n) + s.subrange(i + n, s.len() as int) =~= s.subrange(i, s.len() as int));
    } else { dec_empty(); assert(enc_from(s, i) =~= seq![]); assert(s.subrange(i, s.len() as int) =~= seq![]); }
}
/// Decoding what encoding gives is the string again, and it is accepted.
pub proof fn round_trip(s: Seq<u8>)
    requires good(s)
    ensures ({ let e = encs(cps(s, 0), cps(s, 0).len() as int); dec(e, 0) == s && good(dec(e, 0)) })
{ same(s, 0); ahead(s, 0, false); assert(s.subrange(0, s.len() as int) =~= s); }
proof fn no_zero(c: int) requires 0 <= c <= 0x10FFFF ensures forall|j: int| 0 <= j < enc(c).len() ==> enc(c)[j] != 0 { if c >= 0x10000 { super_bytes(c); } }
/// No zero byte is in it, ever.
pub proof fn never_zero(s: Seq<int>, n: int)
    requires forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] <= 0x10FFFF, 0 <= n <= s.len()
    ensures forall|j: int| 0 <= j < encs(s, n).len() ==> encs(s, n)[j] != 0
    decreases n
{
    if n > 0 {
        never_zero(s, n - 1);
        no_zero(s[n - 1]);
        let (a, b) = (encs(s, n - 1), enc(s[n - 1]));
        assert forall|j: int| 0 <= j < encs(s, n).len() implies encs(s, n)[j] != 0 by { if j < a.len() { assert(encs(s, n)[j] == a[j]); } else { assert(encs(s, n)[j] == b[j - a.len()]); } }
    }
}
fn main() {}
}
