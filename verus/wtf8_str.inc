/// The code point of the sequence at i.
pub open spec fn cp(s: Seq<u8>, i: int) -> int {
    let n = seq_len(s, i);
    if n == 1 { s[i] as int }
    else if n == 2 { (s[i] - 0xC0) * 64 + (s[i + 1] - 0x80) }
    else if n == 3 { (s[i] - 0xE0) * 4096 + (s[i + 1] - 0x80) * 64 + (s[i + 2] - 0x80) }
    else { (s[i] - 0xF0) * 0x40000 + (s[i + 1] - 0x80) * 4096 + (s[i + 2] - 0x80) * 64 + (s[i + 3] - 0x80) }
}
/// The UTF-16 units of a code point.
pub open spec fn u16s(c: int) -> Seq<int> { if c < 0x10000 { seq![c] } else { seq![0xD800 + (c - 0x10000) / 1024, 0xDC00 + (c - 0x10000) % 1024] } }
/// The UTF-16 units of the string from i on.
#[verifier::opaque]
pub open spec fn units(s: Seq<u8>, i: int) -> Seq<int> decreases s.len() - i {
    if i >= s.len() || seq_len(s, i) <= 0 { seq![] } else { u16s(cp(s, i)) + units(s, i + seq_len(s, i)) }
}
/// Generalized UTF-8 of one code point (RFC 3629, with surrogates).
pub open spec fn utf8(c: int) -> Seq<u8> {
    if c < 0x80 { seq![c as u8] }
    else if c < 0x800 { seq![(0xC0 + c / 64) as u8, (0x80 + c % 64) as u8] }
    else if c < 0x10000 { seq![(0xE0 + c / 4096) as u8, (0x80 + c / 64 % 64) as u8, (0x80 + c % 64) as u8] }
    else { seq![(0xF0 + c / 0x40000) as u8, (0x80 + c / 4096 % 64) as u8, (0x80 + c / 64 % 64) as u8, (0x80 + c % 64) as u8] }
}
pub open spec fn is_high(c: int) -> bool { 0xD800 <= c <= 0xDBFF }
pub open spec fn is_low(c: int) -> bool { 0xDC00 <= c <= 0xDFFF }
/// A well-formed string.
pub open spec fn good(s: Seq<u8>) -> bool { wf(s, 0, false) }
pub open spec fn ends_high(s: Seq<u8>) -> bool { s.len() >= 3 && high(s, s.len() - 3) }
pub open spec fn starts_low(s: Seq<u8>) -> bool { s.len() >= 3 && low(s, 0) }
pub open spec fn boundary(s: Seq<u8>, k: int) -> bool { k == s.len() || (0 <= k < s.len() && !tail(s[k])) }
pub open spec fn last_high(s: Seq<u8>, i: int, h: bool) -> bool decreases s.len() - i {
    if i >= s.len() || seq_len(s, i) <= 0 { h } else { last_high(s, i + seq_len(s, i), high(s, i)) }
}
pub proof fn wf_last(s: Seq<u8>, i: int, h: bool)
    requires wf(s, i, h), 0 <= i < s.len()
    ensures last_high(s, i, h) == (s.len() - i >= 3 && high(s, s.len() - 3))
    decreases s.len() - i
{
    let n = seq_len(s, i);
    if i + n < s.len() { wf_last(s, i + n, high(s, i)); } else { assert(last_high(s, i + n, high(s, i)) == high(s, i)); }
}
pub proof fn wf_bound(s: Seq<u8>, i: int, h: bool)
    requires wf(s, i, h), 0 <= i < s.len()
    ensures i + seq_len(s, i) <= s.len(), wf(s, i + seq_len(s, i), high(s, i)), boundary(s, i)
{}
/// b behind a.
pub proof fn shift(a: Seq<u8>, b: Seq<u8>, k: int, h: bool)
    requires 0 <= k <= b.len()
    ensures wf(a + b, a.len() + k, h) == wf(b, k, h), units(a + b, a.len() + k) == units(b, k)
    decreases b.len() - k
{
    reveal(units);
    let c = a + b;
    let j = a.len() + k;
    if k < b.len() {
        assert(c[j] == b[k]);
        assert(k + 1 < b.len() ==> c[j + 1] == b[k + 1]);
        assert(k + 2 < b.len() ==> c[j + 2] == b[k + 2]);
        assert(k + 3 < b.len() ==> c[j + 3] == b[k + 3]);
        assert(seq_len(c, j) == seq_len(b, k));
        assert(high(c, j) == high(b, k) && low(c, j) == low(b, k));
        if seq_len(b, k) > 0 { assert(cp(c, j) == cp(b, k)); shift(a, b, k + seq_len(b, k), high(b, k)); assert(a.len() + (k + seq_len(b, k)) == j + seq_len(c, j)); }
    }
}
proof fn cat_at(a: Seq<u8>, b: Seq<u8>, i: int, h: bool)
    requires wf(a, i, h), 0 <= i <= a.len(), good(b), !(last_high(a, i, h) && starts_low(b))
    ensures wf(a + b, i, h), units(a + b, i) == units(a, i) + units(b, 0)
    decreases a.len() - i
{
    reveal(units);
    let c = a + b;
    if i >= a.len() {
        shift(a, b, 0, h);
        assert(wf(b, 0, h));
        assert(units(a, i) + units(b, 0) =~= units(b, 0));
    } else {
        let n = seq_len(a, i);
        assert(c[i] == a[i]);
        assert(n >= 2 ==> c[i + 1] == a[i + 1]);
        assert(n >= 3 ==> c[i + 2] == a[i + 2]);
        assert(n >= 4 ==> c[i + 3] == a[i + 3]);
        assert(seq_len(c, i) == n && cp(c, i) == cp(a, i) && high(c, i) == high(a, i) && low(c, i) == low(a, i));
        cat_at(a, b, i + n, high(a, i));
        assert(units(c, i) =~= units(a, i) + units(b, 0));
    }
}
/// Strings joined where no pair meets.
pub proof fn cat(a: Seq<u8>, b: Seq<u8>)
    requires good(a), good(b), !(ends_high(a) && starts_low(b))
    ensures good(a + b), units(a + b, 0) == units(a, 0) + units(b, 0)
{ if a.len() > 0 { wf_last(a, 0, false); } cat_at(a, b, 0, false); }
proof fn cut_at(s: Seq<u8>, i: int, h: bool, k: int)
    requires wf(s, i, h), 0 <= i <= k <= s.len(), boundary(s, k)
    ensures wf(s.subrange(0, k), i, h), units(s, i) == units(s.subrange(0, k), i) + units(s, k), wf(s, k, last_high(s.subrange(0, k), i, h))
    decreases s.len() - i
{
    reveal(units);
    let a = s.subrange(0, k);
    if i == k { assert(units(a, i) + units(s, k) =~= units(s, k)); }
    else {
        let n = seq_len(s, i);
        assert(i + n <= k);
        assert(a[i] == s[i]);
        assert(n >= 2 ==> a[i + 1] == s[i + 1]);
        assert(n >= 3 ==> a[i + 2] == s[i + 2]);
        assert(n >= 4 ==> a[i + 3] == s[i + 3]);
        assert(seq_len(a, i) == n && cp(a, i) == cp(s, i) && high(a, i) == high(s, i) && low(a, i) == low(s, i));
        cut_at(s, i + n, high(s, i), k);
        assert(units(s, i) =~= units(a, i) + units(s, k));
    }
}
proof fn wf_drop(s: Seq<u8>, i: int) requires wf(s, i, true) ensures wf(s, i, false) {}
/// A string cut at a boundary.
pub proof fn cut(s: Seq<u8>, k: int)
    requires good(s), 0 <= k <= s.len(), boundary(s, k)
    ensures
        good(s.subrange(0, k)), good(s.subrange(k, s.len() as int)),
        units(s, 0) == units(s.subrange(0, k), 0) + units(s.subrange(k, s.len() as int), 0),
        units(s, k) == units(s.subrange(k, s.len() as int), 0),
        wf(s, k, false),
        k > 0 && ends_high(s.subrange(0, k)) ==> !starts_low(s.subrange(k, s.len() as int)),
{
    let (a, b) = (s.subrange(0, k), s.subrange(k, s.len() as int));
    cut_at(s, 0, false, k);
    if k > 0 { wf_last(a, 0, false); }
    assert(a + b =~= s);
    let h = last_high(a, 0, false);
    if h { wf_drop(s, k); }
    shift(a, b, 0, false);
    shift(a, b, 0, true);
}
/// One code point, encoded.
pub proof fn one(c: int)
    requires 0 <= c <= 0x10FFFF
    ensures good(utf8(c)), units(utf8(c), 0) == u16s(c), ends_high(utf8(c)) == is_high(c), starts_low(utf8(c)) == is_low(c), seq_len(utf8(c), 0) == utf8(c).len(), cp(utf8(c), 0) == c
{
    reveal(units);
    let s = utf8(c);
    assert(seq_len(s, 0) == s.len());
    assert(cp(s, 0) == c);
    assert(units(s, s.len() as int) =~= seq![]);
    assert(units(s, 0) =~= u16s(c) + units(s, s.len() as int));
    assert(wf(s, s.len() as int, high(s, 0)));
}
pub open spec fn sur(y: u8, z: u8) -> int { 0xD000 + (y - 0x80) * 64 + (z - 0x80) }
proof fn surrogate(s: Seq<u8>)
    requires s.len() == 3, good(s), s[0] == 0xED
    ensures seq_len(s, 0) == 3, units(s, 0) == seq![sur(s[1], s[2])]
{ reveal(units); assert(units(s, 3) =~= seq![]); assert(units(s, 0) =~= seq![sur(s[1], s[2])]); }
/// A string that ends in a high surrogate.
pub proof fn high_end(a: Seq<u8>)
    requires good(a), ends_high(a)
    ensures is_high(sur(a[a.len() - 2], a[a.len() - 1])), tail(a[a.len() - 1]), good(a.subrange(0, a.len() - 3)), units(a, 0) == units(a.subrange(0, a.len() - 3), 0) + seq![sur(a[a.len() - 2], a[a.len() - 1])]
{
    let a1 = a.subrange(a.len() - 3, a.len() as int);
    cut(a, a.len() - 3);
    assert(a1[0] == a[a.len() - 3] && a1[1] == a[a.len() - 2] && a1[2] == a[a.len() - 1]);
    surrogate(a1);
}
/// A string that starts with a low surrogate.
pub proof fn low_start(b: Seq<u8>)
    requires good(b), starts_low(b)
    ensures is_low(sur(b[1], b[2])), tail(b[2]), good(b.subrange(3, b.len() as int)), units(b, 0) == seq![sur(b[1], b[2])] + units(b.subrange(3, b.len() as int), 0)
{
    let b0 = b.subrange(0, 3);
    assert(seq_len(b, 0) == 3);
    wf_bound(b, 0, false);
    if b.len() > 3 { wf_bound(b, 3, high(b, 0)); }
    cut(b, 3);
    assert(b0[0] == b[0] && b0[1] == b[1] && b0[2] == b[2]);
    surrogate(b0);
}
pub open spec fn join_of(h: int, l: int) -> int { 0x10000 + (h - 0xD800) * 1024 + (l - 0xDC00) }
proof fn joined(a0: Seq<u8>, b1: Seq<u8>, h: int, l: int)
    requires good(a0), good(b1), is_high(h), is_low(l)
    ensures ({ let c = a0 + utf8(join_of(h, l)); good(c) && !ends_high(c) && good(c + b1) && units(c + b1, 0) == units(a0, 0) + seq![h] + (seq![l] + units(b1, 0)) })
{
    let x = join_of(h, l);
    let c = a0 + utf8(x);
    one(x);
    cat(a0, utf8(x));
    assert(!ends_high(c)) by { assert(c[c.len() - 3] == utf8(x)[1]); }
    cat(c, b1);
    assert(u16s(x) =~= seq![h, l]);
    assert(units(c + b1, 0) =~= units(a0, 0) + seq![h] + (seq![l] + units(b1, 0)));
}
/// A low surrogate behind a string that ends in a high one.
pub proof fn join(a: Seq<u8>, b: Seq<u8>)
    requires good(a), good(b), ends_high(a), starts_low(b)
    ensures ({
        let (h, l) = (sur(a[a.len() - 2], a[a.len() - 1]), sur(b[1], b[2]));
        let c = a.subrange(0, a.len() - 3) + utf8(join_of(h, l));
        is_high(h) && is_low(l) && good(a.subrange(0, a.len() - 3)) && good(c) && !ends_high(c) && good(c + b.subrange(3, b.len() as int)) && units(c + b.subrange(3, b.len() as int), 0) == units(a, 0) + units(b, 0) })
{
    high_end(a);
    low_start(b);
    joined(a.subrange(0, a.len() - 3), b.subrange(3, b.len() as int), sur(a[a.len() - 2], a[a.len() - 1]), sur(b[1], b[2]));
}
