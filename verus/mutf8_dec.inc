/// RFC 3629.
pub open spec fn four(c: int) -> Seq<u8> { seq![(0xF0 + c / 0x40000) as u8, (0x80 + c / 0x1000 % 64) as u8, (0x80 + c / 64 % 64) as u8, (0x80 + c % 64) as u8] }
/// JVMS 4.4.7: the UTF-16 unit of three bytes.
pub open spec fn unit3(s: Seq<u8>, i: int) -> int { (s[i] - 0xE0) * 4096 + (s[i + 1] - 0x80) * 64 + (s[i + 2] - 0x80) }
pub open spec fn nul(s: Seq<u8>, i: int) -> bool { i + 1 < s.len() && s[i] == 0xC0 && s[i + 1] == 0x80 }
pub open spec fn pair(s: Seq<u8>, i: int) -> bool {
    i + 5 < s.len() && s[i] == 0xED && 0xA0 <= s[i + 1] <= 0xAF && tail(s[i + 2]) && s[i + 3] == 0xED && 0xB0 <= s[i + 4] <= 0xBF && tail(s[i + 5])
}
pub open spec fn pair_of(h: int, l: int) -> int { 0x10000 + (h - 0xD800) * 1024 + (l - 0xDC00) }
pub open spec fn copies(s: Seq<u8>, i: int) -> bool { !nul(s, i) && !pair(s, i) }
/// The WTF-8 of Modified UTF-8 from i on: C0 80 is NUL, a pair of surrogates is one character, all else stands for itself.
#[verifier::opaque]
pub open spec fn dec(s: Seq<u8>, i: int) -> Seq<u8> decreases s.len() - i {
    if i >= s.len() { seq![] }
    else if nul(s, i) { seq![0u8] + dec(s, i + 2) }
    else if pair(s, i) { four(pair_of(unit3(s, i), unit3(s, i + 3))) + dec(s, i + 6) }
    else { seq![s[i]] + dec(s, i + 1) }
}
