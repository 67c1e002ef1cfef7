pub open spec fn tail(b: u8) -> bool { 0x80 <= b <= 0xBF }
/// The length of the generalized UTF-8 sequence at i, or 0 (RFC 3629, with surrogates).
pub open spec fn seq_len(s: Seq<u8>, i: int) -> int {
    let n = s.len() - i;
    let b = s[i];
    if n >= 1 && b <= 0x7F { 1 }
    else if n >= 2 && 0xC2 <= b <= 0xDF && tail(s[i + 1]) { 2 }
    else if n >= 3 && 0xE0 <= b <= 0xEF && tail(s[i + 1]) && (b == 0xE0 ==> s[i + 1] >= 0xA0) && tail(s[i + 2]) { 3 }
    else if n >= 4 && 0xF0 <= b <= 0xF4 && tail(s[i + 1]) && (b == 0xF0 ==> s[i + 1] >= 0x90) && (b == 0xF4 ==> s[i + 1] <= 0x8F) && tail(s[i + 2]) && tail(s[i + 3]) { 4 }
    else { 0 }
}
pub open spec fn high(s: Seq<u8>, i: int) -> bool { s[i] == 0xED && i + 1 < s.len() && 0xA0 <= s[i + 1] <= 0xAF }
pub open spec fn low(s: Seq<u8>, i: int) -> bool { s[i] == 0xED && i + 1 < s.len() && 0xB0 <= s[i + 1] <= 0xBF }
/// Well-formed from i on, where a high surrogate stands before i or not: no pair is left as two surrogates.
pub open spec fn wf(s: Seq<u8>, i: int, after_high: bool) -> bool decreases s.len() - i {
    if i >= s.len() { true }
    else { seq_len(s, i) > 0 && !(after_high && low(s, i)) && wf(s, i + seq_len(s, i), high(s, i)) }
}
