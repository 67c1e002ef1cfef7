/// JVMS 4.4.7, one UTF-16 unit.
pub open spec fn unit(u: int) -> Seq<u8> {
    if 1 <= u <= 0x7F { seq![u as u8] }
    else if u <= 0x7FF { seq![(0xC0 + u / 64) as u8, (0x80 + u % 64) as u8] }
    else { seq![(0xE0 + u / 4096) as u8, (0x80 + u / 64 % 64) as u8, (0x80 + u % 64) as u8] }
}
/// A code point as one unit, or as two surrogates.
pub open spec fn enc(c: int) -> Seq<u8> {
    if c < 0x10000 { unit(c) } else { unit(0xD800 + (c - 0x10000) / 1024) + unit(0xDC00 + (c - 0x10000) % 1024) }
}
pub open spec fn encs(s: Seq<int>, n: int) -> Seq<u8> decreases n {
    if n <= 0 { seq![] } else { encs(s, n - 1) + enc(s[n - 1]) }
}
