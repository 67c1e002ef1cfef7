//! C05: string views and conversions agree with the content.
use crate::core::*;
use crate::spec::*;
use std::mem::ManuallyDrop;
use wtf_8::{Codepoint, Wtf8Str, Wtf8String};

fn str_of<'a>(b: &'a [u8]) -> &'a Wtf8Str {
    unsafe { Wtf8Str::from_bytes_unchecked(b) }
}
/// Any well-formed string of exactly N bytes.
fn any<S: Src, const N: usize>(s: &mut S) -> [u8; N] {
    let mut b = [0u8; N];
    let mut i = 0;
    while i < N {
        b[i] = s.u8();
        i += 1;
    }
    s.assume(wtf8_ok(&b));
    b
}
fn codepoints<S: Src, const N: usize>(s: &mut S) {
    let b = any::<S, N>(s);
    let st = str_of(&b);
    let mut it = st.codepoints();
    let mut i = 0;
    let mut sur = false;
    while i < N {
        let (c, n) = gen_utf8_next(&b[i..]).unwrap();
        let g = it.next();
        assert!(matches!(g, Some(x) if x.to_u32() == c), "the code points are visited in order");
        sur |= is_high(c) || is_low(c);
        i += n;
        assert!(it.as_str().len() == N - i, "the rest is what is left");
    }
    assert!(it.next().is_none(), "and nothing more");
    assert!(st.as_str().is_some() == !sur, "text exactly when there is no surrogate");
    crate::cover!(sur || N < 3);
    crate::cover!(!sur);
}
fn wide<S: Src, const N: usize>(s: &mut S) {
    let b = any::<S, N>(s);
    let st = str_of(&b);
    let mut it = st.encode_wide();
    let mut i = 0;
    while i < N {
        let (c, n) = gen_utf8_next(&b[i..]).unwrap();
        if c >= 0x10000 {
            assert!(it.next() == Some((0xD800 + ((c - 0x10000) >> 10)) as u16), "the first unit of a pair");
            assert!(it.next() == Some((0xDC00 + ((c - 0x10000) & 0x3FF)) as u16), "the second unit of a pair");
        } else {
            assert!(it.next() == Some(c as u16), "the unit");
        }
        i += n;
    }
    assert!(it.next().is_none(), "and nothing more");
    crate::cover!(true);
}
crate::harnesses! {
    fn c05_codepoints2(s) unwind 3, "quick", "bounded: every well-formed string of 2 bytes", "Wtf8Str::{codepoints,as_str}, Wtf8CodePoints::{next,as_str}, next_code_point, next_surrogate" { codepoints::<S, 2>(s) }
    fn c05_codepoints4(s) unwind 5, "quick", "bounded: every well-formed string of 4 bytes", "Wtf8Str::{codepoints,as_str}, Wtf8CodePoints::{next,as_str}, next_code_point, next_surrogate" { codepoints::<S, 4>(s) }
    fn c05_codepoints6(s) unwind 7, "thorough", "bounded: every well-formed string of 6 bytes", "Wtf8Str::{codepoints,as_str}, Wtf8CodePoints::{next,as_str}, next_code_point, next_surrogate" { codepoints::<S, 6>(s) }
    fn c05_wide(s) unwind 5, "quick", "complete: every code point (assumed by the Verus unit wtf8_view)", "encode_utf16_raw, EncodeWide::next" {
        let c = s.u32();
        s.assume(c <= 0x10FFFF);
        let (w, n) = gen_utf8(c);
        let mut it = str_of(&w[..n]).encode_wide();
        if c >= 0x10000 {
            assert!(it.next() == Some((0xD800 + ((c - 0x10000) >> 10)) as u16), "the first unit of a pair");
            assert!(it.next() == Some((0xDC00 + ((c - 0x10000) & 0x3FF)) as u16), "the second unit of a pair");
        } else {
            assert!(it.next() == Some(c as u16), "the unit");
        }
        assert!(it.next().is_none(), "and nothing more");
        crate::cover!(c >= 0x10000);
        crate::cover!(c < 0x10000);
    }
    fn c05_wide3(s) unwind 4, "quick", "bounded: every well-formed string of 3 bytes", "Wtf8Str::encode_wide, EncodeWide::next, encode_utf16_raw" { wide::<S, 3>(s) }
    fn c05_wide5(s) unwind 6, "quick", "bounded: every well-formed string of 5 bytes", "Wtf8Str::encode_wide, EncodeWide::next, encode_utf16_raw" { wide::<S, 5>(s) }
    fn c05_ascii(s) unwind 8, "quick", "bounded: every well-formed string of 4 bytes", "Wtf8Str::{make_ascii_lowercase,make_ascii_uppercase,is_ascii,ascii_byte_at}" {
        let b = any::<S, 4>(s);
        let (mut l, mut u) = (b, b);
        unsafe { Wtf8Str::from_bytes_mut_unchecked(&mut l) }.make_ascii_lowercase();
        unsafe { Wtf8Str::from_bytes_mut_unchecked(&mut u) }.make_ascii_uppercase();
        let mut i = 0;
        let mut ascii = true;
        while i < 4 {
            let up = b[i] >= b'A' && b[i] <= b'Z';
            let lo = b[i] >= b'a' && b[i] <= b'z';
            assert!(l[i] == if up { b[i] + 32 } else { b[i] }, "only ASCII letters are lowered");
            assert!(u[i] == if lo { b[i] - 32 } else { b[i] }, "only ASCII letters are raised");
            assert!(str_of(&b).ascii_byte_at(i) == if b[i] < 0x80 { b[i] } else { 0xFF }, "the ASCII character or none");
            ascii &= b[i] < 0x80;
            i += 1;
        }
        assert!(str_of(&b).is_ascii() == ascii, "ASCII exactly when every byte is");
        crate::cover!(!ascii);
    }
}
#[cfg(not(kani))]
pub fn native(cx: &mut crate::native::Cx) {
    use crate::gen;
    use crate::native::note;
    use std::collections::hash_map::DefaultHasher;
    use std::hash::{Hash, Hasher};
    fn full(b: &[u8], other: &[u8]) {
        let s = ws(b);
        let st: &Wtf8Str = &s;
        let c = cps_of_wtf8(b).unwrap();
        let got: Vec<u32> = st.codepoints().map(|c| c.to_u32()).collect();
        assert_eq!(got, c, "code points");
        let (lo, hi) = st.codepoints().size_hint();
        assert!(lo <= c.len() && hi.map_or(true, |h| h >= c.len()), "the size hint holds");
        let mut it = st.codepoints();
        let mut i = 0;
        for c in &c {
            assert_eq!(it.as_str().as_bytes(), &b[i..], "the rest while iterating");
            it.next();
            i += gen_utf8(*c).1;
        }
        let u = units_of_wtf8(b).unwrap();
        let w: Vec<u16> = st.encode_wide().collect();
        assert_eq!(w, u, "UTF-16 units");
        let (lo, hi) = st.encode_wide().size_hint();
        assert!(lo <= u.len() && hi.map_or(true, |h| h >= u.len()), "the size hint holds");
        let mut wi = st.encode_wide();
        for k in 0..u.len() {
            let (lo, hi) = wi.size_hint();
            let left = u.len() - k;
            assert!(lo <= left && hi.map_or(true, |h| h >= left), "the size hint holds on the way");
            wi.next();
        }
        assert_eq!(wi.next(), None);
        assert_eq!(wi.next(), None);
        assert_eq!(Wtf8String::from_wide(&w), s, "UTF-16 and back");
        // text
        let sur = c.iter().any(|c| is_high(*c) || is_low(*c));
        let text: String = c.iter().map(|c| char::from_u32(*c).unwrap_or('\u{FFFD}')).collect();
        assert_eq!(st.as_str(), if sur { None } else { Some(&text[..]) }, "as text");
        assert_eq!(s.clone().into_string(), if sur { Err(s.clone()) } else { Ok(text.clone()) }, "into text");
        assert_eq!(st.to_string_lossy(), text, "lossy text");
        assert_eq!(s.clone().into_string_lossy(), text, "into lossy text");
        assert_eq!(format!("{st}"), text, "displayed");
        if sur {
            // padding is only specified for text
        } else {
            assert_eq!(format!("{st:?}"), format!("\"{}\"", text.chars().flat_map(|c| c.escape_debug()).collect::<String>()), "debug form");
        }
        let dbg: String = format!("\"{}\"", c.iter().map(|c| match char::from_u32(*c) { Some(c) => c.escape_debug().collect::<String>(), None => format!("\\u{{{:x}}}", c) }).collect::<String>());
        assert_eq!(format!("{st:?}"), dbg, "debug form");
        assert_eq!(format!("{s:?}"), dbg, "debug form");
        // ASCII case
        let low: Vec<u8> = b.iter().map(|x| if x.is_ascii_uppercase() { x + 32 } else { *x }).collect();
        let up: Vec<u8> = b.iter().map(|x| if x.is_ascii_lowercase() { x - 32 } else { *x }).collect();
        assert_eq!(st.to_ascii_lowercase().as_bytes(), &low[..]);
        assert_eq!(st.to_ascii_uppercase().as_bytes(), &up[..]);
        let mut m = s.clone();
        m.make_ascii_lowercase();
        assert_eq!(m.as_bytes(), &low[..]);
        assert!(st.eq_ignore_ascii_case(&m));
        m.make_ascii_uppercase();
        assert_eq!(m.as_bytes(), &up[..]);
        assert_eq!(st.is_ascii(), b.iter().all(|x| *x < 0x80));
        // comparisons
        assert_eq!(st.len(), b.len());
        assert_eq!(st.is_empty(), b.is_empty());
        let o = ws(other);
        assert_eq!(s == o, b == other);
        assert_eq!(*s == *o, b == other);
        assert_eq!(s == *o, b == other);
        assert_eq!(*s == o, b == other);
        assert_eq!(s == &*o, b == other);
        assert_eq!(&*s == o, b == other);
        assert_eq!(s.cmp(&o), b.cmp(other));
        assert_eq!((*s).cmp(&*o), b.cmp(other));
        assert_eq!(s.partial_cmp(&o), Some(b.cmp(other)));
        if let Some(t) = o.as_str() {
            assert_eq!(s == *t, b == other);
            assert_eq!(*s == *t, b == other);
            assert_eq!(s == t, b == other);
        }
        let hash = |x: &dyn Fn(&mut DefaultHasher)| {
            let mut h = DefaultHasher::new();
            x(&mut h);
            h.finish()
        };
        assert_eq!(hash(&|h| s.hash(h)), hash(&|h| st.hash(h)), "owned and borrowed hash alike");
        if b == other {
            assert_eq!(hash(&|h| s.hash(h)), hash(&|h| o.hash(h)));
        }
    }
    cx.each("every code point", &(0..0x1100u32).collect::<Vec<_>>(), |hi| {
        for lo in 0..256 {
            let (b, n) = gen_utf8(hi << 8 | lo);
            full(&b[..n], &b[..n]);
        }
    });
    let n = cx.scale(40_000, 2_000_000);
    cx.random("strings", n, |r| {
        let b = gen::wtf8(r, 14);
        let o = match r.below(3) {
            0 => b.clone(),
            1 => gen::wtf8(r, 14),
            _ => {
                let mut u = units_of_wtf8(&b).unwrap();
                if u.is_empty() {
                    u.push(0x61)
                } else {
                    let k = r.below(u.len());
                    u[k] ^= 0x20;
                }
                wtf8_of_units(&u)
            }
        };
        note(format!("{b:02x?} {o:02x?}"));
        full(&b, &o);
    });
    let sp: [u16; 12] = [0, 0x41, 0x7A, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xE000, 0xFFFD];
    let mut cases = vec![];
    for a in sp {
        for b in sp {
            for c in sp {
                for d in sp {
                    cases.push([a, b, c, d]);
                }
            }
        }
    }
    cx.each("sequences of special units", &cases, |u| {
        let b = wtf8_of_units(u);
        full(&b, &b[..gen_utf8_next(&b).unwrap().1]);
    });
}
