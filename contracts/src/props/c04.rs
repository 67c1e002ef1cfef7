//! C04: strings stay well-formed under every building operation.
use crate::core::*;
use crate::spec::*;
use std::mem::{forget, ManuallyDrop};
use wtf_8::{validate_wtf8, Codepoint, Wtf8Str, Wtf8String};

fn bytes<S: Src, const N: usize>(s: &mut S) -> [u8; N] {
    let mut b = [0u8; N];
    let mut i = 0;
    while i < N {
        b[i] = s.u8();
        i += 1;
    }
    b
}
fn validate<S: Src, const N: usize>(s: &mut S) {
    let b = bytes::<S, N>(s);
    let r = validate_wtf8(&b);
    assert!(r.is_ok() == wtf8_ok(&b), "accepted exactly when well-formed");
    crate::cover!(r.is_ok());
    crate::cover!(r.is_err());
    let r = Wtf8Str::from_bytes(&b);
    assert!(r.is_ok() == wtf8_ok(&b), "accepted exactly when well-formed");
    if let Ok(x) = r {
        let y = x.as_bytes();
        assert!(y.len() == N, "nothing is changed");
        let mut i = 0;
        while i < N {
            assert!(y[i] == b[i], "nothing is changed");
            i += 1;
        }
    }
}
/// A code point of any kind as bytes.
fn cp<S: Src>(s: &mut S) -> u32 {
    let c = s.u32();
    s.assume(c <= 0x10FFFF);
    c
}
/// The bytes of two code points in a row, joined if they are a surrogate pair.
fn two(a: u32, b: u32) -> ([u8; 8], usize) {
    let mut o = [0u8; 8];
    if is_high(a) && is_low(b) {
        let (x, n) = gen_utf8(0x10000 + ((a - 0xD800) << 10) + (b - 0xDC00));
        let mut i = 0;
        while i < n {
            o[i] = x[i];
            i += 1;
        }
        return (o, n);
    }
    let (x, n) = gen_utf8(a);
    let (y, m) = gen_utf8(b);
    let mut i = 0;
    while i < n {
        o[i] = x[i];
        i += 1;
    }
    let mut i = 0;
    while i < m {
        o[n + i] = y[i];
        i += 1;
    }
    (o, n + m)
}
fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}
/// A string of one code point in front of which an ASCII character stands.
fn one(a: u32) -> ManuallyDrop<Wtf8String> {
    let (x, n) = gen_utf8(a);
    let mut v = Vec::with_capacity(16);
    let mut i = 0;
    while i < n {
        v.push(x[i]);
        i += 1;
    }
    ManuallyDrop::new(unsafe { Wtf8String::from_bytes_unchecked(v) })
}
crate::harnesses! {
    fn c04_validate1(s) unwind 2, "quick", "bounded: every sequence of 1 byte", "validate_wtf8, Wtf8Str::from_bytes" { validate::<S, 1>(s) }
    fn c04_validate2(s) unwind 3, "thorough", "bounded: every sequence of 2 bytes", "validate_wtf8, Wtf8Str::from_bytes" { validate::<S, 2>(s) }
    fn c04_validate3(s) unwind 4, "thorough", "bounded: every sequence of 3 bytes", "validate_wtf8, Wtf8Str::from_bytes" { validate::<S, 3>(s) }
    fn c04_validate4(s) unwind 5, "thorough", "bounded: every sequence of 4 bytes", "validate_wtf8, Wtf8Str::from_bytes" { validate::<S, 4>(s) }
    fn c04_validate6(s) unwind 7, "thorough", "bounded: every sequence of 6 bytes", "validate_wtf8, Wtf8Str::from_bytes" { validate::<S, 6>(s) }
    fn c04_encode(s) unwind 9, "quick", "complete: every code point (assumed by the Verus unit wtf8_build)", "encode_utf8_raw, len_utf8, Wtf8String::push_code_point_unchecked" {
        let a = cp(s);
        let mut x = ManuallyDrop::new(Wtf8String::with_capacity(8));
        unsafe { x.push_code_point_unchecked(Codepoint::from_u32(a).unwrap()) };
        let (w, n) = gen_utf8(a);
        assert!(same(x.as_bytes(), &w[..n]), "generalized UTF-8");
        crate::cover!(is_high(a));
        crate::cover!(n == 4);
    }
    fn c04_push(s) unwind 5, "thorough", "bounded: every code point appended onto every string of one code point (only the last one matters to the code)", "Wtf8String::{push,push_code_point_unchecked,final_lead_surrogate}, decode_surrogate_pair" {
        let (a, b) = (cp(s), cp(s));
        let mut x = one(a);
        x.push(Codepoint::from_u32(b).unwrap());
        let (w, n) = two(a, b);
        assert!(same(x.as_bytes(), &w[..n]), "the result is the joined code points");
        assert!(wtf8_ok(x.as_bytes()), "the result is well-formed");
        crate::cover!(is_high(a) && is_low(b));
        crate::cover!(is_low(a) && is_high(b));
    }
    fn c04_push_wtf8(s) unwind 9, "quick", "bounded: two strings of one code point each (only the facing ones matter to the code)", "Wtf8String::{push_wtf8,final_lead_surrogate}, Wtf8Str::initial_trail_surrogate, decode_surrogate_pair" {
        let (a, b) = (cp(s), cp(s));
        let mut x = one(a);
        let y = one(b);
        x.push_wtf8(&y);
        let (w, n) = two(a, b);
        assert!(same(x.as_bytes(), &w[..n]), "the result is the joined code points");
        crate::cover!(is_high(a) && is_low(b));
        crate::cover!(is_low(a) && is_high(b));
    }
    fn c04_push_char(s) unwind 9, "quick", "bounded: every character appended onto every string of one code point", "Wtf8String::push_char" {
        let (a, b) = (cp(s), cp(s));
        s.assume(!is_high(b) && !is_low(b));
        let mut x = one(a);
        x.push_char(char::from_u32(b).unwrap());
        let (w, n) = two(a, b);
        assert!(same(x.as_bytes(), &w[..n]), "the result is the code points");
        crate::cover!(is_high(a));
    }
    fn c04_from_wide(s) unwind 9, "thorough", "bounded: every sequence of 2 UTF-16 units", "Wtf8String::from_wide" {
        let u = [s.u16(), s.u16()];
        let x = ManuallyDrop::new(Wtf8String::from_wide(&u));
        let (w, n) = two(u[0] as u32, u[1] as u32);
        assert!(same(x.as_bytes(), &w[..n]), "the units, pairs joined");
        crate::cover!(is_high(u[0] as u32) && is_low(u[1] as u32));
    }
}

#[cfg(not(kani))]
pub fn native(cx: &mut crate::native::Cx) {
    use crate::gen;
    use crate::native::note;
    use std::panic::{catch_unwind, AssertUnwindSafe};
    fn boundary(b: &[u8], i: usize) -> bool {
        // by the definition: a code point starts here, or it is the end
        let mut k = 0;
        while k < i {
            match gen_utf8_next(&b[k..]) {
                Some((_, n)) => k += n,
                None => return false,
            }
        }
        k == i && i <= b.len()
    }
    // ---- validation
    fn val(b: &[u8]) {
        let ok = wtf8_ok(b);
        assert_eq!(validate_wtf8(b).is_ok(), ok, "{b:02x?}: accepted exactly when well-formed");
        assert_eq!(Wtf8Str::from_bytes(b).is_ok(), ok);
        let mut m = b.to_vec();
        assert_eq!(Wtf8Str::from_bytes_mut(&mut m).is_ok(), ok);
        match Wtf8String::from_bytes(b.to_vec()) {
            Ok(s) => assert!(ok && s.as_bytes() == b && s.clone().into_bytes() == b, "{b:02x?}"),
            Err(_) => assert!(!ok, "{b:02x?}"),
        }
    }
    let firsts: Vec<u16> = (0..=255).collect();
    cx.each("validation: every sequence of up to 3 bytes", &firsts, |a| {
        let a = *a as u8;
        val(&[a]);
        for b in 0..=255u8 {
            val(&[a, b]);
            if a < 0x7F && a > 0 {
                continue;
            }
            for c in 0..=255u8 {
                assert_eq!(validate_wtf8(&[a, b, c]).is_ok(), wtf8_ok(&[a, b, c]), "{a:02x} {b:02x} {c:02x}");
            }
        }
    });
    let al: Vec<u8> = vec![0x00, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xAF, 0xB0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xFF];
    let mut firsts = vec![];
    for a in &al {
        for b in &al {
            firsts.push((*a, *b));
        }
    }
    let deep = cx.thorough;
    cx.each("validation: boundary bytes, 4 to 6 of them", &firsts, |(a, b)| {
        for c in &al {
            for d in &al {
                let x = [*a, *b, *c, *d];
                assert_eq!(validate_wtf8(&x).is_ok(), wtf8_ok(&x), "{x:02x?}");
                if *a == 0xED || deep {
                    for e in &al {
                        for f in &al {
                            let x = [*a, *b, *c, *d, *e, *f];
                            assert_eq!(validate_wtf8(&x).is_ok(), wtf8_ok(&x), "{x:02x?}");
                        }
                    }
                }
            }
        }
    });
    let n = cx.scale(100_000, 5_000_000);
    cx.random("validation: damaged strings", n, |r| {
        let mut b = gen::wtf8(r, 10);
        for _ in 0..r.below(3) {
            let k = r.below(b.len() + 1);
            match r.below(5) {
                0 => b.insert(k, *r.pick(&al)),
                1 if k < b.len() => {
                    b.remove(k);
                }
                2 if k < b.len() => b[k] = *r.pick(&al),
                3 => {
                    let x = gen::wtf8(r, 2);
                    b.extend(x)
                }
                _ => b.truncate(k),
            }
        }
        note(format!("{b:02x?}"));
        val(&b);
    });
    // ---- histories of operations, against the UTF-16 units
    let n = cx.scale(60_000, 3_000_000);
    cx.random("histories of operations", n, |r| {
        let mut s = Wtf8String::new();
        let mut u: Vec<u16> = vec![];
        let mut log = String::new();
        for _ in 0..1 + r.below(8) {
            match r.below(11) {
                0 | 1 => {
                    let c = match r.below(4) {
                        0 => 0xD800 + r.below(0x800) as u32,
                        1 => 0x10000 + r.below(0x100000) as u32,
                        _ => r.below(0x11_0000) as u32,
                    };
                    log += &format!("push({c:x}) ");
                    s.push(Codepoint::from_u32(c).unwrap());
                    units_of_cp(c, &mut u);
                }
                2 | 3 => {
                    let v = gen::units(r, 4);
                    let x = wtf8_of_units(&v);
                    log += &format!("push_wtf8({v:04x?}) ");
                    s.push_wtf8(&ws(&x));
                    u.extend(&v);
                }
                4 => {
                    let c = char::from_u32(r.below(0x11_0000) as u32).unwrap_or('é');
                    log += &format!("push_char({c:?}) ");
                    s.push_char(c);
                    units_of_cp(c as u32, &mut u);
                }
                5 => {
                    let t: String = (0..r.below(4)).map(|_| char::from_u32(r.below(0x3000) as u32).unwrap()).collect();
                    log += &format!("push_str({t:?}) ");
                    s.push_str(&t);
                    u.extend(t.encode_utf16());
                }
                6 => {
                    // collect or extend
                    let v: Vec<u32> = (0..r.below(4)).map(|_| if r.chance(2, 3) { 0xD800 + r.below(0x800) as u32 } else { r.below(0x11_0000) as u32 }).collect();
                    log += &format!("extend({v:x?}) ");
                    let it = v.iter().map(|c| Codepoint::from_u32(*c).unwrap());
                    if r.chance(1, 2) {
                        s.extend(it);
                    } else {
                        let t: Wtf8String = it.collect();
                        s.push_wtf8(&t);
                    }
                    for c in v {
                        units_of_cp(c, &mut u);
                    }
                }
                7 | 8 => {
                    let k = r.below(s.len() + 2);
                    log += &format!("truncate({k}) ");
                    let ok = boundary(s.as_bytes(), k);
                    let before = s.clone();
                    let q = catch_unwind(AssertUnwindSafe(|| s.truncate(k)));
                    note(log.clone());
                    assert_eq!(q.is_ok(), ok, "truncate({k}) on {before:?}: refused exactly when off a boundary");
                    if ok {
                        u = units_of_wtf8(&before.as_bytes()[..k]).unwrap();
                    } else {
                        assert_eq!(s, before, "a refused operation changes nothing");
                    }
                }
                9 => {
                    let (a, b) = (r.below(s.len() + 2), r.below(s.len() + 2));
                    log += &format!("index({a}..{b}) ");
                    note(log.clone());
                    let bs = s.as_bytes().to_vec();
                    let ok = a <= b && boundary(&bs, a) && boundary(&bs, b);
                    let q = catch_unwind(AssertUnwindSafe(|| s[a..b].as_bytes().to_vec()));
                    assert_eq!(q.is_ok(), ok, "[{a}..{b}] of {s:?}: refused exactly when off a boundary");
                    let qf = catch_unwind(AssertUnwindSafe(|| s[a..].as_bytes().to_vec()));
                    assert_eq!(qf.is_ok(), boundary(&bs, a), "[{a}..] of {s:?}");
                    let qt = catch_unwind(AssertUnwindSafe(|| s[..b].as_bytes().to_vec()));
                    assert_eq!(qt.is_ok(), boundary(&bs, b), "[..{b}] of {s:?}");
                    if let Ok(x) = qf {
                        assert_eq!(x, bs[a..]);
                    }
                    if let Ok(x) = qt {
                        assert_eq!(x, bs[..b]);
                    }
                    assert_eq!(s[..].as_bytes(), &bs[..]);
                    if let Ok(x) = q {
                        assert_eq!(x, bs[a..b], "the slice");
                        assert!(wtf8_ok(&x), "a slice is well-formed");
                        if r.chance(1, 2) {
                            s = s[a..b].to_owned();
                            u = units_of_wtf8(&x).unwrap();
                        }
                    }
                }
                _ => {
                    // conversions that keep the content
                    log += "convert ";
                    let mut t = ws(&gen::wtf8(r, 5));
                    match r.below(7) {
                        0 => s = Wtf8String::from_box(s.into_box()),
                        1 => s = Wtf8String::from_box((*s).into_box()),
                        2 => {
                            s.clone_into(&mut t);
                            s = t;
                        }
                        3 => s = Wtf8String::from(&*s),
                        4 => s = (*s.into_arc()).to_owned(),
                        5 => s = (*s.into_rc()).to_owned(),
                        _ => {
                            s.reserve(9);
                            s.shrink_to_fit();
                        }
                    }
                }
            }
            note(log.clone());
            assert!(wtf8_ok(s.as_bytes()), "well-formed: {:02x?}", s.as_bytes());
            assert_eq!(s.as_bytes(), &wtf8_of_units(&u)[..], "the units are those of the operands");
        }
    });
    let n = cx.scale(30_000, 1_000_000);
    cx.random("from UTF-16", n, |r| {
        let u = gen::units(r, 12);
        note(format!("{u:04x?}"));
        let s = Wtf8String::from_wide(&u);
        assert!(wtf8_ok(s.as_bytes()));
        assert_eq!(s.as_bytes(), &wtf8_of_units(&u)[..]);
    });
    cx.each("code points", &(0..0x1200u32).collect::<Vec<_>>(), |hi| {
        for lo in 0..256 {
            let c = hi << 8 | lo;
            match Codepoint::from_u32(c) {
                Some(p) => {
                    assert!(c <= 0x10FFFF && p.to_u32() == c);
                    assert_eq!(p.to_char(), char::from_u32(c));
                    assert_eq!(p.to_char_lossy(), char::from_u32(c).unwrap_or('\u{FFFD}'));
                }
                None => assert!(c > 0x10FFFF),
            }
        }
    });
}
