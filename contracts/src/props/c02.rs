//! C02: strings are encoded as exact Modified UTF-8.
use crate::core::*;
use crate::spec::*;
use coffer::mod_utf8::*;
use std::mem::{forget, ManuallyDrop};
use wtf_8::Wtf8Str;

/// The Modified UTF-8 bytes of a code point.
fn mutf8_cp(c: u32) -> ([u8; 6], usize) {
    let mut o = [0u8; 6];
    if c < 0x10000 {
        let (b, n) = mutf8_unit(c as u16);
        let mut i = 0;
        while i < n {
            o[i] = b[i];
            i += 1;
        }
        (o, n)
    } else {
        let (a, _) = mutf8_unit((0xD800 + ((c - 0x10000) >> 10)) as u16);
        let (b, _) = mutf8_unit((0xDC00 + ((c - 0x10000) & 0x3FF)) as u16);
        ([a[0], a[1], a[2], b[0], b[1], b[2]], 6)
    }
}
fn one<S: Src>(s: &mut S, lo: u32, hi: u32) {
    let c = s.u32();
    s.assume(c >= lo && c <= hi);
    let (b, n) = gen_utf8(c);
    let (m, k) = mutf8_cp(c);
    let st = unsafe { Wtf8Str::from_bytes_unchecked(&b[..n]) };
    let o = ManuallyDrop::new(string_to_modified_utf8(st));
    assert!(o.len() == k, "the encoding has the specified length");
    let mut i = 0;
    while i < k {
        assert!(o[i] == m[i], "the encoding has the specified bytes");
        assert!(o[i] != 0, "no byte is zero");
        i += 1;
    }
    let r = ManuallyDrop::new(modified_utf8_to_string(&m[..k]));
    match &*r {
        Ok(d) => {
            let d = d.as_bytes();
            assert!(d.len() == n, "decoding gives the string back");
            let mut i = 0;
            while i < n {
                assert!(d[i] == b[i], "decoding gives the string back");
                i += 1;
            }
        }
        Err(_) => assert!(false, "the encoding is decoded"),
    }
    crate::cover!(c == lo);
    crate::cover!(c == hi);
}
crate::harnesses! {
    fn c02_one_byte(s) unwind 9, "thorough", "complete for strings of one code point (U+0001 to U+007F)", "string_to_modified_utf8, modified_utf8_to_string" { one(s, 1, 0x7F) }
    fn c02_nul(s) unwind 9, "thorough", "complete for the string U+0000", "string_to_modified_utf8, modified_utf8_to_string" { one(s, 0, 0) }
    fn c02_two_bytes(s) unwind 9, "thorough", "complete for strings of one code point (U+0080 to U+07FF)", "string_to_modified_utf8, modified_utf8_to_string" { one(s, 0x80, 0x7FF) }
    fn c02_three_bytes(s) unwind 9, "thorough", "complete for strings of one code point (U+0800 to U+FFFF, surrogates included)", "string_to_modified_utf8, modified_utf8_to_string" { one(s, 0x800, 0xFFFF) }
    fn c02_six_bytes(s) unwind 9, "thorough", "complete for strings of one code point (U+10000 to U+10FFFF)", "string_to_modified_utf8, modified_utf8_to_string" { one(s, 0x10000, 0x10FFFF) }
}

#[cfg(not(kani))]
pub fn native(cx: &mut crate::native::Cx) {
    use crate::gen;
    use coffer::ReadWrite;
    use wtf_8::Wtf8String;
    fn full(units: &[u16]) {
        let w = wtf8_of_units(units);
        let st = ws(&w);
        let want = mutf8(units);
        let got = string_to_modified_utf8(&st);
        assert_eq!(got, want, "the encoding of {st:?}");
        assert!(!got.contains(&0), "no byte is zero");
        let back = modified_utf8_to_string(&want).expect("the encoding is decoded");
        assert_eq!(back.as_bytes(), &w[..], "decoding gives the string back");
        let mut o = vec![];
        st.write_to(&mut o).unwrap();
        assert_eq!(o[..2], (want.len() as u16).to_be_bytes(), "the byte length is in front");
        assert_eq!(o[2..], want[..]);
        o.push(0x41);
        let mut rd = Rd::new(&o);
        assert_eq!(<Wtf8String as ReadWrite>::read_from(&mut rd).unwrap(), st);
        assert_eq!(rd.n, 2 + want.len());
        let mut cp = coffer::prelude::VecCp::new();
        coffer::prelude::ConstantPoolWriter::insert_wtf8(&mut cp, st.clone().into());
        let mut o3 = vec![];
        cp.write_to(&mut o3).unwrap();
        assert_eq!(o3[..3], [0, 2, 1], "a pool of this text");
        assert_eq!(o3[3..], o[..o.len() - 1], "the text in a pool");
        let c: std::borrow::Cow<'static, Wtf8Str> = st.into();
        let mut o2 = vec![];
        c.write_to(&mut o2).unwrap();
        assert_eq!(o[..o.len() - 1], o2[..]);
        assert!(<Wtf8String as ReadWrite>::read_from(&mut Rd::new(&o2[..o2.len() - 1])).is_err() );
    }
    let cps: Vec<u32> = (0..0x1100).collect();
    cx.each("every code point", &cps, |hi| {
        for lo in 0..256 {
            let mut u = vec![];
            units_of_cp(hi << 8 | lo, &mut u);
            full(&u);
        }
    });
    let special: [u16; 22] = [0, 1, 0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xFFF, 0x1000, 0x7FFF, 0x8000, 0xCFFF, 0xD000, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF];
    let mut cases = vec![];
    for a in special {
        for b in special {
            for c in special {
                cases.push(vec![a, b, c]);
                if cx.thorough {
                    for d in special {
                        cases.push(vec![a, b, c, d]);
                    }
                }
            }
        }
    }
    cx.each("sequences of special units", &cases, |u| full(u));
    let n = cx.scale(30000, 2_000_000);
    cx.random("random strings", n, |r| {
        let u = gen::units(r, 40);
        crate::native::note(format!("{u:04x?}"));
        full(&u);
    });
    let n = cx.scale(60, 400);
    cx.random("lengths around the limit", n, |r| {
        let mut u: Vec<u16> = vec![];
        let target = *r.pick(&[65535usize, 65534, 65533, 65532, 65536, 65537, 65538, 70000, 131071, 131072, 131073]);
        let mut len = 0;
        while len < target {
            let left = target - len;
            let c = match r.below(4) {
                0 if left >= 3 => *r.pick(&[0xD800u16, 0x800, 0xFFFF]),
                1 if left >= 2 => *r.pick(&[0u16, 0x80, 0x7FF]),
                _ => 0x41,
            };
            len += mutf8_unit(c).1;
            u.push(c);
        }
        crate::native::note(format!("{target} bytes"));
        if target <= 65535 {
            full(&u);
        } else {
            let st = ws(&wtf8_of_units(&u));
            assert_eq!(string_to_modified_utf8(&st), mutf8(&u));
            assert!(st.write_to(&mut vec![]).is_err(), "too long to be stored");
        }
    });
}
