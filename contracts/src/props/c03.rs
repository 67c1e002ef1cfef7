//! C03: decoding Modified UTF-8 yields the right string or an error.
use crate::core::*;
use crate::spec::*;
use coffer::mod_utf8::*;
use std::mem::ManuallyDrop;

/// Walks over the UTF-16 units of bytes.
struct Units<'a> {
    b: &'a [u8],
    i: usize,
    low: u32,
    /// C0 80 is NUL.
    modified: bool,
}
impl<'a> Units<'a> {
    /// `Ok(None)` at the end, `Err` if malformed.
    fn next(&mut self) -> Result<Option<u32>, ()> {
        if self.low != 0 {
            let l = self.low;
            self.low = 0;
            return Ok(Some(l));
        }
        if self.i == self.b.len() {
            return Ok(None);
        }
        let r = &self.b[self.i..];
        let (c, n) = if self.modified && r.len() >= 2 && r[0] == 0xC0 && r[1] == 0x80 {
            (0, 2)
        } else {
            match gen_utf8_next(r) {
                Some(x) => x,
                None => return Err(()),
            }
        };
        self.i += n;
        if c >= 0x10000 {
            self.low = 0xDC00 + ((c - 0x10000) & 0x3FF);
            Ok(Some(0xD800 + ((c - 0x10000) >> 10)))
        } else {
            Ok(Some(c))
        }
    }
}
/// Decoding `b` is as specified.
fn contract(b: &[u8]) -> bool {
    let r = ManuallyDrop::new(modified_utf8_to_string(b));
    let mut want = Units { b, i: 0, low: 0, modified: true };
    match &*r {
        Ok(st) => {
            assert!(wtf8_ok(st.as_bytes()), "the string is well-formed");
            let mut got = Units { b: st.as_bytes(), i: 0, low: 0, modified: false };
            loop {
                let (x, y) = (want.next(), got.next());
                assert!(x.is_ok(), "malformed bytes are an error");
                assert!(x == y, "the string has the units that the bytes encode");
                if x == Ok(None) {
                    break;
                }
            }
            true
        }
        Err(_) => {
            loop {
                match want.next() {
                    Err(()) => break,
                    Ok(Some(_)) => {}
                    Ok(None) => {
                        assert!(false, "what encodes a string is accepted");
                        break;
                    }
                }
            }
            false
        }
    }
}
fn any<S: Src, const N: usize>(s: &mut S) {
    let mut b = [0u8; N];
    let mut i = 0;
    while i < N {
        b[i] = s.u8();
        i += 1;
    }
    let ok = contract(&b);
    crate::cover!(ok);
    crate::cover!(!ok || N == 0);
}
crate::harnesses! {
    fn c03_len1(s) unwind 3, "quick", "bounded: every sequence of 1 byte", "modified_utf8_to_string" { any::<S, 1>(s) }
    fn c03_len2(s) unwind 4, "thorough", "bounded: every sequence of 2 bytes", "modified_utf8_to_string" { any::<S, 2>(s) }
    fn c03_len3(s) unwind 5, "thorough", "bounded: every sequence of 3 bytes", "modified_utf8_to_string" { any::<S, 3>(s) }
    fn c03_len4(s) unwind 6, "thorough", "bounded: every sequence of 4 bytes", "modified_utf8_to_string" { any::<S, 4>(s) }
    fn c03_pair(s) unwind 8, "thorough", "bounded: ED, any byte, any byte, ED, any byte, any byte", "modified_utf8_to_string" {
        let b = [0xED, s.u8(), s.u8(), 0xED, s.u8(), s.u8()];
        let ok = contract(&b);
        crate::cover!(ok);
        crate::cover!(!ok);
    }
}
#[cfg(not(kani))]
pub fn native(cx: &mut crate::native::Cx) {
    use crate::gen;
    fn full(b: &[u8]) {
        contract(b);
        // through the reader
        if b.len() < 65536 {
            let mut x = (b.len() as u16).to_be_bytes().to_vec();
            x.extend_from_slice(b);
            let r = <wtf_8::Wtf8String as coffer::ReadWrite>::read_from(&mut Rd::new(&x));
            match mutf8_dec(b) {
                Some(u) => assert_eq!(r.expect("accepted").as_bytes(), &wtf8_of_units(&u)[..]),
                None => assert!(r.is_err(), "malformed bytes are an error"),
            }
        }
    }
    let firsts: Vec<u16> = (0..=255).collect();
    cx.each("every sequence of up to 3 bytes", &firsts, |a| {
        let a = *a as u8;
        full(&[a]);
        for b in 0..=255u8 {
            full(&[a, b]);
            if a < 0x7F && a > 0 {
                continue;
            }
            for c in 0..=255u8 {
                contract(&[a, b, c]);
            }
        }
    });
    // the bytes at which the definition changes its mind
    let al: Vec<u8> = vec![0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xAF, 0xB0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF4, 0xF5, 0xFF];
    let mut firsts = vec![];
    for a in &al {
        for b in &al {
            firsts.push((*a, *b));
        }
    }
    let deep = cx.thorough;
    let al2 = al.clone();
    cx.each("boundary bytes, 4 or 5 of them", &firsts, move |(a, b)| {
        for c in &al2 {
            for d in &al2 {
                contract(&[*a, *b, *c, *d]);
                if deep || *a == 0xED || *a == 0xF0 {
                    for e in &al2 {
                        contract(&[*a, *b, *c, *d, *e]);
                    }
                }
            }
        }
    });
    let n = cx.scale(150_000, 10_000_000);
    cx.random("damaged encodings", n, |r| {
        let mut b = mutf8(&gen::units(r, 12));
        for _ in 0..r.below(3) {
            let k = r.below(b.len() + 1);
            match r.below(5) {
                0 => b.insert(k, *r.pick(&al)),
                1 if k < b.len() => {
                    b.remove(k);
                }
                2 if k < b.len() => b[k] = *r.pick(&al),
                3 if k < b.len() => b[k] ^= 1 << r.below(8),
                4 => b.truncate(k),
                _ => {}
            }
        }
        crate::native::note(format!("{b:02x?}"));
        full(&b);
    });
}
