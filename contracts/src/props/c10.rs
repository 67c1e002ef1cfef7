//! C10: descriptors parse and print as exact inverses.
use crate::core::*;
use coffer::prelude::*;

pub const HARNESSES: &[Harness] = &[];

#[cfg(not(kani))]
pub fn native(cx: &mut crate::native::Cx) {
    use crate::native::note;
    use crate::{gen, spec::*};
    fn lossy(b: &[u8]) -> String {
        cps_of_wtf8(b).unwrap().into_iter().map(|c| char::from_u32(c).unwrap_or('\u{FFFD}')).collect()
    }
    fn text(b: &[u8]) {
        note(format!("{b:02x?}"));
        let s = ws(b);
        let got = parse_type(&s);
        match parse_desc(b) {
            Some(t) => assert_eq!(got.as_ref().ok(), Some(&t), "parsing a descriptor"),
            None => assert!(got.is_err(), "text that is no descriptor was parsed as {got:?}"),
        }
        // as a pool entry
        let mut p = SpecPool::new(4);
        let i = p.add(&Konst::Utf8(b.to_vec()));
        let r = <Type as ConstantPoolReadWrite>::read_from(&mut p, &mut Rd::new(&i.to_be_bytes()));
        assert_eq!(r.ok(), parse_desc(b), "reading a descriptor");
    }
    fn value(t: &Type) {
        let want = descs(t);
        note(format!("{t:?}"));
        let s: wtf_8::Wtf8String = t.into();
        assert_eq!(s.as_bytes(), &want[..], "printed form");
        let mut s = ws(b"pre");
        coffer::ty::write_type(t, &mut s);
        assert_eq!(s.as_bytes(), &[b"pre", &want[..]].concat()[..], "appended printed form");
        assert_eq!(t.to_string(), lossy(&want), "displayed form");
        let mut r = RecPool::new(9);
        let mut o = vec![];
        <Type as ConstantPoolReadWrite>::write_to(t, &mut r, &mut o).unwrap();
        Toks::new().k(Konst::Utf8(want.clone())).matches_all(&o, &r).unwrap();
        assert_eq!(parse_type(&ws(&want)).ok().as_ref(), Some(t), "parsed from its printed form");
        text(&want);
    }
    let n = cx.scale(120_000, 4_000_000);
    cx.random("values", n, |r| value(&gen::any_type(r)));
    cx.random("class types", n / 4, |r| {
        let c = crate::gen2::class_type(r);
        note(format!("{c:?}"));
        let want = match &c {
            ClassType::Object(s) => s.as_bytes().to_vec(),
            ClassType::Array(d, t) => [vec![b'['; *d as usize], descs(t)].concat(),
        };
        let s: Cow<'static, wtf_8::Wtf8Str> = c.into();
        assert_eq!(s.as_bytes(), &want[..], "the name of a class or array");
    });
    cx.random("damaged texts", n, |r| {
        let mut b = descs(&gen::any_type(r));
        let al = b"BCDFIJZSVLT[();x/<>^*";
        for _ in 0..1 + r.below(3) {
            let mut cps = cps_of_wtf8(&b).unwrap();
            let k = r.below(cps.len() + 1);
            match r.below(6) {
                0 => cps.insert(k, *r.pick(al) as u32),
                1 if k < cps.len() => {
                    cps.remove(k);
                }
                2 if k < cps.len() => cps[k] = *r.pick(al) as u32,
                3 => cps.truncate(k),
                4 => cps.insert(k, *r.pick(&[0, 0xD800, 0xDC00, 0x10FFFF, 0xE9, 0x249, 0x14C, 0x5B5B, 0x1014C])),
                _ => {
                    let e: Vec<u32> = cps[k..].to_vec();
                    cps.extend(e);
                }
            }
            let mut u = vec![];
            cps.iter().for_each(|c| units_of_cp(*c, &mut u));
            b = wtf8_of_units(&u);
        }
        text(&b);
    });
    // every short text over the characters that mean something
    let al = b"BCDFIJZSVL[();x".to_vec();
    let depth = cx.scale(5, 6);
    let mut firsts = vec![];
    for a in 0..al.len() {
        for b in 0..al.len() {
            firsts.push((a, b));
        }
    }
    cx.each("every short text", &firsts, |(a, b)| {
        fn go(s: &mut Vec<u8>, al: &[u8], d: usize) {
            let got = parse_type(&ws(s));
            assert_eq!(got.ok(), parse_desc(s), "{:?}", String::from_utf8_lossy(s));
            if d > 0 {
                for c in al {
                    s.push(*c);
                    go(s, al, d - 1);
                    s.pop();
                }
            }
        }
        let mut s = vec![al[*a], al[*b]];
        go(&mut s, &al, depth - 2);
    });
    cx.each("single characters and the empty text", &(0..=128u32).collect::<Vec<_>>(), |c| {
        if *c < 128 {
            text(&[*c as u8]);
        } else {
            text(&[]);
        }
    });
    let dims: Vec<usize> = (1..=300).chain([511, 512, 513, 65536, 65537, 100_000]).collect();
    cx.each("dimensions", &dims, |d| {
        for t in ["I", "Lx;", "V", "()V", ""] {
            let mut b = vec![b'['; *d];
            b.extend_from_slice(t.as_bytes());
            text(&b);
            text(&[b"(", &b[..], b")V"].concat());
            text(&[b"()", &b[..]].concat());
        }
    });
    // many parameters, one of them no field type
    let counts: Vec<usize> = [0, 1, 2, 8, 64].into_iter().chain(253..=260).chain([300, 511, 512, 513, 4000]).collect();
    cx.each("many parameters", &counts, |n| {
        for odd in ["", "(I)V", "V", "()", "(", ")", "[V", "[(I)V", "Lx", ";", "[[[J", "Lx;"] {
            for one in ["I", "J", "Lx;"] {
                for at in [0, *n / 2, *n] {
                    let b = ["(", &one.repeat(at), odd, &one.repeat(*n - at), ")V"].concat();
                    text(b.as_bytes());
                }
            }
        }
    });
    cx.each("the array constructor", &(1..=255u8).collect::<Vec<_>>(), |d| {
        assert_eq!(Type::array(*d, Type::Int), Type::ArrayRef(*d, Box::new(Type::Int)));
        for e in 1..=255u8 {
            if *d as usize + e as usize <= 255 {
                assert_eq!(Type::array(*d, Type::ArrayRef(e, Box::new(Type::Int))), Type::ArrayRef(*d + e, Box::new(Type::Int)));
            }
        }
    });
}
