//! C16: stack-map frames have the specified binary form.
use crate::core::*;
use coffer::prelude::*;

pub const HARNESSES: &[Harness] = &[];

#[cfg(not(kani))]
pub fn native(cx: &mut crate::native::Cx) {
    use crate::gen::name;
    use crate::native::note;
    use crate::spec::*;
    use VerificationType as V;
    fn ty(r: &mut Rng) -> V {
        match r.below(9) {
            0 => V::Top,
            1 => V::Int,
            2 => V::Float,
            3 => V::Double,
            4 => V::Long,
            5 => V::Null,
            6 => V::UninitializedThis,
            7 => V::Object(name(r)),
            _ => V::UninitializedVariable(Label(r.u16() as u32)),
        }
    }
    fn t_ty(v: &V) -> Toks {
        let t = Toks::new();
        match v {
            V::Top => t.u8(0),
            V::Int => t.u8(1),
            V::Float => t.u8(2),
            V::Double => t.u8(3),
            V::Long => t.u8(4),
            V::Null => t.u8(5),
            V::UninitializedThis => t.u8(6),
            V::Object(n) => t.u8(7).class(n),
            V::UninitializedVariable(l) => t.u8(8).u16(l.0 as u16),
        }
    }
    fn t_frame(f: &RawFrame) -> Toks {
        let t = Toks::new();
        let all = |t: Toks, v: &[V]| v.iter().fold(t, |t, v| t.then(t_ty(v)));
        match f {
            RawFrame::Same(o) if *o < 64 => t.u8(*o as u8),
            RawFrame::Same(o) => t.u8(251).u16(*o),
            RawFrame::SameLocalsOneStack(o, v) if *o < 64 => t.u8(64 + *o as u8).then(t_ty(v)),
            RawFrame::SameLocalsOneStack(o, v) => t.u8(247).u16(*o).then(t_ty(v)),
            RawFrame::Chop(o, k) => t.u8(251 - k).u16(*o),
            RawFrame::Append(o, v) => all(t.u8(251 + v.len() as u8).u16(*o), v),
            RawFrame::Full(o, a, b) => {
                let t = all(t.u8(255).u16(*o).u16(a.len() as u16), a);
                all(t.u16(b.len() as u16), b)
            }
        }
    }
    fn off(r: &mut Rng) -> u16 {
        match r.below(3) {
            0 => 60 + r.below(10) as u16,
            1 => r.below(70) as u16,
            _ => r.u16(),
        }
    }
    fn types(r: &mut Rng, n: usize) -> Vec<V> {
        (0..n).map(|_| ty(r)).collect()
    }
    let n = cx.scale(60_000, 2_000_000);
    cx.random("frames", n, |r| {
        let o = off(r);
        let f = match r.below(5) {
            0 => RawFrame::Same(o),
            1 => RawFrame::SameLocalsOneStack(o, ty(r)),
            2 => RawFrame::Chop(o, 1 + r.below(3) as u8),
            3 => {
                let k = 1 + r.below(3);
                RawFrame::Append(o, types(r, k))
            }
            _ => {
                let (a, b) = (*r.pick(&[0, 1, 2, 3, 4, 5, 9]), *r.pick(&[0, 1, 2, 3, 4, 5, 9]));
                RawFrame::Full(o, types(r, a), types(r, b))
            }
        };
        note(format!("{f:?}"));
        roundtrip(&f, &t_frame(&f), 5, &[]);
        let v = ty(r);
        roundtrip(&v, &t_ty(&v), 5, &[]);
        assert_eq!(v.is_wide(), matches!(v, V::Double | V::Long), "width of {v:?}");
    });
    let offs: Vec<u16> = (0..=65535).collect();
    cx.each("every offset", &offs, |o| {
        for f in [RawFrame::Same(*o), RawFrame::SameLocalsOneStack(*o, V::Long), RawFrame::Chop(*o, 2), RawFrame::Append(*o, vec![V::Int]), RawFrame::Full(*o, vec![], vec![V::Null])] {
            roundtrip(&f, &t_frame(&f), 5, &[]);
        }
    });
    // every first byte, with room for any operands
    let tags: Vec<u8> = (0..=255).collect();
    cx.each("every tag", &tags, |t| {
        for ot in 0..=12u8 {
            // a type of tag `ot` follows where one stands
            let mut b = vec![*t];
            let ty = [ot, 0, 1];
            match t {
                64..=127 => b.extend_from_slice(&ty),
                247 => {
                    b.extend_from_slice(&[1, 2]);
                    b.extend_from_slice(&ty)
                }
                252..=254 => {
                    b.extend_from_slice(&[1, 2]);
                    for _ in 251..*t {
                        b.extend_from_slice(if ot == 7 || ot == 8 { &ty } else { &ty[..1] })
                    }
                }
                255 => {
                    b.extend_from_slice(&[1, 2, 0, 1]);
                    b.extend_from_slice(if ot == 7 || ot == 8 { &ty } else { &ty[..1] });
                    b.extend_from_slice(&[0, 2]);
                    b.extend_from_slice(if ot == 7 || ot == 8 { &ty } else { &ty[..1] });
                    b.extend_from_slice(&ty);
                }
                _ => b.extend_from_slice(&[1, 2]),
            }
            b.extend_from_slice(&[0; 8]);
            let mut p = SpecPool::new(1);
            let i = p.add(&Konst::Class(b"c".to_vec()));
            // the index 1 is that of the class
            let c = p.entries[&i].clone();
            let u = match c {
                RawConstantEntry::Class(u) => p.entries[&u].clone(),
                _ => unreachable!(),
            };
            p.entries.clear();
            p.entries.insert(1, RawConstantEntry::Class(2));
            p.entries.insert(2, u);
            let has = matches!(t, 64..=127 | 247 | 252..=255);
            let ok = !matches!(t, 128..=246) && (!has || ot <= 8);
            let mut rd = Rd::new(&b);
            match RawFrame::read_from(&mut p.clone(), &mut rd) {
                Ok(f) => {
                    assert!(ok, "tag {t} with type {ot} reads as {f:?}");
                    let mut want = vec![];
                    let mut q = RecPool::new(1);
                    q.insert_raw(p.entries[&1].clone());
                    q.insert_raw(p.entries[&2].clone());
                    f.write_to(&mut q, &mut want).unwrap();
                    // the short form of a small offset, else the bytes read
                    t_frame(&f).matches_all(&want, &p).unwrap_or_else(|e| panic!("{f:?}: {e}"));
                    assert_eq!(&b[..rd.n], &want[..], "tag {t} with type {ot}: {f:?}");
                }
                Err(e) => assert!(!ok, "tag {t} with type {ot}: {e}"),
            }
        }
    });
    // long forms of small offsets
    let small: Vec<u16> = (0..=255).collect();
    cx.each("long forms", &small, |o| {
        let [h, l] = o.to_be_bytes();
        let p = SpecPool::new(1);
        assert_eq!(RawFrame::read_from(&mut p.clone(), &mut Rd::new(&[251, h, l])).unwrap(), RawFrame::Same(*o));
        assert_eq!(RawFrame::read_from(&mut p.clone(), &mut Rd::new(&[247, h, l, 3])).unwrap(), RawFrame::SameLocalsOneStack(*o, V::Double));
        let c = *o as u8;
        let r = RawFrame::Chop(7, c).write_to(&mut RecPool::new(1), &mut vec![]);
        assert_eq!(r.is_ok(), (1..=3).contains(&c), "chop {c}");
    });
    let lens: Vec<usize> = (0..40).chain([255, 256, 259, 300, 65535, 65536]).collect();
    cx.each("lists of any length", &lens, |k| {
        let v = vec![V::Int; *k];
        let r = RawFrame::Append(7, v.clone()).write_to(&mut RecPool::new(1), &mut vec![]);
        assert_eq!(r.is_ok(), (1..=3).contains(k), "append {k}");
        for f in [RawFrame::Full(7, v.clone(), vec![]), RawFrame::Full(7, vec![], v.clone())] {
            if *k <= 65535 {
                roundtrip(&f, &t_frame(&f), 5, &[]);
            } else {
                assert!(f.write_to(&mut RecPool::new(1), &mut vec![]).is_err(), "a list of {k} is written");
            }
        }
    });
}
