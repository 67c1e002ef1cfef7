//! C07: pool indices handed out by the writer denote what was inserted.
use crate::core::*;
use coffer::prelude::*;

pub const HARNESSES: &[Harness] = &[];

#[cfg(not(kani))]
pub fn raw_entry(r: &mut Rng) -> RawConstantEntry {
    use crate::gen;
    use RawConstantEntry as R;
    let small = r.chance(1, 2);
    let mut i = |r: &mut Rng| if small { r.below(3) as u16 } else { r.u16() };
    match r.below(18) {
        0 | 1 => R::WTF8(gen::name(r)),
        2 => R::Int(r.u32() as i32),
        3 => R::Float(f32::from_bits(*r.pick(&[0, 0x8000_0000, 0x3f80_0000, 0x7fc0_0000, 0x7fc0_0001, 0xffc0_0000, 0x7f80_0001])).into()),
        4 => R::Long(if small { r.below(3) as i64 } else { r.u64() as i64 }),
        5 => R::Double(f64::from_bits(*r.pick(&[0, 1 << 63, 1.0f64.to_bits(), 0x7ff8 << 48, (0x7ff8 << 48) + 1, 0xfff8 << 48])).into()),
        6 => R::Class(i(r)),
        7 => R::String(i(r)),
        8 => R::Field(i(r), i(r)),
        9 => R::Method(i(r), i(r)),
        10 => R::InterfaceMethod(i(r), i(r)),
        11 => R::NameAndType(i(r), i(r)),
        12 => R::MethodHandle(r.u8(), i(r)),
        13 => R::MethodType(i(r)),
        14 => R::Dynamic(i(r), i(r)),
        15 => R::InvokeDynamic(i(r), i(r)),
        16 => R::Module(i(r)),
        _ => R::Package(i(r)),
    }
}
/// Bit identity, so that the check does not depend on coffer's equality.
#[cfg(not(kani))]
pub fn key(e: &RawConstantEntry) -> Vec<u8> {
    let mut o = vec![];
    crate::spec::entry_bytes(e, &mut o);
    o
}
#[cfg(not(kani))]
pub fn wide(e: &RawConstantEntry) -> bool {
    matches!(e, RawConstantEntry::Long(_) | RawConstantEntry::Double(_))
}

#[cfg(not(kani))]
pub fn native(cx: &mut crate::native::Cx) {
    use crate::classfile::parse_pool;
    use crate::native::note;
    use std::collections::HashMap;
    let n = cx.scale(60_000, 2_000_000);
    cx.random("insertion sequences", n, |r| {
        let mut cp = VecCp::new();
        let mut next = 1u32;
        let mut at: HashMap<Vec<u8>, u16> = HashMap::new();
        let mut log = vec![];
        let len = 1 + r.below(40);
        for _ in 0..len {
            let e = if !log.is_empty() && r.chance(1, 3) {
                let x: &(RawConstantEntry, u16) = r.pick(&log);
                x.0.clone()
            } else {
                raw_entry(r)
            };
            let got = cp.insert_raw(e.clone());
            let want = *at.entry(key(&e)).or_insert_with(|| {
                let i = next;
                next += 1 + wide(&e) as u32;
                i as u16
            });
            log.push((e, got));
            note(format!("{log:?}"));
            assert_eq!(got, want, "the index handed out");
            if r.chance(1, 10) {
                check(&cp, next, &at);
            }
        }
        check(&cp, next, &at);
    });
    fn check(cp: &VecCp, next: u32, at: &HashMap<Vec<u8>, u16>) {
        let mut o = vec![];
        ReadWrite::write_to(cp, &mut o).expect("the pool is written");
        let (p, n) = parse_pool(&o).expect("the written pool is a pool");
        assert_eq!(n, o.len(), "the pool and nothing else is written");
        assert_eq!(p.count as u32, next, "the count is one more than the slots");
        assert_eq!(p.entries.len(), at.len(), "every entry stands once");
        for (k, i) in at {
            let e = p.entries.get(i).expect("an index that was handed out is a slot");
            assert_eq!(key(e), *k, "slot {i} is what was inserted");
        }
    }
    // symbolic insertions give indices that stay right
    let n = cx.scale(20_000, 500_000);
    cx.random("symbolic insertions", n, |r| {
        use crate::{gen, spec::*};
        let mut cp = VecCp::new();
        let mut log: Vec<(Konst, u16)> = vec![];
        for _ in 0..1 + r.below(12) {
            let c = if !log.is_empty() && r.chance(1, 4) { const_k(&r.pick(&log).0.clone()).unwrap() } else { gen::constant(r) };
            let k = k_const(&c);
            let i = cp.insert_constant(c);
            if let Some((_, j)) = log.iter().find(|x| x.0 == k) {
                assert_eq!(i, *j, "inserted again: {k:?}");
            }
            log.push((k, i));
        }
        note(format!("{log:?}"));
        let mut o = vec![];
        ReadWrite::write_to(&cp, &mut o).unwrap();
        let (p, _) = parse_pool(&o).expect("the written pool is a pool");
        for (k, i) in &log {
            assert_eq!(p.konst(*i).as_ref(), Some(k), "index {i}");
        }
        // no slot is there that nothing needs
        let mut sp = SpecPool::new(1);
        log.iter().for_each(|x| {
            sp.add(&x.0);
        });
        assert_eq!(p.entries.len(), sp.entries.len(), "nothing is added twice");
    });
    // around the limit
    let deltas: Vec<(i32, usize)> = (-3..=3).flat_map(|d| (0..4).map(move |w| (d, w))).collect();
    cx.each("around 65535 slots", &deltas, |(d, wides)| {
        let mut cp = VecCp::new();
        let total = (65535 + d) as usize; // count
        let mut slots = 1usize;
        let mut i = 0;
        let mut want = vec![];
        let w = *wides * 9000;
        while slots < total {
            let e = if i < w && slots + 2 <= total && *wides != 3 || (*wides == 3 && slots + 2 == total) { RawConstantEntry::Long(i as i64) } else { RawConstantEntry::Int(i as i32) };
            let x = cp.insert_raw(e.clone());
            if total <= 65535 {
                assert_eq!(x as usize, slots, "index of the entry");
            }
            want.push((slots, e.clone()));
            slots += 1 + wide(&e) as usize;
            i += 1;
        }
        let mut o = vec![];
        let r = ReadWrite::write_to(&cp, &mut o);
        if total > 65535 {
            assert!(r.is_err(), "a pool of {total} slots cannot be written");
            return;
        }
        r.expect("a pool that fits is written");
        let (p, n) = parse_pool(&o).expect("the written pool is a pool");
        assert!(n == o.len() && p.count as usize == total);
        for (s, e) in want {
            assert_eq!(p.entries.get(&(s as u16)), Some(&e), "slot {s}");
            assert_eq!(cp.insert_raw(e) as usize, s, "inserted again");
        }
    });
}
#[cfg(not(kani))]
use crate::spec::Lookup;
