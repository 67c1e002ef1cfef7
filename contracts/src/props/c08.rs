//! C08: reading a pool assigns every entry its specified slot.
use crate::core::*;
use coffer::prelude::*;

pub const HARNESSES: &[Harness] = &[];

#[cfg(not(kani))]
pub fn native(cx: &mut crate::native::Cx) {
    use super::c07::{key, raw_entry, wide};
    use crate::native::note;
    use crate::spec::*;
    fn run(entries: &[RawConstantEntry], cut_wide: bool, garbage: &[u8]) {
        let mut b = vec![0, 0];
        let mut slot = 1u32;
        let mut want = std::collections::HashMap::new();
        for e in entries {
            entry_bytes(e, &mut b);
            want.insert(slot as u16, key(e));
            slot += 1 + wide(e) as u32;
        }
        let mut count = slot;
        if cut_wide {
            // the second slot of the last entry is not there
            count -= 1;
        }
        b[..2].copy_from_slice(&(count as u16).to_be_bytes());
        let n = b.len();
        b.extend_from_slice(garbage);
        let mut rd = Rd::new(&b);
        let p = <MapCp as ReadWrite>::read_from(&mut rd);
        let mut p = match p {
            Ok(p) => p,
            Err(_) if cut_wide => return,
            Err(e) => panic!("reading a pool failed: {e}"),
        };
        assert_eq!(rd.n, n, "bytes consumed");
        for i in (0..=(slot as u16).saturating_add(3)).chain([65533, 65534, 65535]) {
            let e = p.read_raw(i);
            assert_eq!(e.as_ref().map(key), want.get(&i).cloned(), "slot {i}");
        }
        for k in [0, 1, 2, n / 3, n / 2, n - 1] {
            if k < n && (entries.len() > 0 || k < 2) {
                assert!(<MapCp as ReadWrite>::read_from(&mut Rd::new(&b[..k])).is_err(), "only {k} of {n} bytes");
            }
        }
    }
    let n = cx.scale(60_000, 2_000_000);
    cx.random("random pools", n, |r| {
        let n = r.below(24);
        let v: Vec<_> = (0..n).map(|_| raw_entry(r)).collect();
        let cut = v.last().map_or(false, wide) && r.chance(1, 2);
        let g: Vec<u8> = (0..r.below(6)).map(|_| r.u8()).collect();
        note(format!("{v:?} cut {cut} then {g:?}"));
        run(&v, cut, &g);
    });
    cx.each("a count of zero", &[0], |_| {
        let mut rd = Rd::new(&[0, 0, 1, 0, 1, 0x61]);
        if let Ok(mut p) = <MapCp as ReadWrite>::read_from(&mut rd) {
            assert_eq!(rd.n, 2);
            for i in 0..=65535 {
                assert!(p.read_raw(i).is_none());
            }
        }
    });
    let big: Vec<(usize, usize)> = vec![(65534, 0), (65533, 0), (65532, 1), (0, 32767), (1, 32766), (2, 32766), (65000, 267), (40000, 12000), (65533, 1), (1, 32767), (32767, 0), (32768, 0), (255, 0), (256, 0), (30, 200)];
    cx.each("large pools", &big, |(a, b)| {
        let mut v: Vec<RawConstantEntry> = (0..*a).map(|i| RawConstantEntry::Int(i as i32)).collect();
        v.extend((0..*b).map(|i| RawConstantEntry::Long(i as i64)));
        let over = a + 2 * b + 1 > 65535;
        run(&v, over, &[3, 0, 0, 0, 9]);
    });
    let n = cx.scale(40_000, 1_000_000);
    cx.random("written and read back", n, |r| {
        let mut cp = VecCp::new();
        let v: Vec<_> = (0..r.below(30))
            .map(|_| {
                let e = raw_entry(r);
                let i = cp.insert_raw(e.clone());
                (e, i)
            })
            .collect();
        note(format!("{v:?}"));
        let mut o = vec![];
        ReadWrite::write_to(&cp, &mut o).unwrap();
        let mut rd = Rd::new(&o);
        let mut p = <MapCp as ReadWrite>::read_from(&mut rd).expect("a written pool is read");
        assert_eq!(rd.n, o.len(), "bytes consumed");
        for (e, i) in &v {
            assert_eq!(p.read_raw(*i).map(|e| key(&e)), Some(key(e)), "index {i}");
        }
    });
}
