//! C21: module descriptions round-trip with each name as its own kind.
use crate::core::*;
use coffer::prelude::*;

pub const HARNESSES: &[Harness] = &[];

#[cfg(not(kani))]
pub fn native(cx: &mut crate::native::Cx) {
    use crate::classfile::*;
    use crate::gen2::*;
    use crate::native::note;
    use crate::spec::*;
    fn kind(k: &Konst) -> u8 {
        match k {
            Konst::Module(_) => 19,
            Konst::Package(_) => 20,
            Konst::Class(_) => 7,
            Konst::Utf8(_) => 1,
            _ => 0,
        }
    }
    let n = cx.scale(40_000, 1_500_000);
    cx.random("modules", n, |r| {
        let m = module(r);
        note(format!("{m:?}"));
        roundtrip(&m, &t_module(&m), *r.pick(&[1, 200, 250, 300]), &[]);
        let a = match r.below(3) {
            0 => ClassAttribute::Module(m),
            1 => ClassAttribute::ModulePackages(m.uses),
            _ => ClassAttribute::ModuleMainClass(m.name),
        };
        roundtrip(&a, &t_class_attr(&a), *r.pick(&[1, 200, 250, 300]), &[]);
    });
    // one of the names as another kind, or nothing
    cx.random("wrong kinds", n, |r| {
        let m = module(r);
        let t = match r.below(4) {
            0 => t_class_attr(&ClassAttribute::ModulePackages(m.uses.clone())),
            1 => t_class_attr(&ClassAttribute::ModuleMainClass(m.name.clone())),
            _ => t_class_attr(&ClassAttribute::Module(m.clone())),
        };
        let body = match &t.0[1] {
            Tok::Len(b) => b.clone(),
            _ => unreachable!(),
        };
        let places: Vec<usize> = (0..body.0.len()).filter(|i| matches!(body.0[*i], Tok::K(_))).collect();
        if places.is_empty() {
            return;
        }
        let at = *r.pick(&places);
        let k = match &body.0[at] {
            Tok::K(k) => k.clone(),
            _ => unreachable!(),
        };
        let text = match &k {
            Konst::Module(t) | Konst::Package(t) | Konst::Class(t) | Konst::Utf8(t) => t.clone(),
            _ => unreachable!(),
        };
        let others = [Konst::Module(text.clone()), Konst::Package(text.clone()), Konst::Class(text.clone()), Konst::Utf8(text.clone()), Konst::Str(text.clone()), Konst::Int(3), Konst::MType(b"()V".to_vec()), Konst::NameType(text.clone(), b"I".to_vec())];
        let o = r.pick(&others).clone();
        if kind(&o) == kind(&k) {
            return;
        }
        let nothing = r.chance(1, 5);
        let mut p = SpecPool::new(5);
        let mut b = body.clone();
        b.0[at] = if nothing && kind(&k) != 1 { Tok::B(r.pick(&[[0, 0], [0, 1], [255, 255]]).to_vec()) } else { Tok::K(o.clone()) };
        let t = Toks(vec![t.0[0].clone(), Tok::Len(b)]);
        let mut bytes = vec![];
        t.build(&mut p, &mut bytes);
        note(format!("{k:?} at {at} of {body:?} is {o:?} ({nothing})"));
        let v = ClassAttribute::read_from(&mut p, &mut Rd::new(&bytes));
        assert!(v.is_err(), "read as {v:?}");
    });
    // all flags of each kind
    cx.each("flags", &(0..=65535u16).collect::<Vec<_>>(), |f| {
        let mut p = SpecPool::new(5);
        let m = Konst::Module(b"m".to_vec());
        let k = Konst::Package(b"p".to_vec());
        let t = Toks::new().k(m.clone()).u16(*f).u16(0).u16(1).k(m.clone()).u16(*f).u16(0).u16(1).k(k.clone()).u16(*f).u16(0).u16(1).k(k).u16(*f).u16(0).u16(0).u16(0);
        let mut b = vec![];
        t.build(&mut p, &mut b);
        let v = Module::read_from(&mut p, &mut Rd::new(&b)).unwrap();
        assert_eq!(v.flags.bits(), f & 0x9020, "module flags {f:#x}");
        assert_eq!(v.requires[0].flags.bits(), f & 0x9060, "requires flags {f:#x}");
        assert_eq!(v.exports[0].flags.bits(), f & 0x9000, "exports flags {f:#x}");
        assert_eq!(v.opens[0].flags.bits(), f & 0x9000, "opens flags {f:#x}");
        roundtrip(&v, &t_module(&v), 1, &[]);
    });
    // long lists
    let cases: Vec<(usize, usize)> = (0..8).flat_map(|k| [255usize, 256, 65535, 65536].map(|n| (k, n))).collect();
    cx.each("long lists", &cases, |(k, n)| {
        let e = || cow(b"x");
        let mut m = Module { name: e(), flags: ModuleFlags::empty(), version: None, requires: vec![], exports: vec![], opens: vec![], uses: vec![], provides: vec![] };
        match k {
            0 => m.requires = vec![Require { module: e(), flags: RequireFlags::empty(), version: None }; *n],
            1 => m.exports = vec![Export { package: e(), flags: ExOpFlags::empty(), to: vec![] }; *n],
            2 => m.opens = vec![Open { package: e(), flags: ExOpFlags::empty(), to: vec![] }; *n],
            3 => m.uses = vec![e(); *n],
            4 => m.provides = vec![Provide { class: e(), with: vec![] }; *n],
            5 => m.exports = vec![Export { package: e(), flags: ExOpFlags::empty(), to: vec![e(); *n] }],
            6 => m.opens = vec![Open { package: e(), flags: ExOpFlags::empty(), to: vec![e(); *n] }],
            _ => m.provides = vec![Provide { class: e(), with: vec![e(); *n] }],
        }
        if *n <= 65535 {
            roundtrip(&m, &t_module(&m), 1, &[]);
        } else {
            assert!(m.write_to(&mut RecPool::new(1), &mut vec![]).is_err(), "a list of {n} is written");
        }
    });
}
