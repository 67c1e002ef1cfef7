//! C18: a class file written and read back is the same class.
use crate::core::*;
use coffer::prelude::*;

pub const HARNESSES: &[Harness] = &[];

#[cfg(not(kani))]
pub fn native(cx: &mut crate::native::Cx) {
    use crate::bytecode::*;
    use crate::classfile::*;
    use crate::gen2::*;
    use crate::native::note;
    use crate::spec::*;
    use coffer::clazz::Class;
    fn out(c: &Class) -> coffer::Result<Bs> {
        let mut o = vec![];
        c.write_to(&mut o)?;
        Ok(o)
    }
    /// Equal but for code, whose labels are renamed, which is compared through the bytes.
    fn same(a: &Class, b: &Class) -> bool {
        let m = |c: &Class| {
            c.methods
                .iter()
                .map(|m| {
                    let v: Vec<MethodAttribute> = m
                        .attributes
                        .iter()
                        .map(|a| match a {
                            MethodAttribute::Code(c) => MethodAttribute::Code(Code { max_stack: c.max_stack, max_locals: c.max_locals, code: vec![], catches: vec![], attrs: vec![] }),
                            a => a.clone(),
                        })
                        .collect();
                    (m.access, m.name.clone(), m.descriptor.clone(), v)
                })
                .collect::<Vec<_>>()
        };
        let at = |c: &Class| c.attributes.iter().filter(|a| !matches!(a, ClassAttribute::BootstrapMethods(_))).cloned().collect::<Vec<_>>();
        a.version == b.version && a.access == b.access && a.name == b.name && a.super_name == b.super_name && a.interfaces == b.interfaces && a.fields == b.fields && m(a) == m(b) && at(a) == at(b)
    }
    fn there(c: &Class) {
        let o = out(c).unwrap_or_else(|e| panic!("not written: {e}"));
        check_file(c, &o, true).unwrap_or_else(|e| panic!("written: {e}"));
        let mut b = o.clone();
        b.extend_from_slice(&[9, 9, 9]);
        let mut rd = Rd::new(&b);
        let v = Class::read_from(&mut rd).unwrap_or_else(|e| panic!("what was written is not read: {e}"));
        assert_eq!(rd.n, o.len(), "bytes consumed");
        check_file(&v, &o, false).unwrap_or_else(|e| panic!("read back as {v:?}: {e}"));
        assert!(same(c, &v), "read back as {v:?}");
        let o2 = out(&v).unwrap_or_else(|e| panic!("not written again: {e}"));
        check_file(&v, &o2, true).unwrap_or_else(|e| panic!("written again: {e}"));
    }
    let n = cx.scale(30_000, 800_000);
    cx.random("written and read back", n, |r| {
        let k = *r.pick(&[4, 12]);
        let c = class(r, k);
        note(format!("{c:?}"));
        there(&c);
    });
    cx.random("specified files", n, |r| {
        let c = class(r, 8);
        let b = build_file(&c, *r.pick(&[1, 2, 250, 300]), r.below(5));
        note(format!("{c:?}"));
        let mut rd = Rd::new(&b);
        let v = Class::read_from(&mut rd).unwrap_or_else(|e| panic!("not read: {e}"));
        assert_eq!(rd.n, b.len(), "bytes consumed");
        check_file(&v, &b, false).unwrap_or_else(|e| panic!("read as {v:?}: {e}"));
        assert!(same(&c, &v), "read as {v:?}");
    });
    // pools of many entries
    let n = cx.scale(60, 3000);
    cx.random("big classes", n, |r| {
        let mut c = class(r, 30);
        let k = *r.pick(&[100usize, 300, 2000]);
        c.fields.extend((0..k).map(|i| Field { access: FieldFlags::from_bits_truncate(i as u16), name: cow(format!("f{i}").as_bytes()), descriptor: crate::gen::field_type(r), attrs: vec![FieldAttribute::ConstantValue(crate::gen::number(r))] }));
        c.interfaces.extend((0..k / 4).map(|i| cow(format!("I{i}").as_bytes())));
        note(format!("{} fields and {:?}", c.fields.len(), c.methods));
        there(&c);
    });
    // lists at the limit of their counts, and beyond
    let small = Class { version: version(&mut Rng::new(3)), access: ClassFlags::empty(), name: cow(b"a"), super_name: None, interfaces: vec![], fields: vec![], methods: vec![], attributes: vec![] };
    let cases: Vec<(usize, usize)> = (0..5).flat_map(|k| [65534usize, 65535, 65536, 65537, 131072].map(|n| (k, n))).collect();
    cx.each("long lists", &cases, |(k, n)| {
        let mut c = small.clone();
        match k {
            0 => c.interfaces = vec![cow(b"a"); *n],
            1 => c.fields = vec![Field { access: FieldFlags::empty(), name: cow(b"a"), descriptor: Type::Int, attrs: vec![] }; *n],
            2 => c.methods = vec![Method { access: MethodFlags::empty(), name: cow(b"a"), descriptor: Type::method(vec![], None), attributes: vec![] }; *n],
            3 => c.attributes = vec![ClassAttribute::Deprecated; *n],
            _ => c.attributes = vec![ClassAttribute::NestMembers(vec![cow(b"a"); *n])],
        }
        if *n <= 65535 {
            there(&c);
        } else {
            assert!(out(&c).is_err(), "{n} items are counted with two bytes");
        }
    });
    // pools at the limit
    let cases: Vec<(usize, bool)> = vec![(65520, true), (65529, true), (65530, true), (65540, false), (70000, false), (131080, false)];
    cx.each("full pools", &cases, |(n, fits)| {
        let mut c = small.clone();
        // one name, one descriptor, one constant each, and the name of the attribute, the class and its name
        let cv = |i: usize| Field { access: FieldFlags::empty(), name: cow(b"a"), descriptor: Type::Int, attrs: vec![FieldAttribute::ConstantValue(Constant::I32(i as i32))] };
        c.fields = (0..*n.min(&65535)).map(cv).collect();
        if *n > 65535 {
            c.methods = (0..n - 65535)
                .map(|i| Method { access: MethodFlags::empty(), name: cow(format!("m{i}").as_bytes()), descriptor: Type::method(vec![], None), attributes: vec![] })
                .collect();
        }
        if *fits {
            there(&c);
        } else {
            assert!(out(&c).is_err(), "{n} constants are put into a pool");
        }
    });
    // magic and version
    let b = build_file(&small, 1, 0);
    let mut heads: Vec<(u32, u16, u16)> = vec![];
    for m in [0xCAFE_BABEu32, 0xCAFE_BABF, 0xCAFE_BABA, 0, 0xBEBA_FECA, 0xCAFE_D00D, 0xFFFF_FFFF, 0xCAFE_BBBE, 0xCBFE_BABE, 0xCAFF_BABE] {
        for minor in [0u16, 1, 3, 45, 52, 256, 65535] {
            for major in (0..=70u16).chain([128, 255, 256, 301, 0x3400, 45 << 8, 59 << 8, 65535, 65535 - 10]) {
                heads.push((m, minor, major));
            }
        }
    }
    for bit in 0..32 {
        heads.push((0xCAFE_BABE ^ (1 << bit), 0, 52));
    }
    for major in 0..=65535u16 {
        heads.push((0xCAFE_BABE, 0, major));
    }
    cx.each("magic and version", &heads, |(m, minor, major)| {
        let mut b = b.clone();
        b[..4].copy_from_slice(&m.to_be_bytes());
        b[4..6].copy_from_slice(&minor.to_be_bytes());
        b[6..8].copy_from_slice(&major.to_be_bytes());
        let v = Class::read_from(&mut Rd::new(&b));
        if *m == 0xCAFE_BABE && (45..=59).contains(major) {
            let v = v.unwrap_or_else(|e| panic!("not read: {e}"));
            assert_eq!((v.version.minor, v.version.major as u16), (*minor, *major));
            check_file(&v, &b, false).unwrap();
            assert_eq!(out(&v).unwrap()[..8], b[..8]);
        } else {
            assert!(v.is_err(), "read as {v:?}");
        }
    });
}
