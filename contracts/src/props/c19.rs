//! C19: dynamic constants stay linked to their bootstrap methods.
use crate::core::*;
use coffer::prelude::*;

pub const HARNESSES: &[Harness] = &[];

#[cfg(not(kani))]
pub fn native(cx: &mut crate::native::Cx) {
    use crate::classfile::*;
    use crate::gen;
    use crate::gen2::*;
    use crate::native::note;
    use crate::spec::*;
    use coffer::clazz::Class;
    fn out(c: &Class) -> coffer::Result<Bs> {
        let mut o = vec![];
        c.write_to(&mut o)?;
        Ok(o)
    }
    fn small() -> Class {
        Class { version: version(&mut Rng::new(3)), access: ClassFlags::empty(), name: cow(b"a"), super_name: None, interfaces: vec![], fields: vec![], methods: vec![], attributes: vec![] }
    }
    fn method(code: Vec<Instruction>) -> Method {
        Method { access: MethodFlags::empty(), name: cow(b"m"), descriptor: Type::method(vec![], None), attributes: vec![MethodAttribute::Code(Code { max_stack: 1, max_locals: 2, code, catches: vec![], attrs: vec![] })] }
    }
    let n = cx.scale(30_000, 800_000);
    cx.random("written and read back", n, |r| {
        let mut c = small();
        let depth = 1 + r.below(4);
        // used more than once
        let some: Vec<BootstrapMethod> = (0..1 + r.below(3)).map(|_| gen::bsm(r, depth)).collect();
        let mut dynamic = |r: &mut Rng, m: bool| {
            if r.chance(1, 3) {
                gen::dynamic(r, depth, m)
            } else {
                let b = r.pick(&some).clone();
                Dynamic::new(b, gen::name(r), if m { gen::method_type(r) } else { gen::field_type(r) })
            }
        };
        for _ in 0..1 + r.below(2) {
            let k = r.below(5);
            let v = (0..k)
                .map(|_| match r.below(3) {
                    0 => Instruction::InvokeDynamic(dynamic(r, true)),
                    1 => Instruction::Push(OrDynamic::Dynamic(dynamic(r, false))),
                    _ => Instruction::New(OrDynamic::Static(gen::name(r))),
                })
                .collect();
            c.methods.push(method(v));
        }
        for _ in 0..r.below(3) {
            c.attributes.push(ClassAttribute::Deprecated);
        }
        if r.chance(1, 3) {
            let mut v: Vec<BootstrapMethod> = vec![];
            for b in some.iter().cloned().chain((0..r.below(3)).map(|_| gen::bsm(r, 2)).collect::<Vec<_>>()) {
                if !v.contains(&b) && r.chance(2, 3) {
                    v.push(b);
                }
            }
            let at = r.below(c.attributes.len() + 1);
            c.attributes.insert(at, ClassAttribute::BootstrapMethods(v));
        }
        note(format!("{c:?}"));
        let o = out(&c).unwrap_or_else(|e| panic!("not written: {e}"));
        check_file(&c, &o, true).unwrap_or_else(|e| panic!("written: {e}"));
        let v = Class::read_from(&mut Rd::new(&o)).unwrap_or_else(|e| panic!("what was written is not read: {e}"));
        check_file(&v, &o, false).unwrap_or_else(|e| panic!("read back as {v:?}: {e}"));
        let want: Vec<_> = c.methods.iter().map(|m| m.attributes.clone()).collect();
        let got: Vec<_> = v.methods.iter().map(|m| m.attributes.clone()).collect();
        assert_eq!(want, got, "read back");
    });
    // tables built by hand: slots, their arguments, the users
    struct Hand {
        p: SpecPool,
        nt: [u16; 3],
        table: Option<Vec<(u16, Vec<u16>)>>,
        code: Bs,
    }
    impl Hand {
        fn put(&mut self, e: RawConstantEntry) -> u16 {
            let i = self.p.next as u16;
            self.p.next += if matches!(e, RawConstantEntry::Long(_) | RawConstantEntry::Double(_)) { 2 } else { 1 };
            self.p.entries.insert(i, e);
            i
        }
        fn dynamic(&mut self, slot: u16, ty: usize) -> u16 {
            let nt = self.nt[ty];
            self.put(RawConstantEntry::Dynamic(slot, nt))
        }
        fn file(mut self, before: bool) -> Bs {
            let mut head = vec![];
            Toks::new().u16(0).class(&cow(b"a")).u16(0).u16(0).u16(0).u16(1).u16(0).k(Konst::Utf8(b"m".to_vec())).k(Konst::Utf8(b"()V".to_vec())).u16(1).build(&mut self.p, &mut head);
            let code = Toks::new().u16(1).u16(2).u32(self.code.len() as u32).b(&self.code).u16(0).u16(0);
            Toks::new().attr("Code", code).build(&mut self.p, &mut head);
            let mut at = vec![Toks::new().attr("Deprecated", Toks::new())];
            if let Some(t) = &self.table {
                let t = Toks::new().attr("BootstrapMethods", Toks::new().vec16(t.iter().map(|(h, a)| Toks::new().u16(*h).vec16(a.iter().map(|a| Toks::new().u16(*a)).collect())).collect()));
                at.insert(if before { 0 } else { 1 }, t);
            }
            Toks::new().vec16(at).build(&mut self.p, &mut head);
            let mut o = 0xCAFE_BABEu32.to_be_bytes().to_vec();
            o.extend_from_slice(&[0, 0, 0, 55]);
            o.extend_from_slice(&self.p.bytes());
            o.extend_from_slice(&head);
            o
        }
    }
    let hand = || {
        let mut p = SpecPool::new(1);
        let nt = [b"I".as_ref(), b"J", b"()I"].map(|t| p.add(&Konst::NameType(b"n".to_vec(), t.to_vec())));
        Hand { p, nt, table: None, code: vec![] }
    };
    let n = cx.scale(60_000, 1_500_000);
    cx.random("tables", n, |r| {
        let mut h = hand();
        let k = r.below(6);
        let wild = r.chance(1, 3);
        // slots in an order that arguments respect, unless anything goes
        let mut order: Vec<u16> = (0..k as u16).collect();
        for i in (1..k).rev() {
            order.swap(i, r.below(i + 1));
        }
        let mut edges: Vec<(u16, u16)> = vec![];
        let mut table = vec![(0, vec![]); k];
        let mut used: Vec<u16> = vec![];
        for (i, s) in order.iter().enumerate() {
            let m = Konst::Method(b"c".to_vec(), format!("b{}", r.below(3)).into_bytes(), b"()V".to_vec());
            let hd = h.p.add(&Konst::Handle(6, Box::new(m)));
            let n = r.below(4);
            let mut args = vec![];
            for _ in 0..n {
                args.push(if r.chance(1, 2) {
                    h.p.add(&Konst::Int(r.below(9) as i32))
                } else {
                    let to = if wild {
                        r.below(k + 1) as u16
                    } else if i > 0 {
                        order[r.below(i)]
                    } else {
                        args.push(h.p.add(&Konst::Long(7)));
                        continue;
                    };
                    edges.push((*s, to));
                    used.push(to);
                    h.dynamic(to, 0)
                });
            }
            table[*s as usize] = (hd, args);
        }
        for _ in 0..r.below(4) {
            let to = if r.chance(1, 6) { *r.pick(&[k as u16, 6, 7, 255, 256, 65535]) } else { r.below(k.max(1)) as u16 };
            used.push(to);
            let (op, i, tail): (u8, u16, &[u8]) = match r.below(3) {
                0 => (0x13, h.dynamic(to, 0), &[]),
                1 => (0x14, h.dynamic(to, 1), &[]),
                _ => {
                    let nt = h.nt[2];
                    (0xBA, h.put(RawConstantEntry::InvokeDynamic(to, nt)), &[0, 0])
                }
            };
            h.code.push(op);
            h.code.extend_from_slice(&i.to_be_bytes());
            h.code.extend_from_slice(tail);
        }
        h.code.push(0xB1);
        let with = r.chance(5, 6);
        if with {
            h.table = Some(table);
        } else {
            used.retain(|_| true);
        }
        let slots = if with { k as u16 } else { 0 };
        // without the table its arguments are not there either
        let code_users: Vec<u16> = used[edges.len()..].to_vec();
        let missing = if with { used.iter().any(|u| *u >= slots) } else { !code_users.is_empty() };
        let mut reach: Vec<Vec<bool>> = vec![vec![false; k + 1]; k + 1];
        for (a, b) in &edges {
            reach[*a as usize][*b as usize] = true;
        }
        for m in 0..k {
            for a in 0..k {
                for b in 0..k {
                    reach[a][b] |= reach[a][m] && reach[m][b];
                }
            }
        }
        let cyclic = with && (0..k).any(|i| reach[i][i]);
        let b = h.file(r.chance(1, 2));
        note(format!("{k} slots, table {with}, arguments {edges:?}, used {code_users:?}: {b:02x?}"));
        let v = Class::read_from(&mut Rd::new(&b));
        if missing || cyclic {
            assert!(v.is_err(), "missing: {missing}, cyclic: {cyclic}, read as {v:?}");
        } else {
            let v = v.unwrap_or_else(|e| panic!("not read: {e}"));
            check_file(&v, &b, false).unwrap_or_else(|e| panic!("read as {v:?}: {e}"));
            let o = out(&v).unwrap_or_else(|e| panic!("not written back: {e}"));
            check_file(&v, &o, true).unwrap_or_else(|e| panic!("written back: {e}"));
        }
    });
    // a reference to any slot
    let slots: Vec<(u16, u16)> = (0..5u16).flat_map(|k| (0..=65535u16).map(move |s| (k, s))).collect();
    cx.each("every slot", &slots, |(k, s)| {
        let mut h = hand();
        let t: Vec<(u16, Vec<u16>)> = (0..*k)
            .map(|i| {
                let m = Konst::Method(b"c".to_vec(), vec![b'a' + i as u8], b"()V".to_vec());
                (h.p.add(&Konst::Handle(6, Box::new(m))), vec![])
            })
            .collect();
        if *k > 0 {
            h.table = Some(t);
        }
        let i = h.dynamic(*s, 0);
        h.code = vec![0x12, i as u8];
        let b = h.file(false);
        let v = Class::read_from(&mut Rd::new(&b));
        if s < k {
            check_file(&v.unwrap(), &b, false).unwrap();
        } else {
            assert!(v.is_err(), "slot {s} of {k} is read as {v:?}");
        }
    });
    // tables up to the limit
    cx.each("big tables", &[255usize, 256, 257, 1000, 65535, 65536, 66000], |n| {
        let h = MethodHandle { kind: MethodHandleKind::InvokeStatic, member: MemberRef { owner: cow(b"c"), name: cow(b"m"), descriptor: Type::method(vec![], None), itfs: false } };
        let mut c = small();
        let arg = |i: usize| OrDynamic::Static(Constant::I32(i as i32));
        let b: Vec<BootstrapMethod> = (0..*n).map(|i| BootstrapMethod { handle: h.clone(), arguments: vec![arg(i % 300), arg(i / 300)] }).collect();
        c.attributes.push(ClassAttribute::BootstrapMethods(b.clone()));
        let last = [0, 1, n / 2, n - 2, n - 1].map(|i| Instruction::InvokeDynamic(Dynamic::new(b[i].clone(), cow(b"x"), Type::method(vec![], None))));
        c.methods.push(method(last.to_vec()));
        let o = out(&c);
        if *n > 65535 {
            assert!(o.is_err(), "a table of {n} is written");
        } else {
            let o = o.unwrap();
            check_file(&c, &o, true).unwrap();
            let v = Class::read_from(&mut Rd::new(&o)).unwrap();
            assert!(v.methods == c.methods, "read back");
        }
    });
}
