//! C15: exception, line and variable tables stay attached to their instructions.
use crate::core::*;
use coffer::prelude::*;

pub const HARNESSES: &[Harness] = &[];

#[cfg(not(kani))]
pub fn native(cx: &mut crate::native::Cx) {
    use crate::bytecode::*;
    use crate::classfile::build_code;
    use crate::gen2::*;
    use crate::native::note;
    use crate::spec::*;
    use coffer::annotation::*;
    use Instruction as I;
    fn brief(c: &Code) -> String {
        if c.code.len() > 200 {
            format!("{} instructions, {:?} {:?}", c.code.len(), c.catches, c.attrs)
        } else {
            format!("{c:?}")
        }
    }
    /// A pool to read from with what was written to the other.
    fn reading(p: &RecPool) -> SpecPool {
        let mut s = SpecPool::new(1);
        s.entries = p.entries.clone();
        s.bsms = p.bsms.iter().map(k_bsm).collect();
        s
    }
    fn written(c: &Code) {
        note(brief(c));
        let mut p = RecPool::new(1);
        let mut o = vec![];
        c.write_to(&mut p, &mut o).unwrap_or_else(|e| panic!("not written: {e}"));
        check_code(c, &o, &p).unwrap_or_else(|e| panic!("written: {e}"));
        let mut rd = Rd::new(&o);
        let v = Code::read_from(&mut reading(&p), &mut rd).unwrap_or_else(|e| panic!("written code is not read: {e}"));
        assert_eq!(rd.n, o.len());
        check_code(&v, &o, &p).unwrap_or_else(|e| panic!("read back as {v:?}: {e}"));
        // and once more
        let mut p2 = RecPool::new(77);
        let mut o2 = vec![];
        v.write_to(&mut p2, &mut o2).unwrap_or_else(|e| panic!("not written again: {e}"));
        check_code(&v, &o2, &p2).unwrap_or_else(|e| panic!("written again: {e}"));
    }
    let n = cx.scale(50_000, 1_500_000);
    cx.random("written and read back", n, |r| {
        let c = code(r, &Opts { max: 16, branches: true, tables: true, far: 0, lines: true });
        written(&c);
    });
    let n = cx.scale(400, 20_000);
    cx.random("tables of long code", n, |r| {
        let far = *r.pick(&[300, 33000, 40000]);
        let c = code(r, &Opts { max: 8, branches: true, tables: true, far, lines: true });
        if c.code.len() < 60000 {
            written(&c);
        }
    });
    let n = cx.scale(40_000, 1_500_000);
    cx.random("specified bytes", n, |r| {
        let c = code(r, &Opts { max: 16, branches: true, tables: true, far: 0, lines: true });
        let mut p = SpecPool::new(*r.pick(&[1, 200, 250]));
        let b = build_code(&c, &mut p, r.next());
        note(format!("{c:?} {b:02x?}"));
        let mut rd = Rd::new(&b);
        let v = Code::read_from(&mut p.clone(), &mut rd).unwrap_or_else(|e| panic!("not read: {e}"));
        assert_eq!(rd.n, b.len());
        check_code(&v, &b, &p).unwrap_or_else(|e| panic!("read as {v:?}: {e}"));
    });
    // references to labels that are not there
    fn refs(c: &Code) -> Vec<Label> {
        let mut v = vec![];
        for i in &c.code {
            match i {
                I::Jump(_, l) | I::Jsr(l) => v.push(*l),
                I::TableSwitch { default, offsets, .. } => {
                    v.push(*default);
                    v.extend(offsets);
                }
                I::LookupSwitch { default, table } => {
                    v.push(*default);
                    v.extend(table.values());
                }
                _ => {}
            }
        }
        for c in &c.catches {
            v.extend([c.start, c.end, c.handler]);
        }
        for a in &c.attrs {
            match a {
                CodeAttribute::LocalVariables(l) => l.iter().for_each(|l| v.extend([l.start, l.end])),
                CodeAttribute::VisibleTypeAnnotations(l) | CodeAttribute::InvisibleTypeAnnotations(l) => {
                    use CodeTypeAnnotationTarget as T;
                    for a in l {
                        match &a.target {
                            T::LocalVariable(x) | T::ResourceVariable(x) => x.iter().for_each(|x| v.extend([x.start, x.end])),
                            T::CatchParameter(_) => {}
                            T::InstanceOf(l) | T::Constructor(l) | T::ConstructorRef(l) | T::MethodRef(l) => v.push(*l),
                            T::Cast(l, _) | T::GenericConstructor(l, _) | T::GenericMethod(l, _) | T::GenericConstructorRef(l, _) | T::GenericMethodRef(l, _) => v.push(*l),
                        }
                    }
                }
                _ => {}
            }
        }
        v
    }
    let n = cx.scale(40_000, 1_000_000);
    cx.random("labels that do not exist", n, |r| {
        let mut c = code(r, &Opts { max: 8, branches: true, tables: true, far: 0, lines: true });
        let v = refs(&c);
        if v.is_empty() {
            return;
        }
        let gone = *r.pick(&v);
        c.code.retain(|i| *i != I::Label(gone));
        note(format!("{gone:?} removed from {c:?}"));
        assert!(c.write_to(&mut RecPool::new(1), &mut vec![]).is_err(), "a reference to {gone:?}, which is nowhere, is written");
    });
    // references to exception ranges that are not there, and reversed ranges
    cx.random("ranges that do not exist", n / 8, |r| {
        let mut c = code(r, &Opts { max: 8, branches: false, tables: false, far: 0, lines: false });
        c.code.insert(0, I::Label(Label(70)));
        c.code.push(I::NoOp);
        c.code.push(I::Label(Label(71)));
        let k = Catch { start: Label(70), end: Label(71), handler: Label(70), catch: None };
        let other = Catch { catch: Some(cow(b"x")), ..k.clone() };
        let a = |t| CodeAttribute::VisibleTypeAnnotations(vec![CodeTypeAnnotation { target: t, type_path: vec![], annotation_type: Type::Int, element_values: Default::default() }]);
        c.catches = vec![k.clone()];
        c.attrs = vec![a(CodeTypeAnnotationTarget::CatchParameter(k.clone()))];
        written(&c);
        c.attrs = vec![a(CodeTypeAnnotationTarget::CatchParameter(other))];
        note(format!("{c:?}"));
        assert!(c.write_to(&mut RecPool::new(1), &mut vec![]).is_err(), "an annotation of a missing exception range is written");
        let lv = LocalVariable { start: Label(71), end: Label(70), name: cow(b"v"), descriptor: Some(Type::Int), signature: None, index: 1 };
        c.attrs = vec![CodeAttribute::LocalVariables(vec![lv])];
        assert!(c.write_to(&mut RecPool::new(1), &mut vec![]).is_err(), "a reversed variable range is written");
        c.attrs = vec![a(CodeTypeAnnotationTarget::LocalVariable(vec![LocalVarTarget { start: Label(71), end: Label(70), idx: 1 }]))];
        assert!(c.write_to(&mut RecPool::new(1), &mut vec![]).is_err(), "a reversed annotation range is written");
    });
    // positions within instructions and behind the code
    // sipush, nop, wide iload, tableswitch (at 8), return
    let body: Vec<u8> = vec![0x11, 1, 2, 0, 0xC4, 0x15, 1, 0, 0xAA, 0, 0, 0, 0, 0, 0, 24, 0, 0, 0, 5, 0, 0, 0, 5, 0, 0, 0, 24, 0, 0, 0, 0, 0xB1];
    let len = body.len();
    let starts = [0usize, 3, 4, 8, 28, 29, 30, 31, 32];
    let cases: Vec<(usize, usize)> = (0..=len + 4).flat_map(|p| (0..13).map(move |k| (p, k))).chain((0..13).flat_map(|k| [(65535, k), (32768, k), (40000, k)])).collect();
    cx.each("positions that are no boundary", &cases, |(at, kind)| {
        use Tok as _;
        let at = *at as u16;
        let is_start = starts.contains(&(at as usize));
        let ok = is_start || at as usize == len;
        let t = Toks::new().u16(1).u16(1).u32(len as u32).b(&body);
        let none = || Toks::new().u16(0);
        let one = |name: &str, body: Toks| Toks::new().u16(1).attr(name, body);
        let utf = |s: &str| Konst::Utf8(s.as_bytes().to_vec());
        let ann = || Toks::new().u8(0).k(utf("I")).u16(0);
        let (spec, may_end) = match kind {
            0 => (t.u16(1).u16(at).u16(len as u16).u16(0).u16(0).then(none()), true),
            1 => (t.u16(1).u16(0).u16(at).u16(0).u16(0).then(none()), true),
            2 => (t.u16(1).u16(0).u16(3).u16(at).u16(0).then(none()), true),
            3 => (t.u16(0).then(one("LineNumberTable", Toks::new().u16(1).u16(at).u16(7))), true),
            4 => (t.u16(0).then(one("LocalVariableTable", Toks::new().u16(1).u16(at).u16(0).k(utf("n")).k(utf("I")).u16(0))), true),
            5 => (t.u16(0).then(one("LocalVariableTable", Toks::new().u16(1).u16(0).u16(at).k(utf("n")).k(utf("I")).u16(0))), true),
            6 => (t.u16(0).then(one("LocalVariableTypeTable", Toks::new().u16(1).u16(at).u16(0).k(utf("n")).k(utf("TX;")).u16(0))), true),
            7 => (t.u16(0).then(one("LocalVariableTypeTable", Toks::new().u16(1).u16(0).u16(at).k(utf("n")).k(utf("TX;")).u16(0))), true),
            8 => (t.u16(0).then(one("RuntimeVisibleTypeAnnotations", Toks::new().u16(1).u8(0x43).u16(at).then(ann()))), true),
            9 => (t.u16(0).then(one("RuntimeInvisibleTypeAnnotations", Toks::new().u16(1).u8(0x47).u16(at).u8(1).then(ann()))), true),
            10 => (t.u16(0).then(one("RuntimeVisibleTypeAnnotations", Toks::new().u16(1).u8(0x40).u16(1).u16(at).u16(0).u16(0).then(ann()))), true),
            11 => (t.u16(0).then(one("RuntimeVisibleTypeAnnotations", Toks::new().u16(1).u8(0x41).u16(1).u16(0).u16(at).u16(0).then(ann()))), true),
            _ => (t.u16(0).then(one("RuntimeVisibleTypeAnnotations", Toks::new().u16(1).u8(0x41).u16(1).u16(4).u16(at).u16(0).then(ann()))), true),
        };
        let ok = if *kind == 12 { starts.contains(&(at as usize + 4)) || at as usize + 4 == len } else { ok && (may_end || is_start) };
        let mut p = SpecPool::new(1);
        let mut b = vec![];
        spec.build(&mut p, &mut b);
        match Code::read_from(&mut p.clone(), &mut Rd::new(&b)) {
            Ok(v) => {
                assert!(ok, "position {at} (kind {kind}) is no boundary, but is read as {v:?}");
                check_code(&v, &b, &p).unwrap_or_else(|e| panic!("position {at} (kind {kind}): {e}"));
            }
            // what ends at the end may be refused where only instructions may stand
            Err(e) => assert!(!ok, "position {at} (kind {kind}): {e}"),
        }
    });
}
