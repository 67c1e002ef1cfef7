//! C17: attributes are framed exactly; unknown ones are kept verbatim.
use crate::core::*;
use coffer::prelude::*;

pub const HARNESSES: &[Harness] = &[];

#[cfg(not(kani))]
pub fn native(cx: &mut crate::native::Cx) {
    use crate::bytecode::*;
    use crate::classfile::*;
    use crate::gen2::*;
    use crate::native::note;
    use crate::spec::*;
    use std::fmt::Debug;
    type RW<T> = fn(&mut SpecPool, &mut Rd) -> coffer::Result<T>;
    fn rd<T: ConstantPoolReadWrite>(p: &mut SpecPool, r: &mut Rd) -> coffer::Result<T> {
        T::read_from(p, r)
    }
    /// A declared length that is not the body's is an error; a body cut or padded is as well.
    fn lengths<T: Debug>(t: &Toks, read: RW<T>) {
        let mut p = SpecPool::new(9);
        let mut b = vec![];
        t.build(&mut p, &mut b);
        let len = u32::from_be_bytes(b[2..6].try_into().unwrap());
        let mut try_len = |l: u32| {
            let mut c = b.clone();
            c[2..6].copy_from_slice(&l.to_be_bytes());
            let full = 6 + l as usize;
            for tail in [full.max(b.len()), full.max(b.len()) + 16] {
                let mut c = c.clone();
                c.resize(tail, 0);
                let r = read(&mut p.clone(), &mut Rd::new(&c));
                assert!(r.is_err(), "the body has {len} bytes, declared are {l}: read as {r:?}");
            }
        };
        for d in [1, 2, 3, 4, 8, 64] {
            try_len(len + d);
            if len >= d {
                try_len(len - d);
            }
        }
        if len > 0 {
            try_len(0);
        }
        // more than there is
        for l in [len + 1, u32::MAX, 0x7fff_ffff, 0x8000_0000] {
            let mut c = b.clone();
            c[2..6].copy_from_slice(&l.to_be_bytes());
            let r = read(&mut p.clone(), &mut Rd::new(&c));
            assert!(r.is_err(), "the body has {len} bytes, declared are {l} with nothing behind it: read as {r:?}");
        }
    }
    let n = cx.scale(24_000, 600_000);
    cx.random("field attributes", n, |r| {
        let a = field_attr(r);
        note(format!("{a:?}"));
        let t = t_field_attr(&a);
        roundtrip(&a, &t, *r.pick(&[1, 250, 300]), &[]);
        if !matches!(a, FieldAttribute::Raw(_)) {
            lengths::<FieldAttribute>(&t, rd);
        }
    });
    cx.random("method attributes", n, |r| {
        let a = method_attr(r);
        note(format!("{a:?}"));
        let t = t_method_attr(&a);
        roundtrip(&a, &t, *r.pick(&[1, 250, 300]), &[]);
        if !matches!(a, MethodAttribute::Raw(_)) {
            lengths::<MethodAttribute>(&t, rd);
        }
    });
    cx.random("class attributes", n, |r| {
        let a = class_attr(r);
        note(format!("{a:?}"));
        let t = t_class_attr(&a);
        roundtrip(&a, &t, *r.pick(&[1, 250, 300]), &[]);
        if !matches!(a, ClassAttribute::Raw(_) | ClassAttribute::SourceDebugExtension(_)) {
            lengths::<ClassAttribute>(&t, rd);
        }
    });
    cx.random("bootstrap methods", n / 8, |r| {
        let k = r.below(4);
        let a = ClassAttribute::BootstrapMethods((0..k).map(|_| crate::gen::bsm(r, 2)).collect());
        note(format!("{a:?}"));
        let t = t_class_attr(&a);
        roundtrip(&a, &t, *r.pick(&[1, 250, 300]), &[]);
        lengths::<ClassAttribute>(&t, rd);
    });
    let n = cx.scale(12_000, 400_000);
    cx.random("code", n, |r| {
        let c = code(r, &Opts { max: 10, branches: true, tables: true, far: 0, lines: true });
        note(format!("{c:?}"));
        let a = MethodAttribute::Code(c);
        let t = t_method_attr(&a);
        // written
        let mut p = RecPool::new(3);
        let mut o = vec![];
        a.write_to(&mut p, &mut o).unwrap_or_else(|e| panic!("not written: {e}"));
        t.matches_all(&o, &p).unwrap_or_else(|e| panic!("written form: {e}"));
        // read, with something behind it
        let mut p = SpecPool::new(3);
        let mut b = vec![];
        t.build(&mut p, &mut b);
        let n = b.len();
        b.extend_from_slice(&[1, 2, 3, 4, 5, 6, 7, 8]);
        let mut rdr = Rd::new(&b);
        let v = MethodAttribute::read_from(&mut p.clone(), &mut rdr).unwrap_or_else(|e| panic!("not read: {e}"));
        assert_eq!(rdr.n, n, "bytes consumed");
        t_method_attr(&v).matches_all(&b[..n], &p).unwrap_or_else(|e| panic!("read as {v:?}: {e}"));
        lengths::<MethodAttribute>(&t, rd);
    });
    // attributes of code
    let body = |attrs: &[u8]| {
        let mut b = vec![0, 2, 0, 9, 0, 0, 0, 4, 0, 0, 0, 0xB1, 0, 0, 0, 1];
        b.extend_from_slice(attrs);
        b
    };
    let ann = |r: &mut Rng| {
        let l = [Label(0)];
        let mut v = vec![];
        for _ in 0..r.below(3) {
            v.push(t_code_annot(&code_annot(r, &l, &[]), &|_| 1, &[]));
        }
        Toks::new().vec16(v)
    };
    let n = cx.scale(30_000, 800_000);
    cx.random("attributes within code", n, |r| {
        let rows = r.below(4);
        let vars = |r: &mut Rng, sig: bool| {
            Toks::new().vec16(
                (0..rows)
                    .map(|i| {
                        let s = r.below(4) as u16;
                        let e = s + r.below(5 - s as usize) as u16;
                        let ty = if sig { crate::gen::sig_text_field(&crate::gen::field_signature(r)) } else { descs(&crate::gen::field_type(r)) };
                        Toks::new().u16(s).u16(e - s).utf(&crate::gen::name(r)).k(Konst::Utf8(ty)).u16(i as u16)
                    })
                    .collect(),
            )
        };
        let t = match r.below(6) {
            0 => Toks::new().attr("LineNumberTable", Toks::new().vec16((0..rows).map(|_| Toks::new().u16(r.below(4) as u16).u16(r.u16())).collect())),
            1 => Toks::new().attr("LocalVariableTable", vars(r, false)),
            2 => Toks::new().attr("LocalVariableTypeTable", vars(r, true)),
            3 => Toks::new().attr("RuntimeVisibleTypeAnnotations", ann(r)),
            4 => Toks::new().attr("RuntimeInvisibleTypeAnnotations", ann(r)),
            // nothing changes the frame: same_frame 1
            _ => Toks::new().attr("StackMapTable", Toks::new().vec16((0..rows).map(|_| Toks::new().u8(0)).collect())),
        };
        let mut p = SpecPool::new(200);
        let mut b = vec![];
        t.build(&mut p, &mut b);
        let whole = body(&b);
        note(format!("{t:?}"));
        let mut rdr = Rd::new(&whole);
        Code::read_from(&mut p.clone(), &mut rdr).unwrap_or_else(|e| panic!("not read: {e}"));
        assert_eq!(rdr.n, whole.len());
        let len = u32::from_be_bytes(b[2..6].try_into().unwrap());
        for l in [len.wrapping_sub(1), len.wrapping_sub(2), len + 1, len + 2, len + 8, 0, u32::MAX] {
            if l == len {
                continue;
            }
            let mut c = b.clone();
            c[2..6].copy_from_slice(&l.to_be_bytes());
            for pad in [0usize, 1, 2, 8, 40] {
                c.resize(b.len() + pad, 0);
                let r = Code::read_from(&mut p.clone(), &mut Rd::new(&body(&c)));
                assert!(r.is_err(), "the body has {len} bytes, declared are {l}: read as {r:?}");
            }
        }
    });
    // names that mean nothing in that place
    let all: &[&str] = &[
        "ConstantValue", "Code", "StackMapTable", "Exceptions", "InnerClasses", "EnclosingMethod", "Synthetic", "Signature", "SourceFile", "SourceDebugExtension", "LineNumberTable",
        "LocalVariableTable", "LocalVariableTypeTable", "Deprecated", "RuntimeVisibleAnnotations", "RuntimeInvisibleAnnotations", "RuntimeVisibleParameterAnnotations",
        "RuntimeInvisibleParameterAnnotations", "RuntimeVisibleTypeAnnotations", "RuntimeInvisibleTypeAnnotations", "AnnotationDefault", "BootstrapMethods", "MethodParameters", "Module",
        "ModulePackages", "ModuleMainClass", "NestHost", "NestMembers", "Record", "PermittedSubclasses", "LoadableDescriptors", "",
    ];
    fn known(place: usize, n: &[u8]) -> bool {
        let n = match std::str::from_utf8(n) {
            Ok(n) => n,
            Err(_) => return false,
        };
        let ann = matches!(n, "RuntimeVisibleTypeAnnotations" | "RuntimeInvisibleTypeAnnotations");
        let plain = matches!(n, "Synthetic" | "Deprecated" | "Signature" | "RuntimeVisibleAnnotations" | "RuntimeInvisibleAnnotations");
        match place {
            0 => ann || plain || n == "ConstantValue",
            1 => ann || plain || matches!(n, "Code" | "Exceptions" | "RuntimeVisibleParameterAnnotations" | "RuntimeInvisibleParameterAnnotations" | "AnnotationDefault" | "MethodParameters"),
            2 => {
                ann || plain
                    || matches!(n, "SourceFile" | "InnerClasses" | "EnclosingMethod" | "SourceDebugExtension" | "BootstrapMethods" | "Module" | "ModulePackages" | "ModuleMainClass" | "NestHost" | "NestMembers")
            }
            _ => ann || matches!(n, "LineNumberTable" | "LocalVariableTable" | "LocalVariableTypeTable" | "StackMapTable"),
        }
    }
    let n = cx.scale(60_000, 1_500_000);
    cx.random("unknown attributes", n, |r| {
        let mut name = r.pick(all).as_bytes().to_vec();
        // nearly the same
        match r.below(8) {
            0 if !name.is_empty() => {
                let i = r.below(name.len());
                name[i] ^= 0x20;
            }
            1 => name.push(*r.pick(b"s 0\0")),
            2 if !name.is_empty() => {
                name.pop();
            }
            3 => name.insert(0, *r.pick(b" _A\0")),
            4 if !name.is_empty() => {
                name.remove(0);
            }
            5 if !name.is_empty() => {
                let i = r.below(name.len());
                name[i] = 0;
            }
            6 => name = crate::gen::wtf8(r, 6),
            _ => {}
        }
        let place = r.below(4);
        if known(place, &name) {
            return;
        }
        let k = if r.chance(1, 50) { r.below(70_000) } else { r.below(12) };
        let bytes: Bs = (0..k).map(|_| r.u8()).collect();
        let raw = RawAttribute { name: cow(&name), inner: std::borrow::Cow::Owned(bytes.clone()) };
        note(format!("{place} {:?} with {k} bytes", raw.name));
        let t = Toks::new().utf(&raw.name).len(Toks::new().b(&bytes));
        match place {
            0 => roundtrip(&FieldAttribute::Raw(raw), &t, 5, &[]),
            1 => roundtrip(&MethodAttribute::Raw(raw), &t, 5, &[]),
            2 => roundtrip(&ClassAttribute::Raw(raw), &t, 5, &[]),
            _ => {
                let mut p = SpecPool::new(200);
                let mut b = vec![];
                t.build(&mut p, &mut b);
                let whole = body(&b);
                let c = Code::read_from(&mut p.clone(), &mut Rd::new(&whole)).unwrap_or_else(|e| panic!("not read: {e}"));
                assert_eq!(c.attrs, vec![CodeAttribute::Raw(raw)]);
                let mut q = RecPool::new(1);
                let mut o = vec![];
                c.write_to(&mut q, &mut o).unwrap();
                Toks::new().b(&whole[..16]).then(t).matches_all(&o, &q).unwrap_or_else(|e| panic!("written back: {e}"));
            }
        }
    });
}
