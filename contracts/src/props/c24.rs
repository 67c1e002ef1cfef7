//! C24: malformed class files produce errors, never panics.
use crate::core::*;
use coffer::prelude::*;

pub const HARNESSES: &[Harness] = &[];

#[cfg(not(kani))]
pub fn native(cx: &mut crate::native::Cx) {
    use crate::alloc_count::take_biggest;
    use crate::classfile::*;
    use crate::gen2::*;
    use crate::native::note;
    use crate::spec::*;
    use coffer::annotation::*;
    use coffer::clazz::Class;
    /// Asks for at most this at once, for so many bytes of input: a list with a two-byte count
    /// may be reserved as a whole, an entry takes a few hundred bytes in memory.
    fn fair(asked: usize, len: usize) {
        assert!(asked <= (16 << 20).max(1024 * len), "asks for {asked} bytes at once to read {len}");
    }
    /// Reading does not panic (that fails the case), reads no more than there is, asks for no
    /// more memory than is fair, and what it gives can be written or is refused.
    fn file(b: &[u8]) -> bool {
        let mut rd = Rd::new(b);
        take_biggest();
        let v = Class::read_from(&mut rd);
        fair(take_biggest(), b.len());
        if let Ok(v) = v {
            let mut o = vec![];
            let _ = v.write_to(&mut o);
            true
        } else {
            false
        }
    }
    fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
        for _ in 0..1 + r.below(4) {
            if b.is_empty() {
                return;
            }
            let i = r.below(b.len());
            match r.below(9) {
                0 => b[i] ^= 1 << r.below(8),
                1 => b[i] = r.u8(),
                2 => b[i] = *r.pick(&[0, 1, 2, 127, 128, 255, 0xC4, 0xAA, 0xAB]),
                3 => {
                    let x = *r.pick(&[0u16, 1, 2, 255, 256, 32767, 32768, 65534, 65535]);
                    if i + 2 <= b.len() {
                        b[i..i + 2].copy_from_slice(&x.to_be_bytes());
                    }
                }
                4 => {
                    let x = *r.pick(&[0u32, 1, 0x7fff_ffff, 0x8000_0000, u32::MAX, 65535, 65536]);
                    if i + 4 <= b.len() {
                        b[i..i + 4].copy_from_slice(&x.to_be_bytes());
                    }
                }
                5 => {
                    b.remove(i);
                }
                6 => b.insert(i, r.u8()),
                7 => {
                    let j = i + r.below((b.len() - i).min(12) + 1);
                    let part = b[i..j].to_vec();
                    let at = r.below(b.len() + 1);
                    b.splice(at..at, part);
                }
                _ => {
                    // a number a little more or less
                    if i + 2 <= b.len() {
                        let x = u16::from_be_bytes([b[i], b[i + 1]]).wrapping_add(*r.pick(&[1u16, 65535, 2, 65534]));
                        b[i..i + 2].copy_from_slice(&x.to_be_bytes());
                    }
                }
            }
        }
    }
    let n = cx.scale(1_500, 60_000);
    cx.random("every truncation", n, |r| {
        let c = class(r, 8);
        let b = if r.chance(1, 2) {
            build_file(&c, *r.pick(&[1, 30]), r.below(4))
        } else {
            let mut o = vec![];
            c.write_to(&mut o).unwrap();
            o
        };
        note(format!("{b:02x?}"));
        assert!(file(&b), "the whole file is not read");
        for k in 0..b.len() {
            assert!(!file(&b[..k]), "the first {k} of {} bytes are read", b.len());
        }
    });
    let n = cx.scale(150_000, 4_000_000);
    cx.random("changed files", n, |r| {
        let c = class(r, 6);
        let mut b = build_file(&c, 1, r.below(4));
        for _ in 0..4 {
            mutate(r, &mut b);
            note(format!("{b:02x?}"));
            file(&b);
        }
    });
    // parts, with a pool that has something at every index
    fn pool(r: &mut Rng) -> SpecPool {
        let mut p = SpecPool::new(1);
        p.catches = vec![Catch { start: Label(0), end: Label(1), handler: Label(0), catch: None }];
        for t in ["I", "()V", "Ljava/lang/Object;", "V", "a", "[[J", "<T:Ljava/lang/Object;>()V"] {
            p.add(&Konst::Utf8(t.as_bytes().to_vec()));
        }
        for _ in 0..12 {
            let c = crate::gen::or_dynamic(r, 1);
            p.add(&k_or(&c));
        }
        p.add(&Konst::Module(b"m".to_vec()));
        p.add(&Konst::Package(b"p".to_vec()));
        p.add(&Konst::Class(b"c".to_vec()));
        for n in [
            "ConstantValue", "Code", "StackMapTable", "Exceptions", "InnerClasses", "EnclosingMethod", "Synthetic", "Signature", "SourceFile", "SourceDebugExtension", "LineNumberTable",
            "LocalVariableTable", "LocalVariableTypeTable", "Deprecated", "RuntimeVisibleAnnotations", "RuntimeInvisibleParameterAnnotations", "RuntimeVisibleTypeAnnotations", "AnnotationDefault",
            "BootstrapMethods", "MethodParameters", "Module", "ModulePackages", "ModuleMainClass", "NestHost", "NestMembers",
        ] {
            p.add(&Konst::Utf8(n.as_bytes().to_vec()));
        }
        p
    }
    fn part(k: usize, p: &SpecPool, b: &[u8]) {
        let mut p = p.clone();
        let mut rd = Rd::new(b);
        take_biggest();
        match k {
            0 => drop(FieldAttribute::read_from(&mut p, &mut rd)),
            1 => drop(MethodAttribute::read_from(&mut p, &mut rd)),
            2 => drop(ClassAttribute::read_from(&mut p, &mut rd)),
            3 => drop(Code::read_from(&mut p, &mut rd)),
            4 => drop(Module::read_from(&mut p, &mut rd)),
            5 => drop(AnnotationValue::read_from(&mut p, &mut rd)),
            6 => drop(Annotation::read_from(&mut p, &mut rd)),
            7 => drop(ClassTypeAnnotation::read_from(&mut p, &mut rd)),
            8 => drop(MethodTypeAnnotation::read_from(&mut p, &mut rd)),
            9 => drop(CodeTypeAnnotation::read_from(&mut p, &mut rd)),
            10 => drop(RawConstantEntry::read_from(&mut rd)),
            11 => drop(MapCp::read_from(&mut rd)),
            12 => drop(BootstrapMethod::read_from(&mut p, &mut rd)),
            13 => drop(Field::read_from(&mut p, &mut rd)),
            14 => drop(Method::read_from(&mut p, &mut rd)),
            15 => drop(InnerClass::read_from(&mut p, &mut rd)),
            16 => drop(RawFrame::read_from(&mut p, &mut rd)),
            17 => drop(JavaVersion::read_from(&mut rd)),
            _ => drop(FieldTypeAnnotation::read_from(&mut p, &mut rd)),
        }
        fair(take_biggest(), b.len());
    }
    let n = cx.scale(300_000, 8_000_000);
    cx.random("random parts", n, |r| {
        let p = pool(r);
        let len = *r.pick(&[0usize, 1, 2, 4, 8, 16, 32, 64]);
        let mut b: Bs = (0..len)
            .map(|_| match r.below(4) {
                0 => r.next() as u8,
                1 => r.below(4) as u8,
                _ => r.below(p.next as usize + 4) as u8,
            })
            .collect();
        let k = r.below(19);
        // counts that promise much
        if r.chance(1, 3) && len >= 4 {
            let i = r.below(len - 1);
            b[i] = 255;
            b[i + 1] = 255;
        }
        note(format!("{k} {b:02x?}"));
        part(k, &p, &b);
    });
    cx.random("changed parts", n / 3, |r| {
        let mut p = pool(r);
        let mut b = vec![];
        let k = match r.below(5) {
            0 => {
                t_field_attr(&field_attr(r)).build(&mut p, &mut b);
                0
            }
            1 => {
                t_method_attr(&method_attr(r)).build(&mut p, &mut b);
                1
            }
            2 => {
                t_class_attr(&class_attr(r)).build(&mut p, &mut b);
                2
            }
            3 => {
                let c = code(r, &Opts { max: 8, branches: true, tables: true, far: 0, lines: true });
                b = build_code(&c, &mut p, r.next());
                3
            }
            _ => {
                let c = code(r, &Opts { max: 6, branches: true, tables: true, far: 0, lines: true });
                t_method_attr(&MethodAttribute::Code(c)).build(&mut p, &mut b);
                1
            }
        };
        for _ in 0..3 {
            mutate(r, &mut b);
            note(format!("{k} {b:02x?}"));
            part(k, &p, &b);
        }
    });
    // code of random bytes
    cx.random("random code", n / 3, |r| {
        let p = pool(r);
        let len = 1 + r.below(24);
        let code: Bs = (0..len)
            .map(|_| match r.below(3) {
                0 => r.next() as u8,
                1 => r.below(6) as u8,
                _ => 0xA0 + r.below(0x30) as u8,
            })
            .collect();
        let mut b = vec![0, 1, 0, 1];
        let l = if r.chance(1, 20) { *r.pick(&[0u32, 65535, 65536, 0x7fff_ffff, u32::MAX]) } else { len as u32 };
        b.extend_from_slice(&l.to_be_bytes());
        b.extend_from_slice(&code);
        b.extend_from_slice(&[0, 0, 0, 0]);
        note(format!("{b:02x?}"));
        part(3, &p, &b);
    });
    // texts of descriptors and signatures, see also C10 and C11
    cx.random("texts", n / 3, |r| {
        let len = r.below(12);
        let s: String = (0..len).map(|_| *r.pick(&['L', ';', '[', '(', ')', 'V', 'I', 'J', 'T', '<', '>', '+', '-', '*', ':', '^', '.', '/', 'é', '\u{10000}', '\0', 'a'])).collect();
        let w = cow(s.as_bytes());
        note(format!("{s:?}"));
        let _ = parse_type(&w);
        let _ = s.parse::<ClassSignature>();
        let _ = s.parse::<MethodSignature>();
        let _ = s.parse::<FieldSignature>();
        let mut p = SpecPool::new(1);
        for n in ["Signature", s.as_str()] {
            p.add(&Konst::Utf8(n.as_bytes().to_vec()));
        }
        let i = p.add(&Konst::Utf8(s.as_bytes().to_vec())) as u8;
        for k in 0..3 {
            part(k, &p, &[0, 1, 0, 0, 0, 2, 0, i]);
        }
    });
}
