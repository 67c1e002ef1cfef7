//! C20: annotations round-trip with every element value intact.
use crate::core::*;
use coffer::annotation::*;
use coffer::prelude::*;

pub const HARNESSES: &[Harness] = &[];

#[cfg(not(kani))]
pub fn native(cx: &mut crate::native::Cx) {
    use crate::bytecode::*;
    use crate::classfile::*;
    use crate::gen2::*;
    use crate::native::note;
    use crate::spec::*;
    let n = cx.scale(40_000, 1_500_000);
    cx.random("values", n, |r| {
        let d = r.below(4);
        let v = value(r, d);
        note(format!("{v:?}"));
        roundtrip(&v, &t_value(&v), *r.pick(&[1, 250, 300]), &[]);
    });
    cx.random("annotations", n / 2, |r| {
        let v = annotation(r, 3);
        note(format!("{v:?}"));
        roundtrip(&v, &t_annotation(&v), *r.pick(&[1, 250, 300]), &[]);
        let v = class_annot(r);
        note(format!("{v:?}"));
        roundtrip(&v, &t_class_annot(&v), *r.pick(&[1, 250, 300]), &[]);
        let v = method_annot(r);
        note(format!("{v:?}"));
        roundtrip(&v, &t_method_annot(&v), *r.pick(&[1, 250, 300]), &[]);
        let v = field_annot(r);
        note(format!("{v:?}"));
        roundtrip(&v, &t_field_annot(&v), *r.pick(&[1, 250, 300]), &[]);
        let v = params(r);
        note(format!("{v:?}"));
        roundtrip(&v, &Toks::new().vec16(v.iter().map(t_annotation).collect()), *r.pick(&[1, 250, 300]), &[]);
    });
    cx.random("annotations of code", n / 2, |r| {
        let labels: Vec<Label> = (0..6).map(|i| Label(i * 1000 + r.below(999) as u32)).collect();
        let catches: Vec<Catch> = (0..r.below(4)).map(|i| Catch { start: labels[0], end: labels[1], handler: labels[i], catch: r.chance(1, 2).then(|| crate::gen::name(r)) }).collect();
        let v = code_annot(r, &labels, &catches);
        note(format!("{v:?} {catches:?}"));
        roundtrip(&v, &t_code_annot(&v, &|l| l.0 as u16, &catches), *r.pick(&[1, 250, 300]), &catches);
    });
    // integers of every kind, at the borders of every range and around
    let ints: Vec<i32> = [0i64, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1 << 24, i32::MAX as i64]
        .iter()
        .flat_map(|x| (-3..=3).flat_map(move |d| [x + d, -x + d]))
        .filter(|x| (i32::MIN as i64..=i32::MAX as i64).contains(x))
        .map(|x| x as i32)
        .chain([i32::MIN, i32::MIN + 1])
        .collect();
    fn read_value(k: Konst, tag: u8) -> coffer::Result<AnnotationValue> {
        let mut p = SpecPool::new(3);
        let i = p.add(&k).to_be_bytes();
        AnnotationValue::read_from(&mut p, &mut Rd::new(&[tag, i[0], i[1]]))
    }
    fn ints_ok(i: i32) {
        let r = |t| read_value(Konst::Int(i), t).ok();
        assert_eq!(r(b'B'), (-128..=127).contains(&i).then(|| AnnotationValue::Byte(i as i8)), "byte {i}");
        assert_eq!(r(b'C'), (0..=65535).contains(&i).then(|| AnnotationValue::Char(i as u16)), "char {i}");
        assert_eq!(r(b'S'), (-32768..=32767).contains(&i).then(|| AnnotationValue::Short(i as i16)), "short {i}");
        assert_eq!(r(b'Z'), (0..=1).contains(&i).then(|| AnnotationValue::Boolean(i == 1)), "boolean {i}");
        assert_eq!(r(b'I'), Some(AnnotationValue::Int(i)), "int {i}");
    }
    cx.each("ranges", &ints, |i| ints_ok(*i));
    cx.each("all small integers", &(0..140u32).collect::<Vec<_>>(), |k| (0..1000).for_each(|j| ints_ok((*k * 1000 + j) as i32 - 70_000)));
    cx.random("integers", n / 4, |r| ints_ok(r.u32() as i32));
    // every tag with every kind of constant
    let kinds: Vec<Konst> = {
        let m = || Konst::Method(b"a".to_vec(), b"b".to_vec(), b"()V".to_vec());
        let b = || Box::new(Bsm { handle: Konst::Handle(6, Box::new(m())), args: vec![] });
        vec![
            Konst::Utf8(b"I".to_vec()), Konst::Utf8(b"V".to_vec()), Konst::Utf8(b"Q".to_vec()), Konst::Utf8(b"Vx".to_vec()), Konst::Utf8(b"VV".to_vec()), Konst::Utf8(b"II".to_vec()), Konst::Utf8(b"".to_vec()), Konst::Utf8(b"[V".to_vec()), Konst::Utf8(b"Lx".to_vec()), Konst::Int(1), Konst::Float(0x3f80_0000), Konst::Long(1), Konst::Double(0), Konst::Class(b"I".to_vec()),
            Konst::Str(b"I".to_vec()), Konst::Module(b"I".to_vec()), Konst::Package(b"I".to_vec()), Konst::Field(b"a".to_vec(), b"b".to_vec(), b"I".to_vec()), m(),
            Konst::IMethod(b"a".to_vec(), b"b".to_vec(), b"()V".to_vec()), Konst::NameType(b"I".to_vec(), b"I".to_vec()), Konst::Handle(6, Box::new(m())), Konst::MType(b"()V".to_vec()),
            Konst::Dyn(b(), b"I".to_vec(), b"I".to_vec()), Konst::Indy(b(), b"I".to_vec(), b"()V".to_vec()),
        ]
    };
    let tags: Vec<(u8, usize)> = (0..=255u8).flat_map(|t| (0..kinds.len()).map(move |k| (t, k))).collect();
    cx.each("tags", &tags, |(tag, k)| {
        use AnnotationValue as A;
        let k = &kinds[*k];
        let mut p = SpecPool::new(3);
        let i = p.add(k).to_be_bytes();
        let j = p.add(&Konst::Utf8(b"I".to_vec())).to_be_bytes();
        let s = || cow(b"I");
        // (read from index, text), (read from text, index)
        let (want, want2) = match (tag, k) {
            (b'B', Konst::Int(_)) => (Some(A::Byte(1)), None),
            (b'C', Konst::Int(_)) => (Some(A::Char(1)), None),
            (b'S', Konst::Int(_)) => (Some(A::Short(1)), None),
            (b'Z', Konst::Int(_)) => (Some(A::Boolean(true)), None),
            (b'I', Konst::Int(_)) => (Some(A::Int(1)), None),
            (b'J', Konst::Long(_)) => (Some(A::Long(1)), None),
            (b'F', Konst::Float(_)) => (Some(A::Float(1.0f32.into())), None),
            (b'D', Konst::Double(_)) => (Some(A::Double(0.0f64.into())), None),
            (b's', Konst::Utf8(t)) => (Some(A::String(cow(t))), Some(A::String(s()))),
            (b's', _) => (None, Some(A::String(s()))),
            (b'c', Konst::Utf8(t)) if t == b"V" => (Some(A::Class(None)), Some(A::Class(Some(Type::Int)))),
            (b'c', Konst::Utf8(t)) if t == b"I" => (Some(A::Class(Some(Type::Int))), Some(A::Class(Some(Type::Int)))),
            (b'c', _) => (None, Some(A::Class(Some(Type::Int)))),
            (b'e', Konst::Utf8(t)) => ((t == b"I").then(|| A::Enum(Type::Int, s())), Some(A::Enum(Type::Int, cow(t)))),
            // an annotation without elements, an array of three texts
            (b'@', Konst::Utf8(t)) => ((t == b"I").then(|| A::Annotation(Annotation { annotation_type: Type::Int, element_values: Default::default() })), None),
            _ => (None, None),
        };
        let tail = if *tag == b'@' { [0, 0] } else { j };
        let b = [*tag, i[0], i[1], tail[0], tail[1]];
        if *tag != b'[' {
            let r = AnnotationValue::read_from(&mut p.clone(), &mut Rd::new(&b));
            assert_eq!(r.ok(), want, "tag {tag} with {k:?}");
        }
        if *tag != b'@' && *tag != b'[' {
            let r = AnnotationValue::read_from(&mut p.clone(), &mut Rd::new(&[*tag, j[0], j[1], i[0], i[1]]));
            assert_eq!(r.ok(), want2, "tag {tag} with text, then {k:?}");
        }
    });
    // every target type and every path kind, for every place
    let targets: Vec<(usize, u8)> = (0..4).flat_map(|p| (0..=255u8).map(move |t| (p, t))).collect();
    let size = |place: usize, t: u8| -> Option<usize> {
        Some(match (place, t) {
            (0, 0x00) | (1, 0x01) | (1, 0x16) => 1,
            (0, 0x10) | (1, 0x17) | (0, 0x11) | (1, 0x12) => 2,
            (1, 0x14) | (1, 0x15) | (2, 0x13) => 0,
            (3, 0x40) | (3, 0x41) | (3, 0x43..=0x46) => 2,
            (3, 0x42) => 2,
            (3, 0x47..=0x4B) => 3,
            _ => return None,
        })
    };
    fn read_place(place: usize, p: &mut SpecPool, b: &[u8]) -> (bool, usize) {
        let mut r = Rd::new(b);
        let ok = match place {
            0 => ClassTypeAnnotation::read_from(p, &mut r).is_ok(),
            1 => MethodTypeAnnotation::read_from(p, &mut r).is_ok(),
            2 => FieldTypeAnnotation::read_from(p, &mut r).is_ok(),
            _ => CodeTypeAnnotation::read_from(p, &mut r).is_ok(),
        };
        (ok, r.n)
    }
    cx.each("targets", &targets, |(place, t)| {
        let mut p = SpecPool::new(3);
        p.catches = vec![Catch { start: Label(0), end: Label(1), handler: Label(2), catch: None }];
        let i = p.add(&Konst::Utf8(b"I".to_vec())).to_be_bytes();
        // what the specification says, and every other length of the target
        for k in 0..8 {
            let mut b = vec![*t];
            b.extend(vec![0; k]);
            b.extend_from_slice(&[1, 3, 9]);
            b.extend_from_slice(&i);
            b.extend_from_slice(&[0, 0]);
            let (ok, n) = read_place(*place, &mut p.clone(), &b);
            let right = size(*place, *t) == Some(k);
            assert!(!right || (ok && n == b.len()), "target {t:#x} of place {place} is not read");
            if size(*place, *t).is_none() {
                assert!(!ok, "target {t:#x} of place {place} does not exist, but is read");
            }
        }
    });
    let kinds: Vec<(usize, u8, u8)> = (0..4).flat_map(|p| (0..=255u8).flat_map(move |t| [0u8, 1, 77, 255].map(|x| (p, t, x)))).collect();
    cx.each("path kinds", &kinds, |(place, kind, x)| {
        let mut p = SpecPool::new(3);
        let i = p.add(&Konst::Utf8(b"I".to_vec())).to_be_bytes();
        let (t, k) = [(0u8, 1), (0x14, 0), (0x13, 0), (0x43, 2)][*place];
        let mut b = vec![t];
        b.extend(vec![0; k]);
        b.extend_from_slice(&[2, 0, 0, *kind, *x]);
        b.extend_from_slice(&i);
        b.extend_from_slice(&[0, 0]);
        let (ok, n) = read_place(*place, &mut p, &b);
        assert_eq!(ok, *kind <= 3, "path kind {kind}");
        assert!(!ok || n == b.len());
    });
    // long lists
    cx.each("long lists", &[255usize, 256, 257, 65535, 65536, 70000], |n| {
        let v = AnnotationValue::Array(vec![AnnotationValue::Byte(3); *n]);
        let m: std::collections::HashMap<_, _> = (0..*n).map(|i| (cow(format!("{i}").as_bytes()), AnnotationValue::Boolean(true))).collect();
        let a = Annotation { annotation_type: Type::Int, element_values: m };
        if *n <= 65535 {
            roundtrip(&v, &t_value(&v), 1, &[]);
            if *n < 1000 {
                roundtrip(&a, &t_annotation(&a), 1, &[]);
            }
        } else {
            assert!(v.write_to(&mut RecPool::new(1), &mut vec![]).is_err(), "an array of {n} is written");
        }
        let c = ClassTypeAnnotation { target: ClassTypeAnnotationTarget::GenericTypeParameter(0), type_path: vec![TypePath::Array(0); *n], annotation_type: Type::Int, element_values: Default::default() };
        if *n <= 255 {
            roundtrip(&c, &t_class_annot(&c), 1, &[]);
        } else {
            assert!(c.write_to(&mut RecPool::new(1), &mut vec![]).is_err(), "a path of {n} is written");
        }
    });
}
