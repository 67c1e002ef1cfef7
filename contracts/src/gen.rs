//! Generators of coffer's values.
use crate::core::*;
use crate::spec::*;
use coffer::prelude::*;

/// The UTF-16 units of a string: any mix of ASCII, NUL, other BMP, pairs and lone surrogates.
pub fn units(r: &mut Rng, max: usize) -> Vec<u16> {
    let n = r.below(max + 1);
    let flavour = r.below(4);
    (0..n)
        .map(|_| match if flavour == 0 { 0 } else { r.below(9) } {
            0 | 1 => 0x61 + r.below(26) as u16,
            2 => *r.pick(&[0, 1, 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0xD7FF, 0xE000, 0xFFFD, 0xFEFF]),
            3 => 0xD800 + r.below(0x400) as u16,
            4 => 0xDC00 + r.below(0x400) as u16,
            5 => *r.pick(&[0xD800, 0xDBFF, 0xDC00, 0xDFFF]),
            6 => r.below(0x80) as u16,
            7 => r.below(0x800) as u16,
            _ => r.next() as u16,
        })
        .collect()
}
/// A well-formed string.
pub fn wtf8(r: &mut Rng, max: usize) -> Vec<u8> {
    wtf8_of_units(&units(r, max))
}

pub fn w(r: &mut Rng, max: usize) -> Cow<'static, wtf_8::Wtf8Str> {
    cow(&wtf8(r, max))
}
const NAMES: [&str; 14] = ["a", "foo", "java/lang/Object", "<init>", "<clinit>", "x", "I", "V", "bar", "java/lang/String", "()V", "Code", "T", "module.name"];
/// Any string; often one that has been used already.
pub fn name(r: &mut Rng) -> Cow<'static, wtf_8::Wtf8Str> {
    match r.below(5) {
        0 | 1 => cow(r.pick(&NAMES).as_bytes()),
        2 => cow(&[b'a' + r.below(26) as u8]),
        _ => w(r, 6),
    }
}
/// A class name that can stand in a descriptor.
pub fn ref_name(r: &mut Rng) -> Cow<'static, wtf_8::Wtf8Str> {
    let mut u: Vec<u16> = match r.below(3) {
        0 => vec![b'a' as u16 + r.below(3) as u16],
        1 => "java/lang/Object".encode_utf16().collect(),
        _ => units(r, 6),
    };
    u.retain(|c| !matches!(*c, 0x3B | 0x5B));
    if u.is_empty() {
        u.push(b'q' as u16);
    }
    cow(&wtf8_of_units(&u))
}
pub fn prim(r: &mut Rng) -> Type {
    r.pick(&[Type::Byte, Type::Char, Type::Double, Type::Float, Type::Int, Type::Long, Type::Boolean, Type::Short]).clone()
}
pub fn field_type(r: &mut Rng) -> Type {
    match r.below(5) {
        0 | 1 => prim(r),
        2 | 3 => Type::Ref(ref_name(r)),
        _ => {
            let t = if r.chance(1, 2) { prim(r) } else { Type::Ref(ref_name(r)) };
            Type::ArrayRef(*r.pick(&[1, 1, 2, 3, 127, 128, 254, 255]), Box::new(t))
        }
    }
}
pub fn method_type(r: &mut Rng) -> Type {
    let n = *r.pick(&[0, 0, 1, 1, 2, 3, 5]);
    Type::Method { parameters: (0..n).map(|_| field_type(r)).collect(), ret: if r.chance(1, 3) { None } else { Some(Box::new(field_type(r))) } }
}
pub fn any_type(r: &mut Rng) -> Type {
    if r.chance(1, 2) {
        field_type(r)
    } else {
        method_type(r)
    }
}
pub fn field_ref(r: &mut Rng) -> MemberRef {
    MemberRef { owner: name(r), name: name(r), descriptor: field_type(r), itfs: false }
}
pub fn method_ref(r: &mut Rng) -> MemberRef {
    MemberRef { owner: name(r), name: name(r), descriptor: method_type(r), itfs: r.chance(1, 2) }
}
pub fn member(r: &mut Rng) -> MemberRef {
    if r.chance(1, 2) {
        field_ref(r)
    } else {
        method_ref(r)
    }
}
pub fn handle(r: &mut Rng) -> MethodHandle {
    let kind = no_kind(1 + r.below(9) as u8).unwrap();
    if (kind_no(kind)) < 5 {
        MethodHandle { kind, member: field_ref(r) }
    } else {
        let mut m = method_ref(r);
        if kind == MethodHandleKind::NewInvokeSpecial {
            m.name = cow(b"<init>");
        } else if &*m.name == "<init>" || &*m.name == "<clinit>" {
            m.name = cow(b"call");
        }
        MethodHandle { kind, member: m }
    }
}
pub fn number(r: &mut Rng) -> Constant {
    match r.below(8) {
        0 => Constant::I32(r.u32() as i32),
        1 => Constant::I32(*r.pick(&[-1, 0, 1, 2, 3, 4, 5, 6, -2, 127, 128, -128, -129, 32767, 32768, -32768, -32769, i32::MIN, i32::MAX])),
        2 => Constant::I64(r.u64() as i64),
        3 => Constant::I64(*r.pick(&[0, 1, 2, -1, i64::MIN, i64::MAX, 1 << 32])),
        4 => Constant::F32(f32::from_bits(r.u32()).into()),
        5 => Constant::F32(f32::from_bits(*r.pick(&[0, 0x8000_0000, 0x3f80_0000, 0x4000_0000, 0xbf80_0000, 0x7fc0_0000, 0x7fc0_0001, 0xffc0_0000, 1])).into()),
        6 => Constant::F64(f64::from_bits(r.u64()).into()),
        _ => Constant::F64(f64::from_bits(*r.pick(&[0, 1 << 63, 1.0f64.to_bits(), 2.0f64.to_bits(), 0x7ff8 << 48, (0x7ff8 << 48) + 1, 1])).into()),
    }
}
pub fn constant(r: &mut Rng) -> Constant {
    match r.below(8) {
        0 | 1 | 2 => number(r),
        3 => Constant::String(name(r)),
        4 => Constant::Class(name(r)),
        5 => Constant::Member(member(r)),
        6 => Constant::MethodType(method_type(r)),
        _ => Constant::MethodHandle(handle(r)),
    }
}
pub fn bsm(r: &mut Rng, depth: usize) -> BootstrapMethod {
    let n = *r.pick(&[0, 0, 1, 2, 3]);
    BootstrapMethod { handle: handle(r), arguments: (0..n).map(|_| or_dynamic(r, depth)).collect() }
}
pub fn dynamic(r: &mut Rng, depth: usize, method: bool) -> Dynamic {
    let b = bsm(r, depth.saturating_sub(1));
    Dynamic::new(b, name(r), if method { method_type(r) } else { field_type(r) })
}
pub fn or_dynamic(r: &mut Rng, depth: usize) -> OrDynamic<Constant> {
    if depth > 0 && r.chance(1, 3) {
        OrDynamic::Dynamic(dynamic(r, depth, false))
    } else {
        OrDynamic::Static(constant(r))
    }
}

// ---- generic signatures (JVMS 4.7.9.1)

pub const IDENT_STOP: &str = ".;[/<>:";
pub fn ident(r: &mut Rng) -> Cow<'static, str> {
    let pool = ['a', 'b', 'T', 'L', 'V', 'I', '$', '_', '\u{e9}', '\u{4e00}', '\u{1f600}', '^', '*', '+', '-', '(', ')', '\0', ' ', 'Z'];
    let n = 1 + r.below(4);
    Cow::Owned((0..n).map(|_| *r.pick(&pool)).collect())
}
pub fn simple_class(r: &mut Rng, d: usize) -> SimpleClassTypeSignature {
    let n = if d == 0 { 0 } else { *r.pick(&[0, 0, 1, 1, 2, 3]) };
    SimpleClassTypeSignature {
        name: ident(r),
        type_arguments: (0..n)
            .map(|_| match r.below(4) {
                0 => TypeArgument::Any,
                1 => TypeArgument::Extends(ref_sig(r, d - 1)),
                2 => TypeArgument::Super(ref_sig(r, d - 1)),
                _ => TypeArgument::Exact(ref_sig(r, d - 1)),
            })
            .collect(),
    }
}
pub fn class_sig(r: &mut Rng, d: usize) -> ClassTypeSignature {
    let (a, b) = (*r.pick(&[0, 0, 1, 2]), *r.pick(&[0, 0, 0, 1, 2]));
    ClassTypeSignature { package: (0..a).map(|_| ident(r)).collect(), name: simple_class(r, d), suffix: (0..b).map(|_| simple_class(r, d)).collect() }
}
pub fn ref_sig(r: &mut Rng, d: usize) -> RefTypeSignature {
    match r.below(4) {
        0 => RefTypeSignature::TypeVariable(ident(r)),
        1 if d > 0 => {
            let t = loop {
                match type_sig(r, d - 1) {
                    TypeSignature::Ref(RefTypeSignature::ArrayRef(..)) => {}
                    t => break t,
                }
            };
            RefTypeSignature::ArrayRef(*r.pick(&[1, 1, 2, 254, 255]), Box::new(t))
        }
        _ => RefTypeSignature::ClassType(class_sig(r, d)),
    }
}
pub fn type_sig(r: &mut Rng, d: usize) -> TypeSignature {
    use TypeSignature::*;
    if r.chance(1, 2) {
        r.pick(&[Byte, Char, Double, Float, Int, Long, Boolean, Short]).clone()
    } else {
        Ref(ref_sig(r, d))
    }
}
pub fn type_params(r: &mut Rng, d: usize) -> Vec<TypeParameter> {
    let n = *r.pick(&[0, 0, 1, 2, 3]);
    let mut v: Vec<TypeParameter> = vec![];
    for _ in 0..n {
        let k = *r.pick(&[0, 0, 1, 2]);
        let mut p = TypeParameter { name: ident(r), class_bound: r.chance(1, 2).then(|| ref_sig(r, d)), interface_bounds: (0..k).map(|_| ref_sig(r, d)).collect() };
        // A name after a parameter without bounds is told from a bound by its first character only.
        if v.last().map_or(false, |l| l.class_bound.is_none() && l.interface_bounds.is_empty()) && p.name.starts_with(&['L', 'T'][..]) {
            p.name = Cow::Owned(format!("a{}", p.name));
        }
        v.push(p);
    }
    v
}
pub fn class_signature(r: &mut Rng) -> ClassSignature {
    let n = *r.pick(&[0, 0, 1, 2]);
    ClassSignature { type_parameters: type_params(r, 2), super_class: class_sig(r, 2), interfaces: (0..n).map(|_| class_sig(r, 2)).collect() }
}
pub fn method_signature(r: &mut Rng) -> MethodSignature {
    let (n, k) = (*r.pick(&[0, 1, 2, 3]), *r.pick(&[0, 0, 1, 2]));
    MethodSignature {
        type_parameters: type_params(r, 2),
        parameters: (0..n).map(|_| type_sig(r, 2)).collect(),
        return_type: r.chance(2, 3).then(|| type_sig(r, 2)),
        throws: (0..k).map(|_| if r.chance(1, 2) { Throws::TypeParameter(ident(r)) } else { Throws::Class(class_sig(r, 1)) }).collect(),
    }
}
/// The printed form of the grammar, as the specification has it.
pub fn s_simple(s: &SimpleClassTypeSignature, o: &mut String) {
    o.push_str(&s.name);
    if !s.type_arguments.is_empty() {
        o.push('<');
        for a in &s.type_arguments {
            match a {
                TypeArgument::Any => o.push('*'),
                TypeArgument::Extends(t) => {
                    o.push('+');
                    s_ref(t, o)
                }
                TypeArgument::Super(t) => {
                    o.push('-');
                    s_ref(t, o)
                }
                TypeArgument::Exact(t) => s_ref(t, o),
            }
        }
        o.push('>');
    }
}
pub fn s_class(s: &ClassTypeSignature, o: &mut String) {
    o.push('L');
    for p in &s.package {
        o.push_str(p);
        o.push('/');
    }
    s_simple(&s.name, o);
    for p in &s.suffix {
        o.push('.');
        s_simple(p, o);
    }
    o.push(';');
}
pub fn s_ref(s: &RefTypeSignature, o: &mut String) {
    match s {
        RefTypeSignature::TypeVariable(n) => {
            o.push('T');
            o.push_str(n);
            o.push(';')
        }
        RefTypeSignature::ArrayRef(d, t) => {
            (0..*d).for_each(|_| o.push('['));
            s_type(t, o)
        }
        RefTypeSignature::ClassType(c) => s_class(c, o),
    }
}
pub fn s_type(s: &TypeSignature, o: &mut String) {
    o.push(match s {
        TypeSignature::Byte => 'B',
        TypeSignature::Char => 'C',
        TypeSignature::Double => 'D',
        TypeSignature::Float => 'F',
        TypeSignature::Int => 'I',
        TypeSignature::Long => 'J',
        TypeSignature::Boolean => 'Z',
        TypeSignature::Short => 'S',
        TypeSignature::Ref(r) => return s_ref(r, o),
    })
}
pub fn s_param(p: &TypeParameter, o: &mut String) {
    o.push_str(&p.name);
    o.push(':');
    if let Some(b) = &p.class_bound {
        s_ref(b, o);
    }
    for b in &p.interface_bounds {
        o.push(':');
        s_ref(b, o);
    }
}
fn s_params(v: &[TypeParameter], o: &mut String) {
    if !v.is_empty() {
        o.push('<');
        v.iter().for_each(|p| s_param(p, o));
        o.push('>');
    }
}
pub fn s_class_signature(s: &ClassSignature) -> String {
    let mut o = String::new();
    s_params(&s.type_parameters, &mut o);
    s_class(&s.super_class, &mut o);
    s.interfaces.iter().for_each(|i| s_class(i, &mut o));
    o
}
pub fn s_throws(t: &Throws, o: &mut String) {
    o.push('^');
    match t {
        Throws::TypeParameter(n) => {
            o.push('T');
            o.push_str(n);
            o.push(';')
        }
        Throws::Class(c) => s_class(c, o),
    }
}
pub fn s_method_signature(s: &MethodSignature) -> String {
    let mut o = String::new();
    s_params(&s.type_parameters, &mut o);
    o.push('(');
    s.parameters.iter().for_each(|i| s_type(i, &mut o));
    o.push(')');
    match &s.return_type {
        Some(t) => s_type(t, &mut o),
        None => o.push('V'),
    }
    s.throws.iter().for_each(|t| s_throws(t, &mut o));
    o
}
/// A field signature with its text (its content is private to coffer).
pub fn field_signature(r: &mut Rng) -> FieldSignature {
    let mut o = String::new();
    s_ref(&ref_sig(r, 2), &mut o);
    o.parse().expect("a field signature of the specified grammar is parsed")
}
/// The text of a field signature. Its content cannot be reached except through its printed form
/// (that printing is right is C11's matter).
pub fn sig_text_field(s: &FieldSignature) -> Vec<u8> {
    s.to_string().into_bytes()
}
