//! Generators of annotations, code, attributes and classes.
use crate::core::*;
use crate::gen::*;
use crate::spec::*;
use coffer::annotation::*;
use coffer::prelude::*;
use std::collections::HashMap;

pub fn value(r: &mut Rng, d: usize) -> AnnotationValue {
    use AnnotationValue as A;
    match r.below(if d > 0 { 13 } else { 11 }) {
        0 => A::Byte(r.u8() as i8),
        1 => A::Char(r.u16()),
        2 => A::Double(f64::from_bits(r.u64()).into()),
        3 => A::Float(f32::from_bits(r.u32()).into()),
        4 => A::Int(r.u32() as i32),
        5 => A::Long(r.u64() as i64),
        6 => A::Short(r.u16() as i16),
        7 => A::Boolean(r.chance(1, 2)),
        8 => A::String(name(r)),
        9 => A::Enum(field_type(r), name(r)),
        10 => A::Class(if r.chance(1, 4) { None } else { Some(field_type(r)) }),
        11 => A::Annotation(annotation(r, d - 1)),
        _ => {
            let n = r.below(4);
            A::Array((0..n).map(|_| value(r, d - 1)).collect())
        }
    }
}
pub fn elements(r: &mut Rng, d: usize) -> HashMap<Cow<'static, wtf_8::Wtf8Str>, AnnotationValue> {
    let n = *r.pick(&[0, 0, 1, 1, 2, 3, 5]);
    (0..n).map(|_| (name(r), value(r, d))).collect()
}
pub fn annotation(r: &mut Rng, d: usize) -> Annotation {
    Annotation { annotation_type: field_type(r), element_values: elements(r, d) }
}
pub fn path(r: &mut Rng) -> Vec<TypePath> {
    let n = *r.pick(&[0, 0, 1, 2, 4]);
    (0..n)
        .map(|_| match r.below(4) {
            0 => TypePath::Array(r.u8()),
            1 => TypePath::Nested(r.u8()),
            2 => TypePath::TypeBound(r.u8()),
            _ => TypePath::TypeArgument(r.u8()),
        })
        .collect()
}
pub fn class_target(r: &mut Rng) -> ClassTypeAnnotationTarget {
    use ClassTypeAnnotationTarget as T;
    match r.below(3) {
        0 => T::GenericTypeParameter(r.u8()),
        1 => T::ExtendsImplementsClause(r.u16()),
        _ => T::GenericTypeParameterBound(r.u8(), r.u8()),
    }
}
pub fn method_target(r: &mut Rng) -> MethodTypeAnnotationTarget {
    use MethodTypeAnnotationTarget as T;
    match r.below(6) {
        0 => T::GenericTypeParameter(r.u8()),
        1 => T::GenericTypeParameterBound(r.u8(), r.u8()),
        2 => T::Return,
        3 => T::Reciever,
        4 => T::FormalParameter(r.u8()),
        _ => T::Throws(r.u16()),
    }
}
pub fn class_annot(r: &mut Rng) -> ClassTypeAnnotation {
    ClassTypeAnnotation { target: class_target(r), type_path: path(r), annotation_type: field_type(r), element_values: elements(r, 1) }
}
pub fn method_annot(r: &mut Rng) -> MethodTypeAnnotation {
    MethodTypeAnnotation { target: method_target(r), type_path: path(r), annotation_type: field_type(r), element_values: elements(r, 1) }
}
pub fn field_annot(r: &mut Rng) -> FieldTypeAnnotation {
    FieldTypeAnnotation { target_type: FieldTarget::Field, type_path: path(r), annotation_type: field_type(r), element_values: elements(r, 1) }
}
/// `labels` stand in the order of their positions.
pub fn code_target(r: &mut Rng, labels: &[Label], catches: &[Catch]) -> CodeTypeAnnotationTarget {
    use CodeTypeAnnotationTarget as T;
    let k = r.below(12);
    let mut l = |r: &mut Rng| *r.pick(labels);
    match k {
        0 | 1 => {
            let n = *r.pick(&[0, 1, 2, 3]);
            let v = (0..n)
                .map(|_| {
                    let (a, b) = range(r, labels);
                    LocalVarTarget { start: a, end: b, idx: r.u16() }
                })
                .collect();
            if k == 0 {
                T::LocalVariable(v)
            } else {
                T::ResourceVariable(v)
            }
        }
        2 if !catches.is_empty() => T::CatchParameter(r.pick(catches).clone()),
        2 | 3 => T::InstanceOf(l(r)),
        4 => T::Constructor(l(r)),
        5 => T::ConstructorRef(l(r)),
        6 => T::MethodRef(l(r)),
        7 => T::Cast(l(r), r.u8()),
        8 => T::GenericConstructor(l(r), r.u8()),
        9 => T::GenericMethod(l(r), r.u8()),
        10 => T::GenericConstructorRef(l(r), r.u8()),
        _ => T::GenericMethodRef(l(r), r.u8()),
    }
}
pub fn code_annot(r: &mut Rng, labels: &[Label], catches: &[Catch]) -> CodeTypeAnnotation {
    CodeTypeAnnotation { target: code_target(r, labels, catches), type_path: path(r), annotation_type: field_type(r), element_values: elements(r, 1) }
}
/// Two labels, the first not behind the second.
pub fn range(r: &mut Rng, labels: &[Label]) -> (Label, Label) {
    let (a, b) = (r.below(labels.len()), r.below(labels.len()));
    (labels[a.min(b)], labels[a.max(b)])
}

pub fn class_type(r: &mut Rng) -> ClassType {
    if r.chance(1, 2) {
        let mut n = name(r);
        if n.as_bytes().first() == Some(&b'[') {
            n = cow(b"q");
        }
        ClassType::Object(n)
    } else {
        let t = if r.chance(1, 2) { prim(r) } else { Type::Ref(ref_name(r)) };
        ClassType::Array(*r.pick(&[1, 1, 2, 3, 254, 255]), t)
    }
}
fn or_dyn<T>(r: &mut Rng, f: impl Fn(&mut Rng) -> T) -> OrDynamic<T> {
    if r.chance(1, 8) {
        OrDynamic::Dynamic(dynamic(r, 1, false))
    } else {
        OrDynamic::Static(f(r))
    }
}
pub const CONDS: [JumpCondition; 17] = {
    use JumpCondition::*;
    [
        ReferenceEquals, ReferenceNotEquals, IntegerEquals, IntegerNotEquals, IntegerLessThan, IntegerGreaterThan, IntegerLessThanOrEquals,
        IntegerGreaterThanOrEquals, IntegerEqualsZero, IntegerNotEqualsZero, IntegerLessThanZero, IntegerGreaterThanZero, IntegerLessThanOrEqualsZero,
        IntegerGreaterThanOrEqualsZero, IsNull, IsNonNull, Always,
    ]
};
pub const LOCALS: [LocalType; 5] = [LocalType::Int, LocalType::Long, LocalType::Float, LocalType::Double, LocalType::Reference];
/// Every instruction without operands that vary (redundant conversions included).
pub fn plain() -> Vec<Instruction> {
    use Instruction as I;
    let mut v = vec![I::NoOp, I::PushNull, I::Dup, I::DupX1, I::DupX2, I::Dup2, I::Dup2X1, I::Dup2X2, I::Pop1, I::Pop2, I::Swap, I::CompareLongs, I::ArrayLength, I::Throw];
    for t in [FloatType::Double, FloatType::Float] {
        for n in [NaNBehavior::ReturnsOne, NaNBehavior::ReturnsNegativeOne] {
            v.push(I::CompareFloats(t, n));
        }
        use FloatOperation::*;
        for o in [Divide, Add, Subtract, Multiply, Remainder, Negate] {
            v.push(I::FloatOperation(t, o));
        }
    }
    for l in [LoadOrStore::Load, LoadOrStore::Store] {
        use ArrayType::*;
        for t in [ByteOrBool, Short, Char, Int, Long, Float, Double, Reference] {
            v.push(I::Array(l, t));
        }
    }
    for t in [IntType::Int, IntType::Long] {
        use IntOperation::*;
        for o in [Divide, Add, Subtract, Multiply, Remainder, Negate, ExclusiveOr, Or, And, ShiftLeft, ShiftRight, UnsignedShiftRight] {
            v.push(I::IntOperation(t, o));
        }
    }
    v.push(I::Monitor(MonitorOperation::Enter));
    v.push(I::Monitor(MonitorOperation::Exit));
    let n = [NumberType::Int, NumberType::Long, NumberType::Float, NumberType::Double];
    for a in n {
        for b in n {
            v.push(I::Conversion(a, b));
        }
    }
    use BitType::*;
    for b in [Byte, Short, Char, Int, Long, Float, Double] {
        v.push(I::ConvertInt(b));
    }
    v.push(I::Return(None));
    LOCALS.iter().for_each(|l| v.push(I::Return(Some(*l))));
    v
}
/// Any instruction that does not branch.
pub fn operand_insn(r: &mut Rng) -> Instruction {
    use Instruction as I;
    let los = if r.chance(1, 2) { LoadOrStore::Load } else { LoadOrStore::Store };
    let gp = if r.chance(1, 2) { GetOrPut::Get } else { GetOrPut::Put };
    let mt = if r.chance(1, 2) { MemberType::Static } else { MemberType::Virtual };
    let var = match r.below(3) {
        0 => r.below(6) as u16,
        1 => 250 + r.below(12) as u16,
        _ => r.u16(),
    };
    match r.below(16) {
        0 | 1 => I::Push(OrDynamic::Static(number(r))),
        2 => I::Push(or_dynamic(r, 2)),
        3 | 4 => I::LocalVariable(los, *r.pick(&LOCALS), var),
        5 => I::Ret(var),
        6 => I::IntIncrement(var, if r.chance(1, 2) { r.u16() as i16 } else { *r.pick(&[-128, -129, 127, 128, 0, 1, -1, 32767, -32768]) }),
        7 => I::CheckCast(or_dyn(r, class_type)),
        8 => I::InstanceOf(or_dyn(r, class_type)),
        9 => {
            let t = field_type(r);
            let inner = match &t {
                Type::ArrayRef(n, _) => *n,
                _ => 0,
            };
            let room = 255 - inner;
            let n = *r.pick(&[1, 1, 2, 3, 254, 255]);
            if room == 0 {
                I::NewArray(OrDynamic::Static(prim(r)), n)
            } else {
                or_dyn(r, |_| t.clone()).into_new(n.min(room))
            }
        }
        10 => I::New(or_dyn(r, name)),
        11 => I::Field(gp, mt, or_dyn(r, member)),
        12 => I::InvokeExact(mt, or_dyn(r, member)),
        13 => I::InvokeSpecial(or_dyn(r, member)),
        14 => I::InvokeInterface(or_dyn(r, member), r.u8()),
        _ => I::InvokeDynamic(dynamic(r, 2, true)),
    }
}
trait IntoNew {
    fn into_new(self, n: u8) -> Instruction;
}
impl IntoNew for OrDynamic<Type> {
    fn into_new(self, n: u8) -> Instruction {
        Instruction::NewArray(self, n)
    }
}
pub fn branch(r: &mut Rng, labels: &[Label]) -> Instruction {
    use Instruction as I;
    match r.below(6) {
        0 | 1 | 2 => I::Jump(*r.pick(&CONDS), *r.pick(labels)),
        3 => I::Jsr(*r.pick(labels)),
        4 => {
            let n = 1 + r.below(6);
            let low = match r.below(3) {
                0 => r.u32() as i32,
                1 => *r.pick(&[0, 1, -1, i32::MIN, i32::MAX]),
                _ => r.below(100) as i32 - 50,
            };
            let n = (n as i64).min(i32::MAX as i64 - low as i64 + 1) as usize;
            I::TableSwitch { default: *r.pick(labels), low, offsets: (0..n).map(|_| *r.pick(labels)).collect() }
        }
        _ => {
            let n = r.below(6);
            I::LookupSwitch { default: *r.pick(labels), table: (0..n).map(|_| (r.u32() as i32, *r.pick(labels))).collect() }
        }
    }
}
/// How many instructions with bytes stand before a label.
fn place(body: &[Instruction], l: &Label) -> usize {
    body.iter().take_while(|i| **i != Instruction::Label(*l)).filter(|i| !matches!(crate::bytecode::norm(i, &|_| Some(0)), Ok(None))).count()
}
pub struct Opts {
    pub max: usize,
    pub branches: bool,
    pub tables: bool,
    /// Up to this many fillers at a few places.
    pub far: usize,
    pub lines: bool,
}
pub fn raw_attr(r: &mut Rng, names: &[&str]) -> RawAttribute {
    let n = if r.chance(1, 80) { 65_530 + r.below(12) } else { r.below(12) };
    RawAttribute::new(cow(r.pick(names).as_bytes()), (0..n).map(|_| r.u8()).collect::<Vec<u8>>())
}
pub const RAW_CODE: [&str; 5] = ["Xyz", "", "Code", "Signature", "RuntimeVisibleAnnotations"];
pub fn code(r: &mut Rng, o: &Opts) -> Code {
    let plain = plain();
    let nl = 1 + r.below(6);
    let base = *r.pick(&[0, 0, 5, 1000, u32::MAX - 10]);
    let mut labels: Vec<Label> = (0..nl as u32).map(|i| Label(base + i)).collect();
    for i in (1..labels.len()).rev() {
        labels.swap(i, r.below(i + 1));
    }
    let n = r.below(o.max + 1);
    let mut body: Vec<Instruction> = vec![];
    for _ in 0..n {
        body.push(match r.below(8) {
            0 | 1 if o.branches => branch(r, &labels),
            2 if o.lines => Instruction::LineNumber(r.u16()),
            0 | 1 | 2 | 3 => r.pick(&plain).clone(),
            _ => operand_insn(r),
        });
    }
    if o.far > 0 {
        for _ in 0..1 + r.below(3) {
            let at = r.below(body.len() + 1);
            let k = match r.below(3) {
                0 => 32740 + r.below(60),
                1 => r.below(o.far + 1),
                _ => r.below(8),
            };
            let k = k.min(o.far);
            let fill = std::iter::repeat(Instruction::NoOp).take(k);
            body.splice(at..at, fill);
        }
    }
    // where the labels stand, in order
    let mut at: Vec<usize> = (0..nl)
        .map(|_| match r.below(4) {
            0 => 0,
            1 => body.len(),
            _ => r.below(body.len() + 1),
        })
        .collect();
    at.sort();
    for i in (0..nl).rev() {
        body.insert(at[i], Instruction::Label(labels[i]));
    }
    let mut catches: Vec<Catch> = vec![];
    let mut attrs = vec![];
    if o.tables {
        for _ in 0..r.below(4) {
            let (start, end) = range(r, &labels);
            let c = Catch { start, end, handler: *r.pick(&labels), catch: r.chance(1, 2).then(|| name(r)) };
            // no two of the same range: nothing tells them apart once they are read
            if !catches.iter().any(|d| d.catch == c.catch && place(&body, &d.start) == place(&body, &c.start) && place(&body, &d.end) == place(&body, &c.end) && place(&body, &d.handler) == place(&body, &c.handler)) {
                catches.push(c);
            }
        }
        let mut vars = false;
        for _ in 0..r.below(4) {
            attrs.push(match r.below(4) {
                0 => {
                    let k = r.below(3);
                    CodeAttribute::VisibleTypeAnnotations((0..k).map(|_| code_annot(r, &labels, &catches)).collect())
                }
                1 => {
                    let k = r.below(3);
                    CodeAttribute::InvisibleTypeAnnotations((0..k).map(|_| code_annot(r, &labels, &catches)).collect())
                }
                2 if !vars => {
                    vars = true;
                    let k = 1 + r.below(4);
                    CodeAttribute::LocalVariables(
                        (0..k)
                            .map(|i| {
                                let (start, end) = range(r, &labels);
                                let d = r.chance(2, 3).then(|| field_type(r));
                                let s = if d.is_none() || r.chance(1, 2) { Some(field_signature(r)) } else { None };
                                LocalVariable { start, end, name: name(r), descriptor: d, signature: s, index: r.u16() / 8 * 8 + i as u16 }
                            })
                            .collect(),
                    )
                }
                _ => CodeAttribute::Raw(raw_attr(r, &RAW_CODE)),
            });
        }
    }
    Code { max_stack: r.u16(), max_locals: r.u16(), code: body, catches, attrs }
}

// ---- attributes, members, classes

fn list<T>(r: &mut Rng, max: usize, f: impl Fn(&mut Rng) -> T) -> Vec<T> {
    let n = r.below(max + 1);
    (0..n).map(|_| f(r)).collect()
}
pub const RAW_FIELD: [&str; 5] = ["Xyz", "", "Code", "SourceFile", "deprecated"];
pub fn field_attr(r: &mut Rng) -> FieldAttribute {
    use FieldAttribute as A;
    match r.below(9) {
        0 => A::Deprecated,
        1 => A::Synthetic,
        2 => A::Signature(field_signature(r)),
        3 => A::ConstantValue(constant(r)),
        4 => A::RuntimeVisibleAnnotations(list(r, 2, |r| annotation(r, 1))),
        5 => A::RuntimeInvisibleAnnotations(list(r, 2, |r| annotation(r, 1))),
        6 => A::RuntimeVisibleTypeAnnotations(list(r, 2, field_annot)),
        7 => A::RuntimeInvisibleTypeAnnotations(list(r, 2, field_annot)),
        _ => A::Raw(raw_attr(r, &RAW_FIELD)),
    }
}
/// A method parameter, made by reading it (nothing else can make one).
pub fn parameter(name: Option<&[u8]>, flags: u16) -> MethodParameter {
    let mut p = SpecPool::new(3);
    let mut b = vec![];
    Toks::new().opt(name.map(|n| Konst::Utf8(n.to_vec()))).u16(flags).build(&mut p, &mut b);
    <MethodParameter as ConstantPoolReadWrite>::read_from(&mut p, &mut Rd::new(&b)).expect("a method parameter is read")
}
pub fn params(r: &mut Rng) -> ParameterAnnotations {
    let mut p = SpecPool::new(3);
    let mut a = <ParameterAnnotations as ConstantPoolReadWrite>::read_from(&mut p, &mut Rd::new(&[0, 0])).expect("an empty list is read");
    a.clear();
    a.extend(list(r, 2, |r| annotation(r, 1)));
    a
}
pub const RAW_METHOD: [&str; 6] = ["Xyz", "", "StackMapTable", "SourceFile", "code", "ConstantValue"];
/// Not `Code`.
pub fn method_attr(r: &mut Rng) -> MethodAttribute {
    use MethodAttribute as A;
    match r.below(13) {
        0 => A::Deprecated,
        1 => A::Synthetic,
        2 => A::Signature(method_signature(r)),
        3 => A::RuntimeVisibleAnnotations(list(r, 2, |r| annotation(r, 1))),
        4 => A::RuntimeInvisibleAnnotations(list(r, 2, |r| annotation(r, 1))),
        5 => A::RuntimeVisibleTypeAnnotations(list(r, 2, method_annot)),
        6 => A::RuntimeInvisibleTypeAnnotations(list(r, 2, method_annot)),
        7 => A::RuntimeVisibleParameterAnnotations(list(r, 3, params)),
        8 => A::RuntimeInvisibleParameterAnnotations(list(r, 3, params)),
        9 => A::Exceptions(list(r, 3, name)),
        10 => A::AnnotationDefault(value(r, 2)),
        11 => A::MethodParameters(list(r, 3, |r| {
            let n = r.chance(2, 3).then(|| name(r));
            parameter(n.as_ref().map(|n| n.as_bytes()), *r.pick(&[0, 0x10, 0x1000, 0x8000, 0x9010]))
        })),
        _ => A::Raw(raw_attr(r, &RAW_METHOD)),
    }
}
fn flags<T>(r: &mut Rng, f: impl Fn(u16) -> T) -> T {
    f(r.next() as u16)
}
pub fn module(r: &mut Rng) -> Module {
    let n = name(r);
    let version = match r.below(4) {
        0 => Some(n.clone()),
        1 => Some(name(r)),
        _ => None,
    };
    Module {
        name: n,
        flags: flags(r, ModuleFlags::from_bits_truncate),
        version,
        requires: list(r, 3, |r| Require { module: name(r), flags: flags(r, RequireFlags::from_bits_truncate), version: r.chance(1, 2).then(|| name(r)) }),
        exports: list(r, 3, |r| Export { package: name(r), flags: flags(r, ExOpFlags::from_bits_truncate), to: list(r, 3, name) }),
        opens: list(r, 3, |r| Open { package: name(r), flags: flags(r, ExOpFlags::from_bits_truncate), to: list(r, 3, name) }),
        uses: list(r, 3, name),
        provides: list(r, 3, |r| Provide { class: name(r), with: list(r, 3, name) }),
    }
}
pub fn inner_class(r: &mut Rng) -> InnerClass {
    InnerClass {
        inner_fqname: name(r),
        outer_fqname: r.chance(1, 2).then(|| name(r)),
        inner_name: r.chance(1, 2).then(|| name(r)),
        inner_access: flags(r, InnerClassFlags::from_bits_truncate),
    }
}
pub const RAW_CLASS: [&str; 6] = ["Xyz", "", "Code", "ConstantValue", "Record", "Exceptions"];
/// Not `BootstrapMethods`.
pub fn class_attr(r: &mut Rng) -> ClassAttribute {
    use ClassAttribute as A;
    match r.below(17) {
        0 => A::Signature(class_signature(r)),
        1 => A::Synthetic,
        2 => A::Deprecated,
        3 => A::SourceFile(name(r)),
        4 => A::InnerClasses(list(r, 3, inner_class)),
        5 => {
            let m = r.chance(2, 3).then(|| (name(r), any_type(r)));
            A::EnclosingMethod(name(r), m)
        }
        6 => {
            // its length is not limited to 65535 bytes
            let mut s = w(r, 12);
            if r.chance(1, 30) {
                s = ws(&[s.as_bytes(), &vec![b'x'; 65_530 + r.below(12)]].concat()).into();
            }
            A::SourceDebugExtension(SourceDebugExtension(s))
        }
        7 => A::Module(module(r)),
        8 => A::ModulePackages(list(r, 3, name)),
        9 => A::ModuleMainClass(name(r)),
        10 => A::NestHost(name(r)),
        11 => A::NestMembers(list(r, 3, name)),
        12 => A::RuntimeVisibleAnnotations(list(r, 2, |r| annotation(r, 2))),
        13 => A::RuntimeInvisibleAnnotations(list(r, 2, |r| annotation(r, 2))),
        14 => A::RuntimeVisibleTypeAnnotations(list(r, 2, class_annot)),
        15 => A::RuntimeInvisibleTypeAnnotations(list(r, 2, class_annot)),
        _ => A::Raw(raw_attr(r, &RAW_CLASS)),
    }
}
pub fn field(r: &mut Rng) -> Field {
    Field { access: flags(r, FieldFlags::from_bits_truncate), name: name(r), descriptor: field_type(r), attrs: list(r, 3, field_attr) }
}
pub fn method(r: &mut Rng, code_len: usize) -> Method {
    let mut attributes = list(r, 3, method_attr);
    if r.chance(1, 2) {
        let at = r.below(attributes.len() + 1);
        let c = code(r, &Opts { max: code_len, branches: true, tables: true, far: 0, lines: true });
        attributes.insert(at, MethodAttribute::Code(c));
    }
    Method { access: flags(r, MethodFlags::from_bits_truncate), name: name(r), descriptor: method_type(r), attributes }
}
pub fn version(r: &mut Rng) -> JavaVersion {
    let b = [0, 0, 0, 45 + r.below(15) as u8];
    let mut v = <JavaVersion as ReadWrite>::read_from(&mut Rd::new(&b)).expect("a version from 45 to 59 is read");
    v.minor = r.u16();
    v
}
pub fn class(r: &mut Rng, code_len: usize) -> coffer::clazz::Class {
    let mut attributes = list(r, 4, class_attr);
    if r.chance(1, 5) {
        let at = r.below(attributes.len() + 1);
        let mut v: Vec<BootstrapMethod> = vec![];
        for b in list(r, 3, |r| bsm(r, 1)) {
            if !v.contains(&b) {
                v.push(b)
            }
        }
        attributes.insert(at, ClassAttribute::BootstrapMethods(v));
    }
    coffer::clazz::Class {
        version: version(r),
        access: flags(r, ClassFlags::from_bits_truncate),
        name: name(r),
        super_name: r.chance(4, 5).then(|| name(r)),
        interfaces: list(r, 3, name),
        fields: list(r, 3, field),
        methods: list(r, 3, |r| method(r, code_len)),
        attributes,
    }
}
