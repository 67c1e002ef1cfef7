//! The instruction set and the Code attribute, written from JVMS chapters 4.7.3 and 6.
//! Nothing in here calls coffer's own encoders or decoders.
use crate::core::*;
use crate::spec::*;
use coffer::annotation::*;
use coffer::prelude::*;
use std::collections::HashMap;

/// What an instruction does: different encodings of the same operation are equal.
#[derive(Clone, Debug, PartialEq)]
pub enum N {
    /// No operands.
    Op(u8),
    Push(Konst),
    /// Load, store, ret: the plain opcode, the variable.
    Local(u8, u16),
    Inc(u16, i16),
    /// The 16-bit opcode, the target.
    Jump(u8, u32),
    Table(u32, i32, Vec<u32>),
    Lookup(u32, Vec<(i32, u32)>),
    /// Opcode and pool operand.
    Pool(u8, Konst),
    Interface(Konst, u8),
    NewArr(u8),
    Multi(Konst, u8),
}

pub fn negated(op: u8) -> u8 {
    if op >= 0xC6 {
        op ^ 1
    } else {
        0x99 + ((op - 0x99) ^ 1)
    }
}
fn class_like(p: &dyn Lookup, i: u16) -> Option<Konst> {
    match p.konst(i)? {
        k @ (Konst::Class(_) | Konst::Dyn(..)) => Some(k),
        _ => None,
    }
}
fn prim_code(c: u8) -> Option<u8> {
    Some(match c {
        b'Z' => 4,
        b'C' => 5,
        b'F' => 6,
        b'D' => 7,
        b'B' => 8,
        b'S' => 9,
        b'I' => 10,
        b'J' => 11,
        _ => return None,
    })
}
/// An array of `dims` dimensions whose type is `t`.
fn multi(t: Konst, dims: u8) -> N {
    if dims == 1 {
        if let Konst::Class(b) = &t {
            let c = &b[1..];
            return if c[0] == b'L' {
                N::Pool(0xBD, Konst::Class(c[1..c.len() - 1].to_vec()))
            } else if c[0] == b'[' {
                N::Pool(0xBD, Konst::Class(c.to_vec()))
            } else {
                N::NewArr(prim_code(c[0]).unwrap())
            };
        }
    }
    N::Multi(t, dims)
}

/// Decodes the instruction at `pc`. Gives it and the position after it.
pub fn decode(code: &[u8], pc: usize, p: &dyn Lookup) -> Option<(N, usize)> {
    let u8_ = |i: usize| code.get(i).copied();
    let u16_ = |i: usize| Some((u8_(i)? as u16) << 8 | u8_(i + 1)? as u16);
    let i32_ = |i: usize| Some(((u16_(i)? as u32) << 16 | u16_(i + 2)? as u32) as i32);
    let to = |off: i32| Some((pc as i64 + off as i64) as u32);
    let op = u8_(pc)?;
    let loadable = |i: u16, wide: bool| -> Option<Konst> {
        let k = p.konst(i)?;
        let w = match &k {
            Konst::Long(_) | Konst::Double(_) => true,
            Konst::Dyn(_, _, t) => matches!(&t[..], b"J" | b"D"),
            Konst::Int(_) | Konst::Float(_) | Konst::Str(_) | Konst::Class(_) | Konst::MType(_) | Konst::Handle(..) => false,
            // coffer also pushes members
            Konst::Field(..) | Konst::Method(..) | Konst::IMethod(..) => false,
            _ => return None,
        };
        (w == wide).then(|| k)
    };
    let member = |i: u16| -> Option<Konst> {
        match p.konst(i)? {
            k @ (Konst::Field(..) | Konst::Method(..) | Konst::IMethod(..) | Konst::Dyn(..)) => Some(k),
            _ => None,
        }
    };
    Some(match op {
        0x01 | 0x00 => (N::Op(op), pc + 1),
        0x02..=0x08 => (N::Push(Konst::Int(op as i32 - 3)), pc + 1),
        0x09 | 0x0A => (N::Push(Konst::Long(op as i64 - 9)), pc + 1),
        0x0B..=0x0D => (N::Push(Konst::Float(((op - 0x0B) as f32).to_bits())), pc + 1),
        0x0E | 0x0F => (N::Push(Konst::Double(((op - 0x0E) as f64).to_bits())), pc + 1),
        0x10 => (N::Push(Konst::Int(u8_(pc + 1)? as i8 as i32)), pc + 2),
        0x11 => (N::Push(Konst::Int(u16_(pc + 1)? as i16 as i32)), pc + 3),
        0x12 => (N::Push(loadable(u8_(pc + 1)? as u16, false)?), pc + 2),
        0x13 => (N::Push(loadable(u16_(pc + 1)?, false)?), pc + 3),
        0x14 => (N::Push(loadable(u16_(pc + 1)?, true)?), pc + 3),
        0x15..=0x19 | 0x36..=0x3A | 0xA9 => (N::Local(op, u8_(pc + 1)? as u16), pc + 2),
        0x1A..=0x2D => (N::Local(0x15 + (op - 0x1A) / 4, ((op - 0x1A) % 4) as u16), pc + 1),
        0x3B..=0x4E => (N::Local(0x36 + (op - 0x3B) / 4, ((op - 0x3B) % 4) as u16), pc + 1),
        0x84 => (N::Inc(u8_(pc + 1)? as u16, u8_(pc + 2)? as i8 as i16), pc + 3),
        0x2E..=0x35 | 0x4F..=0x83 | 0x85..=0x98 | 0xAC..=0xB1 | 0xBE | 0xBF | 0xC2 | 0xC3 => (N::Op(op), pc + 1),
        0x99..=0xA8 | 0xC6 | 0xC7 => (N::Jump(op, to(u16_(pc + 1)? as i16 as i32)?), pc + 3),
        0xC8 | 0xC9 => (N::Jump(op - 0xC8 + 0xA7, to(i32_(pc + 1)?)?), pc + 5),
        0xAA => {
            let q = (pc + 4) / 4 * 4;
            let (d, lo, hi) = (i32_(q)?, i32_(q + 4)?, i32_(q + 8)?);
            if hi < lo || (hi as i64 - lo as i64) > code.len() as i64 {
                return None;
            }
            let n = (hi as i64 - lo as i64 + 1) as usize;
            let mut v = vec![];
            for i in 0..n {
                v.push(to(i32_(q + 12 + 4 * i)?)?);
            }
            (N::Table(to(d)?, lo, v), q + 12 + 4 * n)
        }
        0xAB => {
            let q = (pc + 4) / 4 * 4;
            let (d, n) = (i32_(q)?, i32_(q + 4)?);
            if n < 0 || n as usize > code.len() {
                return None;
            }
            let mut v = vec![];
            for i in 0..n as usize {
                v.push((i32_(q + 8 + 8 * i)?, to(i32_(q + 12 + 8 * i)?)?));
            }
            if v.windows(2).any(|w| w[0].0 >= w[1].0) {
                return None; // the keys must be sorted
            }
            (N::Lookup(to(d)?, v), q + 8 + 8 * n as usize)
        }
        0xB2..=0xB8 => (N::Pool(op, member(u16_(pc + 1)?)?), pc + 3),
        0xB9 => {
            if u8_(pc + 4)? != 0 {
                return None;
            }
            (N::Interface(member(u16_(pc + 1)?)?, u8_(pc + 3)?), pc + 5)
        }
        0xBA => {
            if u16_(pc + 3)? != 0 {
                return None;
            }
            let k = p.konst(u16_(pc + 1)?)?;
            if !matches!(k, Konst::Indy(..)) {
                return None;
            }
            (N::Pool(op, k), pc + 5)
        }
        0xBB | 0xBD | 0xC0 | 0xC1 => (N::Pool(op, class_like(p, u16_(pc + 1)?)?), pc + 3),
        0xBC => {
            let t = u8_(pc + 1)?;
            if t < 4 || t > 11 {
                return None;
            }
            (N::NewArr(t), pc + 2)
        }
        0xC4 => match u8_(pc + 1)? {
            o @ (0x15..=0x19 | 0x36..=0x3A | 0xA9) => (N::Local(o, u16_(pc + 2)?), pc + 4),
            0x84 => (N::Inc(u16_(pc + 2)?, u16_(pc + 4)? as i16), pc + 6),
            _ => return None,
        },
        0xC5 => {
            let (k, d) = (class_like(p, u16_(pc + 1)?)?, u8_(pc + 3)?);
            if d == 0 {
                return None;
            }
            if let Konst::Class(c) = &k {
                match parse_desc(c)? {
                    Type::ArrayRef(n, _) if n >= d => {}
                    _ => return None,
                }
            }
            (multi(k, d), pc + 4)
        }
        _ => return None,
    })
}

/// What the symbolic instruction means, with positions for labels. `None`: nothing is emitted.
pub fn norm(i: &Instruction, at: &dyn Fn(&Label) -> Option<u32>) -> Result<Option<N>, String> {
    use Instruction as I;
    let l = |l: &Label| at(l).ok_or_else(|| format!("label {l:?} is nowhere"));
    let local = |t: LocalType| match t {
        LocalType::Int => 0,
        LocalType::Long => 1,
        LocalType::Float => 2,
        LocalType::Double => 3,
        LocalType::Reference => 4,
    };
    let member = |m: &OrDynamic<MemberRef>| match m {
        OrDynamic::Dynamic(d) => k_dyn(d),
        OrDynamic::Static(m) => k_member(m),
    };
    let class_ty = |c: &OrDynamic<ClassType>| match c {
        OrDynamic::Dynamic(d) => k_dyn(d),
        OrDynamic::Static(ClassType::Object(n)) => Konst::Class(n.as_bytes().to_vec()),
        OrDynamic::Static(ClassType::Array(d, t)) => {
            let mut o = vec![b'['; *d as usize];
            desc(t, &mut o);
            Konst::Class(o)
        }
    };
    Ok(Some(match i {
        I::NoOp => N::Op(0x00),
        I::PushNull => N::Op(0x01),
        I::Push(c) => N::Push(k_or(c)),
        I::Pop1 => N::Op(0x57),
        I::Pop2 => N::Op(0x58),
        I::Dup => N::Op(0x59),
        I::DupX1 => N::Op(0x5A),
        I::DupX2 => N::Op(0x5B),
        I::Dup2 => N::Op(0x5C),
        I::Dup2X1 => N::Op(0x5D),
        I::Dup2X2 => N::Op(0x5E),
        I::Swap => N::Op(0x5F),
        I::Jump(c, t) => {
            use JumpCondition::*;
            let op = match c {
                IntegerEqualsZero => 0x99,
                IntegerNotEqualsZero => 0x9A,
                IntegerLessThanZero => 0x9B,
                IntegerGreaterThanOrEqualsZero => 0x9C,
                IntegerGreaterThanZero => 0x9D,
                IntegerLessThanOrEqualsZero => 0x9E,
                IntegerEquals => 0x9F,
                IntegerNotEquals => 0xA0,
                IntegerLessThan => 0xA1,
                IntegerGreaterThanOrEquals => 0xA2,
                IntegerGreaterThan => 0xA3,
                IntegerLessThanOrEquals => 0xA4,
                ReferenceEquals => 0xA5,
                ReferenceNotEquals => 0xA6,
                Always => 0xA7,
                IsNull => 0xC6,
                IsNonNull => 0xC7,
            };
            N::Jump(op, l(t)?)
        }
        I::Jsr(t) => N::Jump(0xA8, l(t)?),
        I::CompareLongs => N::Op(0x94),
        I::CompareFloats(t, n) => N::Op(match (t, n) {
            (FloatType::Float, NaNBehavior::ReturnsNegativeOne) => 0x95,
            (FloatType::Float, NaNBehavior::ReturnsOne) => 0x96,
            (FloatType::Double, NaNBehavior::ReturnsNegativeOne) => 0x97,
            (FloatType::Double, NaNBehavior::ReturnsOne) => 0x98,
        }),
        I::LocalVariable(LoadOrStore::Load, t, i) => N::Local(0x15 + local(*t), *i),
        I::LocalVariable(LoadOrStore::Store, t, i) => N::Local(0x36 + local(*t), *i),
        I::Ret(i) => N::Local(0xA9, *i),
        I::Array(k, t) => N::Op(
            match k {
                LoadOrStore::Load => 0x2E,
                LoadOrStore::Store => 0x4F,
            } + match t {
                ArrayType::Int => 0,
                ArrayType::Long => 1,
                ArrayType::Float => 2,
                ArrayType::Double => 3,
                ArrayType::Reference => 4,
                ArrayType::ByteOrBool => 5,
                ArrayType::Char => 6,
                ArrayType::Short => 7,
            },
        ),
        I::ArrayLength => N::Op(0xBE),
        I::Throw => N::Op(0xBF),
        I::IntOperation(t, o) => {
            let b = match o {
                IntOperation::Add => 0x60,
                IntOperation::Subtract => 0x64,
                IntOperation::Multiply => 0x68,
                IntOperation::Divide => 0x6C,
                IntOperation::Remainder => 0x70,
                IntOperation::Negate => 0x74,
                IntOperation::ShiftLeft => 0x78,
                IntOperation::ShiftRight => 0x7A,
                IntOperation::UnsignedShiftRight => 0x7C,
                IntOperation::And => 0x7E,
                IntOperation::Or => 0x80,
                IntOperation::ExclusiveOr => 0x82,
            };
            N::Op(b + matches!(t, IntType::Long) as u8)
        }
        I::FloatOperation(t, o) => {
            let b = match o {
                FloatOperation::Add => 0x62,
                FloatOperation::Subtract => 0x66,
                FloatOperation::Multiply => 0x6A,
                FloatOperation::Divide => 0x6E,
                FloatOperation::Remainder => 0x72,
                FloatOperation::Negate => 0x76,
            };
            N::Op(b + matches!(t, FloatType::Double) as u8)
        }
        I::CheckCast(c) => N::Pool(0xC0, class_ty(c)),
        I::InstanceOf(c) => N::Pool(0xC1, class_ty(c)),
        I::New(OrDynamic::Static(n)) => N::Pool(0xBB, Konst::Class(n.as_bytes().to_vec())),
        I::New(OrDynamic::Dynamic(d)) => N::Pool(0xBB, k_dyn(d)),
        I::NewArray(OrDynamic::Dynamic(d), n) => match n {
            1 => N::Pool(0xBD, k_dyn(d)),
            n => N::Multi(k_dyn(d), *n),
        },
        I::NewArray(OrDynamic::Static(t), n) => {
            let mut o = vec![b'['; *n as usize];
            desc(t, &mut o);
            multi(Konst::Class(o), *n)
        }
        I::Monitor(MonitorOperation::Enter) => N::Op(0xC2),
        I::Monitor(MonitorOperation::Exit) => N::Op(0xC3),
        I::Conversion(a, b) => {
            use NumberType::*;
            N::Op(match (a, b) {
                (Int, Long) => 0x85,
                (Int, Float) => 0x86,
                (Int, Double) => 0x87,
                (Long, Int) => 0x88,
                (Long, Float) => 0x89,
                (Long, Double) => 0x8A,
                (Float, Int) => 0x8B,
                (Float, Long) => 0x8C,
                (Float, Double) => 0x8D,
                (Double, Int) => 0x8E,
                (Double, Long) => 0x8F,
                (Double, Float) => 0x90,
                (Int, Int) | (Long, Long) | (Float, Float) | (Double, Double) => return Ok(None),
            })
        }
        I::ConvertInt(t) => N::Op(match t {
            BitType::Long => 0x85,
            BitType::Float => 0x86,
            BitType::Double => 0x87,
            BitType::Byte => 0x91,
            BitType::Char => 0x92,
            BitType::Short => 0x93,
            BitType::Int => return Ok(None),
        }),
        I::Return(t) => N::Op(match t {
            None => 0xB1,
            Some(t) => 0xAC + local(*t),
        }),
        I::Field(g, t, m) => {
            let op = match (t, g) {
                (MemberType::Static, GetOrPut::Get) => 0xB2,
                (MemberType::Static, GetOrPut::Put) => 0xB3,
                (MemberType::Virtual, GetOrPut::Get) => 0xB4,
                (MemberType::Virtual, GetOrPut::Put) => 0xB5,
            };
            N::Pool(op, member(m))
        }
        I::InvokeExact(MemberType::Virtual, m) => N::Pool(0xB6, member(m)),
        I::InvokeSpecial(m) => N::Pool(0xB7, member(m)),
        I::InvokeExact(MemberType::Static, m) => N::Pool(0xB8, member(m)),
        I::InvokeInterface(m, c) => N::Interface(member(m), *c),
        I::InvokeDynamic(d) => N::Pool(0xBA, k_dyn(d)),
        I::IntIncrement(v, c) => N::Inc(*v, *c),
        I::TableSwitch { default, low, offsets } => N::Table(l(default)?, *low, offsets.iter().map(l).collect::<Result<_, _>>()?),
        I::LookupSwitch { default, table } => {
            let mut v = vec![];
            for (k, t) in table {
                v.push((*k, l(t)?));
            }
            v.sort();
            N::Lookup(l(default)?, v)
        }
        I::LineNumber(_) | I::Label(_) => return Ok(None),
    }))
}

// ---- annotations

pub fn t_value(v: &AnnotationValue) -> Toks {
    use AnnotationValue as A;
    let t = Toks::new();
    match v {
        A::Byte(b) => t.u8(b'B').k(Konst::Int(*b as i32)),
        A::Char(b) => t.u8(b'C').k(Konst::Int(*b as i32)),
        A::Double(d) => t.u8(b'D').k(Konst::Double(d.0.to_bits())),
        A::Float(d) => t.u8(b'F').k(Konst::Float(d.0.to_bits())),
        A::Int(i) => t.u8(b'I').k(Konst::Int(*i)),
        A::Long(i) => t.u8(b'J').k(Konst::Long(*i)),
        A::Short(i) => t.u8(b'S').k(Konst::Int(*i as i32)),
        A::Boolean(i) => t.u8(b'Z').k(Konst::Int(*i as i32)),
        A::String(s) => t.u8(b's').utf(s),
        A::Enum(ty, n) => t.u8(b'e').k(Konst::Utf8(descs(ty))).utf(n),
        A::Class(None) => t.u8(b'c').k(Konst::Utf8(b"V".to_vec())),
        A::Class(Some(ty)) => t.u8(b'c').k(Konst::Utf8(descs(ty))),
        A::Annotation(a) => t.u8(b'@').then(t_annotation(a)),
        A::Array(v) => t.u8(b'[').vec16(v.iter().map(t_value).collect()),
    }
}
pub type Elements = HashMap<Cow<'static, wtf_8::Wtf8Str>, AnnotationValue>;
pub fn t_elements(ty: &Type, e: &Elements) -> Toks {
    let mut v: Vec<_> = e.iter().collect();
    v.sort_by_key(|x| x.0.as_bytes().to_vec());
    Toks::new().k(Konst::Utf8(descs(ty))).u16(e.len() as u16).any(v.into_iter().map(|(n, v)| Toks::new().utf(n).then(t_value(v))).collect())
}
pub fn t_annotation(a: &Annotation) -> Toks {
    t_elements(&a.annotation_type, &a.element_values)
}
pub fn t_path(p: &[TypePath]) -> Toks {
    Toks::new().vec8(
        p.iter()
            .map(|p| match p {
                TypePath::Array(x) => Toks::new().u8(0).u8(*x),
                TypePath::Nested(x) => Toks::new().u8(1).u8(*x),
                TypePath::TypeBound(x) => Toks::new().u8(2).u8(*x),
                TypePath::TypeArgument(x) => Toks::new().u8(3).u8(*x),
            })
            .collect(),
    )
}
pub fn t_class_target(t: &ClassTypeAnnotationTarget) -> Toks {
    use ClassTypeAnnotationTarget as T;
    match *t {
        T::GenericTypeParameter(a) => Toks::new().u8(0).u8(a),
        T::ExtendsImplementsClause(a) => Toks::new().u8(0x10).u16(a),
        T::GenericTypeParameterBound(a, b) => Toks::new().u8(0x11).u8(a).u8(b),
    }
}
pub fn t_method_target(t: &MethodTypeAnnotationTarget) -> Toks {
    use MethodTypeAnnotationTarget as T;
    match *t {
        T::GenericTypeParameter(a) => Toks::new().u8(1).u8(a),
        T::GenericTypeParameterBound(a, b) => Toks::new().u8(0x12).u8(a).u8(b),
        T::Return => Toks::new().u8(0x14),
        T::Reciever => Toks::new().u8(0x15),
        T::FormalParameter(a) => Toks::new().u8(0x16).u8(a),
        T::Throws(a) => Toks::new().u8(0x17).u16(a),
    }
}
pub fn t_code_target(t: &CodeTypeAnnotationTarget, at: &dyn Fn(&Label) -> u16, catches: &[Catch]) -> Toks {
    use CodeTypeAnnotationTarget as T;
    let vars = |v: &[LocalVarTarget]| {
        Toks::new().vec16(
            v.iter()
                .map(|v| {
                    let (s, e) = (at(&v.start), at(&v.end));
                    Toks::new().u16(s).u16(e.wrapping_sub(s)).u16(v.idx)
                })
                .collect(),
        )
    };
    let n = Toks::new();
    match t {
        T::LocalVariable(v) => n.u8(0x40).then(vars(v)),
        T::ResourceVariable(v) => n.u8(0x41).then(vars(v)),
        T::CatchParameter(c) => n.u8(0x42).u16(catches.iter().position(|x| x == c).unwrap_or(0xDEAD) as u16),
        T::InstanceOf(l) => n.u8(0x43).u16(at(l)),
        T::Constructor(l) => n.u8(0x44).u16(at(l)),
        T::ConstructorRef(l) => n.u8(0x45).u16(at(l)),
        T::MethodRef(l) => n.u8(0x46).u16(at(l)),
        T::Cast(l, i) => n.u8(0x47).u16(at(l)).u8(*i),
        T::GenericConstructor(l, i) => n.u8(0x48).u16(at(l)).u8(*i),
        T::GenericMethod(l, i) => n.u8(0x49).u16(at(l)).u8(*i),
        T::GenericConstructorRef(l, i) => n.u8(0x4A).u16(at(l)).u8(*i),
        T::GenericMethodRef(l, i) => n.u8(0x4B).u16(at(l)).u8(*i),
    }
}
pub fn t_code_annot(a: &CodeTypeAnnotation, at: &dyn Fn(&Label) -> u16, catches: &[Catch]) -> Toks {
    t_code_target(&a.target, at, catches).then(t_path(&a.type_path)).then(t_elements(&a.annotation_type, &a.element_values))
}

// ---- the Code attribute

pub struct RawAttr {
    pub name: Bs,
    pub body: Bs,
}
pub struct RawCode {
    pub max_stack: u16,
    pub max_locals: u16,
    pub code: Bs,
    /// start, end, handler, type index
    pub catches: Vec<[u16; 4]>,
    pub attrs: Vec<RawAttr>,
}
pub struct Cur<'a>(pub &'a [u8], pub usize);
impl<'a> Cur<'a> {
    pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        let b = self.0.get(self.1..self.1.checked_add(n)?)?;
        self.1 += n;
        Some(b)
    }
    pub fn u8(&mut self) -> Option<u8> {
        self.take(1).map(|b| b[0])
    }
    pub fn u16(&mut self) -> Option<u16> {
        self.take(2).map(|b| u16::from_be_bytes([b[0], b[1]]))
    }
    pub fn u32(&mut self) -> Option<u32> {
        self.take(4).map(|b| u32::from_be_bytes(b.try_into().unwrap()))
    }
}
pub fn parse_attrs(c: &mut Cur, p: &dyn Lookup) -> Option<Vec<RawAttr>> {
    let n = c.u16()?;
    let mut v = vec![];
    for _ in 0..n {
        let name = p.utf(c.u16()?)?;
        let l = c.u32()?;
        v.push(RawAttr { name, body: c.take(l as usize)?.to_vec() });
    }
    Some(v)
}
/// JVMS 4.7.3; the whole input must be used.
pub fn parse_code(b: &[u8], p: &dyn Lookup) -> Option<RawCode> {
    let mut c = Cur(b, 0);
    let max_stack = c.u16()?;
    let max_locals = c.u16()?;
    let n = c.u32()?;
    let code = c.take(n as usize)?.to_vec();
    let n = c.u16()?;
    let mut catches = vec![];
    for _ in 0..n {
        catches.push([c.u16()?, c.u16()?, c.u16()?, c.u16()?]);
    }
    let attrs = parse_attrs(&mut c, p)?;
    (c.1 == b.len()).then(|| RawCode { max_stack, max_locals, code, catches, attrs })
}

/// Decides whether the body of a Code attribute means this symbolic code.
pub fn check_code(c: &Code, b: &[u8], p: &dyn Lookup) -> Result<(), String> {
    let raw = parse_code(b, p).ok_or("this is not a Code attribute")?;
    if raw.max_stack != c.max_stack || raw.max_locals != c.max_locals {
        return Err(format!("max_stack {} max_locals {}", raw.max_stack, raw.max_locals));
    }
    if raw.code.len() > 65535 {
        return Err("more than 65535 bytes of code".into());
    }
    // where everything is
    let mut at: HashMap<Label, u32> = HashMap::new();
    let mut lines = vec![];
    let mut found: Vec<(&Instruction, N, Option<N>, usize, usize)> = vec![];
    let mut pc = 0;
    let mut seen = 0;
    for (k, i) in c.code.iter().enumerate() {
        match i {
            Instruction::Label(l) => {
                at.insert(*l, pc as u32);
                seen += 1;
            }
            Instruction::LineNumber(n) => lines.push((pc as u16, *n)),
            _ => {
                let Some(want) = norm(i, &|_| Some(0))? else { continue };
                let (n, next) = decode(&raw.code, pc, p).ok_or_else(|| format!("instruction {k} ({i:?}): the bytes at {pc} are no instruction: {:02x?}", &raw.code[pc.min(raw.code.len())..raw.code.len().min(pc + 12)]))?;
                let start = pc;
                pc = next;
                let mut second = None;
                if let (N::Jump(w, _), N::Jump(f, t)) = (&want, &n) {
                    if !matches!(w, 0xA7 | 0xA8) && *f != *w {
                        // the wide form: the inverted condition skips a goto
                        if *f != negated(*w) {
                            return Err(format!("instruction {k} ({i:?}) is {n:x?}"));
                        }
                        let (m, after) = decode(&raw.code, pc, p).ok_or("nothing follows an inverted condition")?;
                        if *t as usize != after {
                            return Err(format!("instruction {k} ({i:?}): the inverted condition at {start} jumps to {t}, not to {after}"));
                        }
                        second = Some(m);
                        pc = after;
                    }
                }
                found.push((i, n, second, start, pc));
            }
        }
    }
    if pc != raw.code.len() {
        return Err(format!("{} bytes of code are not accounted for", raw.code.len() - pc.min(raw.code.len())));
    }
    if at.len() != seen {
        return Err("a label stands twice".into());
    }
    let pos = |l: &Label| at.get(l).copied();
    for (i, n, second, start, _) in &found {
        let want = norm(i, &pos)?.unwrap();
        match second {
            None => {
                if want != *n {
                    return Err(format!("{i:?} at {start} should be {want:x?} and is {n:x?}"));
                }
            }
            Some(m) => {
                let N::Jump(_, t) = want else { unreachable!() };
                if *m != N::Jump(0xA7, t) {
                    return Err(format!("{i:?} at {start} in wide form should go to {t} and is {m:x?}"));
                }
            }
        }
    }
    let p16 = |l: &Label| -> u16 { pos(l).map_or(0xFFFF, |x| x as u16) };
    // exceptions
    if raw.catches.len() != c.catches.len() {
        return Err(format!("{} exception ranges", raw.catches.len()));
    }
    for (w, f) in c.catches.iter().zip(&raw.catches) {
        for (l, f) in [(w.start, f[0]), (w.end, f[1]), (w.handler, f[2])] {
            if pos(&l) != Some(f as u32) {
                return Err(format!("{w:?}: {l:?} is at {:?}, the table says {f}", pos(&l)));
            }
        }
        let ty = if f[3] == 0 { None } else { Some(p.class(f[3]).ok_or("exception type is no class")?) };
        if ty.as_deref() != w.catch.as_ref().map(|s| s.as_bytes()) {
            return Err(format!("{w:?}: type {ty:?}"));
        }
    }
    // attributes
    let mut f_lines = vec![];
    let (mut f_vars, mut f_types) = (vec![], vec![]);
    let mut rest = vec![];
    for a in &raw.attrs {
        let mut c = Cur(&a.body, 0);
        match &a.name[..] {
            b"LineNumberTable" => {
                let n = c.u16().ok_or("line numbers")?;
                for _ in 0..n {
                    f_lines.push((c.u16().ok_or("line numbers")?, c.u16().ok_or("line numbers")?));
                }
            }
            b"LocalVariableTable" | b"LocalVariableTypeTable" => {
                let n = c.u16().ok_or("variables")?;
                for _ in 0..n {
                    let mut q = || c.u16().ok_or("variables");
                    let v = (q()?, q()?, p.utf(q()?).ok_or("variable name")?, p.utf(q()?).ok_or("variable type")?, q()?);
                    if a.name == b"LocalVariableTable" {
                        f_vars.push(v)
                    } else {
                        f_types.push(v)
                    }
                }
            }
            b"StackMapTable" => continue,
            _ => {
                rest.push(a);
                continue;
            }
        }
        if c.1 != a.body.len() {
            return Err(format!("{} bytes left in {}", a.body.len() - c.1, String::from_utf8_lossy(&a.name)));
        }
    }
    // line numbers stand in the order of the code (entries for one position keep their order)
    f_lines.sort_by_key(|x| x.0);
    if f_lines != lines {
        return Err(format!("line numbers {f_lines:?}, should be {lines:?}"));
    }
    let (mut vars, mut types) = (vec![], vec![]);
    let mut left = rest.iter();
    for a in &c.attrs {
        let toks = match a {
            CodeAttribute::LocalVariables(l) => {
                for v in l {
                    let (Some(s), Some(e)) = (pos(&v.start), pos(&v.end)) else { return Err(format!("a label of {v:?} is nowhere")) };
                    let len = e.checked_sub(s).ok_or("reversed range")?;
                    if let Some(d) = &v.descriptor {
                        vars.push((s as u16, len as u16, v.name.as_bytes().to_vec(), descs(d), v.index));
                    }
                    if let Some(d) = &v.signature {
                        types.push((s as u16, len as u16, v.name.as_bytes().to_vec(), crate::gen::sig_text_field(d), v.index));
                    }
                }
                continue;
            }
            CodeAttribute::Raw(r) => (r.name.as_bytes().to_vec(), Toks::new().b(&r.inner)),
            CodeAttribute::VisibleTypeAnnotations(v) => (b"RuntimeVisibleTypeAnnotations".to_vec(), Toks::new().vec16(v.iter().map(|a| t_code_annot(a, &p16, &c.catches)).collect())),
            CodeAttribute::InvisibleTypeAnnotations(v) => (b"RuntimeInvisibleTypeAnnotations".to_vec(), Toks::new().vec16(v.iter().map(|a| t_code_annot(a, &p16, &c.catches)).collect())),
        };
        let f = left.next().ok_or_else(|| format!("{a:?} is missing"))?;
        if f.name != toks.0 {
            return Err(format!("attribute {:?} where {a:?} should be", String::from_utf8_lossy(&f.name)));
        }
        toks.1.matches_all(&f.body, p).map_err(|e| format!("{a:?}: {e}"))?;
    }
    if let Some(a) = left.next() {
        return Err(format!("unexpected attribute {:?}", String::from_utf8_lossy(&a.name)));
    }
    for (mut w, mut f, n) in [(vars, f_vars, "variables"), (types, f_types, "variable types")] {
        w.sort();
        f.sort();
        if w != f {
            return Err(format!("{n} {f:?}, should be {w:?}"));
        }
    }
    Ok(())
}

// ---- assembling

/// An instruction to assemble: jump targets are indices of instructions.
#[derive(Clone, Debug)]
pub struct Asm {
    pub n: N,
    /// Which of the possible encodings.
    pub form: u8,
}
fn put(o: &mut Bs, op: u8, b: &[u8]) {
    o.push(op);
    o.extend_from_slice(b);
}
/// The bytes of an instruction at `pc` in its given form (the next simpler one if that is impossible).
pub fn assemble(a: &Asm, pc: usize, at: &dyn Fn(u32) -> usize, p: &mut SpecPool) -> Bs {
    let mut o = vec![];
    let off = |t: u32| at(t) as i64 - pc as i64;
    let f = a.form;
    match &a.n {
        N::Op(x) => o.push(*x),
        N::Push(k) => {
            match k {
                Konst::Int(i @ -1..=5) if f % 4 == 0 => o.push((3 + i) as u8),
                Konst::Int(i @ -128..=127) if f % 4 <= 1 => put(&mut o, 0x10, &[*i as u8]),
                Konst::Int(i @ -32768..=32767) if f % 4 <= 2 => put(&mut o, 0x11, &(*i as i16).to_be_bytes()),
                Konst::Long(i @ 0..=1) if f % 2 == 0 => o.push(9 + *i as u8),
                Konst::Float(b) if f % 2 == 0 && [0f32, 1.0, 2.0].iter().any(|x| x.to_bits() == *b) => o.push(0x0B + f32::from_bits(*b) as u8),
                Konst::Double(b) if f % 2 == 0 && [0f64, 1.0].iter().any(|x| x.to_bits() == *b) => o.push(0x0E + f64::from_bits(*b) as u8),
                k => {
                    let i = p.add(k);
                    let wide = match k {
                        Konst::Long(_) | Konst::Double(_) => true,
                        Konst::Dyn(_, _, t) => matches!(&t[..], b"J" | b"D"),
                        _ => false,
                    };
                    if wide {
                        put(&mut o, 0x14, &i.to_be_bytes())
                    } else if i < 256 && f % 8 < 4 {
                        put(&mut o, 0x12, &[i as u8])
                    } else {
                        put(&mut o, 0x13, &i.to_be_bytes())
                    }
                }
            }
        }
        N::Local(op, v) => {
            if *v < 4 && *op != 0xA9 && f % 3 == 0 {
                let b = if *op < 0x36 { 0x1A + (op - 0x15) * 4 } else { 0x3B + (op - 0x36) * 4 };
                o.push(b + *v as u8)
            } else if *v < 256 && f % 3 <= 1 {
                put(&mut o, *op, &[*v as u8])
            } else {
                o.push(0xC4);
                put(&mut o, *op, &v.to_be_bytes())
            }
        }
        N::Inc(v, c) => {
            if *v < 256 && *c >= -128 && *c <= 127 && f % 2 == 0 {
                put(&mut o, 0x84, &[*v as u8, *c as u8])
            } else {
                o.push(0xC4);
                put(&mut o, 0x84, &v.to_be_bytes());
                o.extend_from_slice(&c.to_be_bytes())
            }
        }
        N::Jump(op, t) => {
            if matches!(op, 0xA7 | 0xA8) && f % 2 == 1 {
                put(&mut o, op - 0xA7 + 0xC8, &(off(*t) as i32).to_be_bytes())
            } else {
                put(&mut o, *op, &(off(*t) as i16).to_be_bytes())
            }
        }
        N::Table(d, lo, ts) => {
            o.push(0xAA);
            while (pc + o.len()) % 4 != 0 {
                o.push(f)
            }
            o.extend_from_slice(&(off(*d) as i32).to_be_bytes());
            o.extend_from_slice(&lo.to_be_bytes());
            o.extend_from_slice(&(*lo as i64 + ts.len() as i64 - 1).to_be_bytes()[4..]);
            ts.iter().for_each(|t| o.extend_from_slice(&(off(*t) as i32).to_be_bytes()))
        }
        N::Lookup(d, v) => {
            o.push(0xAB);
            while (pc + o.len()) % 4 != 0 {
                o.push(f)
            }
            o.extend_from_slice(&(off(*d) as i32).to_be_bytes());
            o.extend_from_slice(&(v.len() as u32).to_be_bytes());
            for (k, t) in v {
                o.extend_from_slice(&k.to_be_bytes());
                o.extend_from_slice(&(off(*t) as i32).to_be_bytes());
            }
        }
        N::Pool(op, k) => {
            put(&mut o, *op, &p.add(k).to_be_bytes());
            if *op == 0xBA {
                o.extend_from_slice(&[0, 0])
            }
        }
        N::Interface(k, c) => {
            put(&mut o, 0xB9, &p.add(k).to_be_bytes());
            o.extend_from_slice(&[*c, 0])
        }
        N::NewArr(t) => put(&mut o, 0xBC, &[*t]),
        N::Multi(k, d) => {
            put(&mut o, 0xC5, &p.add(k).to_be_bytes());
            o.push(*d)
        }
    }
    o
}
/// Assembles a method body. Gives the code and the positions (one more than instructions).
pub fn assemble_all(v: &[Asm], p: &mut SpecPool) -> (Bs, Vec<usize>) {
    // sizes do not depend on the targets
    let mut at = vec![];
    let mut pc = 0;
    for a in v {
        at.push(pc);
        pc += assemble(a, pc, &|_| pc, p).len();
    }
    at.push(pc);
    let mut o = vec![];
    for (i, a) in v.iter().enumerate() {
        let b = assemble(a, at[i], &|t| at[t as usize], p);
        o.extend_from_slice(&b);
    }
    (o, at)
}
