/// Conversions that do nothing.
pub open spec fn silent(x: Instruction) -> bool {
    match x {
        Instruction::ConvertInt(BitType::Int) => true,
        Instruction::Conversion(NumberType::Int, NumberType::Int) => true,
        Instruction::Conversion(NumberType::Long, NumberType::Long) => true,
        Instruction::Conversion(NumberType::Float, NumberType::Float) => true,
        Instruction::Conversion(NumberType::Double, NumberType::Double) => true,
        _ => false,
    }
}
/// Conversions from int have two names.
pub open spec fn norm(x: Instruction) -> Instruction {
    match x {
        Instruction::Conversion(NumberType::Int, NumberType::Long) => Instruction::ConvertInt(BitType::Long),
        Instruction::Conversion(NumberType::Int, NumberType::Float) => Instruction::ConvertInt(BitType::Float),
        Instruction::Conversion(NumberType::Int, NumberType::Double) => Instruction::ConvertInt(BitType::Double),
        _ => x,
    }
}
pub open spec fn branching(x: Instruction) -> bool { x is Jump || x is Jsr || x is TableSwitch || x is LookupSwitch }
pub struct PickCast;
pub open spec fn fine_cast(c: ClassType) -> bool { match c { ClassType::Object(s) => !bracket(s@), ClassType::Array(d, t) => fine(Type::ArrayRef(d, Box::new(t))) } }
pub open spec fn cast_text(c: ClassType) -> Seq<u32> { match c { ClassType::Object(s) => s@, ClassType::Array(d, t) => text_of(Type::ArrayRef(d, Box::new(t))) } }
impl Pick<ClassType> for PickCast {
    open spec fn at(p: Pool, i: u16) -> Option<ClassType> { match class_at(p, i) { Some(c) => cast_of(c), None => None } }
    open spec fn good(t: ClassType) -> bool { fine_cast(t) }
}
/// An array of this component, with this many dimensions, can be made.
pub open spec fn fine_array(t: Type, dim: u8) -> bool {
    dim >= 1 && fine(t) && match t { Type::ArrayRef(d, _) => d + dim <= 255, Type::Ref(c) => !bracket(c@), _ => true }
}
pub open spec fn fine_insn(x: Instruction) -> bool {
    match x {
        Instruction::Push(c) => fine_or::<Constant, PickConstant>(c),
        Instruction::CheckCast(c) => fine_or::<ClassType, PickCast>(c),
        Instruction::InstanceOf(c) => fine_or::<ClassType, PickCast>(c),
        Instruction::New(c) => fine_or::<Str, PickClass>(c),
        Instruction::NewArray(OrDynamic::Static(t), dim) => fine_array(t, dim),
        Instruction::NewArray(OrDynamic::Dynamic(d), dim) => dim >= 1 && fine_dynamic(d) && !(d.descriptor is Method),
        Instruction::Field(_, _, m) => fine_or::<MemberRef, PickMember>(m),
        Instruction::InvokeExact(_, m) => fine_or::<MemberRef, PickMember>(m),
        Instruction::InvokeSpecial(m) => fine_or::<MemberRef, PickMember>(m),
        Instruction::InvokeInterface(m, _) => fine_or::<MemberRef, PickMember>(m),
        Instruction::InvokeDynamic(d) => fine_dynamic(d) && d.descriptor is Method,
        _ => true,
    }
}
pub open spec fn two_slots(c: OrDynamic<Constant>) -> bool {
    match c { OrDynamic::Static(c) => c is I64 || c is F64, OrDynamic::Dynamic(d) => d.descriptor is Long || d.descriptor is Double }
}
/// What the specification asks of an instruction beyond its operands: the right form of ldc, the bytes that
/// are zero; and that the wide form stands only where it is needed.
#[verifier::opaque]
pub open spec fn legal(x: I, p: Pool) -> bool {
    match x {
        I::Ldc(n) => match or_dynamic_at::<Constant, PickConstant>(p, n as u16) { Some(c) => !two_slots(c), None => false },
        I::LdcW(n) => match or_dynamic_at::<Constant, PickConstant>(p, n) { Some(c) => !two_slots(c) && n > 255, None => false },
        I::Ldc2W(n) => match or_dynamic_at::<Constant, PickConstant>(p, n) { Some(c) => two_slots(c), None => false },
        I::InvokeDynamic(_, z) => z == 0,
        I::InvokeInterface(_, _, z) => z == 0,
        I::Wide(w) => match w {
            Wide::ILoad(n) => n > 255, Wide::LLoad(n) => n > 255, Wide::FLoad(n) => n > 255, Wide::DLoad(n) => n > 255, Wide::ALoad(n) => n > 255,
            Wide::IStore(n) => n > 255, Wide::LStore(n) => n > 255, Wide::FStore(n) => n > 255, Wide::DStore(n) => n > 255, Wide::AStore(n) => n > 255,
            Wide::IInc(n, c) => n > 255 || c < -128 || c > 127,
            Wide::Ret(n) => n > 255,
        },
        _ => true,
    }
}
/// From i up to j of s stands this instruction.
#[verifier::opaque]
pub open spec fn written(p: Pool, s: Seq<u8>, i: int, x: Instruction, j: int) -> bool {
    match i_in(s, i) { Some((y, k)) => k == j && legal(y, p) && conv(y, p, i) == Some(norm(x)), None => false }
}
