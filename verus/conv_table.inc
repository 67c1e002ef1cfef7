/// What each instruction of the JVM specification (chapter 6) says, at `at`, with this constant pool.
#[verifier::opaque]
pub open spec fn conv(x: I, p: Pool, at: int) -> Option<Instruction> {
    match x {
        I::Nop => Some(Instruction::NoOp),
        I::AConstNull => Some(Instruction::PushNull),
        I::AThrow => Some(Instruction::Throw),
        I::Swap => Some(Instruction::Swap),
        I::LCmp => Some(Instruction::CompareLongs),
        I::ArrayLength => Some(Instruction::ArrayLength),
        I::MonitorEnter => Some(Instruction::Monitor(MonitorOperation::Enter)),
        I::MonitorExit => Some(Instruction::Monitor(MonitorOperation::Exit)),
        I::Pop => Some(Instruction::Pop1),
        I::Pop2 => Some(Instruction::Pop2),
        I::Dup => Some(Instruction::Dup),
        I::Dupx1 => Some(Instruction::DupX1),
        I::Dupx2 => Some(Instruction::DupX2),
        I::Dup2 => Some(Instruction::Dup2),
        I::Dup2x1 => Some(Instruction::Dup2X1),
        I::Dup2x2 => Some(Instruction::Dup2X2),
        I::IConstM1 => Some(pushed(Constant::I32(-1i32))),
        I::IConst0 => Some(pushed(Constant::I32(0))),
        I::IConst1 => Some(pushed(Constant::I32(1))),
        I::IConst2 => Some(pushed(Constant::I32(2))),
        I::IConst3 => Some(pushed(Constant::I32(3))),
        I::IConst4 => Some(pushed(Constant::I32(4))),
        I::IConst5 => Some(pushed(Constant::I32(5))),
        I::LConst0 => Some(pushed(Constant::I64(0))),
        I::LConst1 => Some(pushed(Constant::I64(1))),
        I::FConst0 => Some(pushed(Constant::F32(TotalF32 { bits: 0 }))),
        I::FConst1 => Some(pushed(Constant::F32(TotalF32 { bits: 0x3f800000 }))),
        I::FConst2 => Some(pushed(Constant::F32(TotalF32 { bits: 0x40000000 }))),
        I::DConst0 => Some(pushed(Constant::F64(TotalF64 { bits: 0 }))),
        I::DConst1 => Some(pushed(Constant::F64(TotalF64 { bits: 0x3ff0000000000000 }))),
        I::Bipush(b) => Some(pushed(Constant::I32(b as i32))),
        I::Sipush(b) => Some(pushed(Constant::I32(b as i32))),
        I::Ldc(n) => match or_dynamic_at::<Constant, PickConstant>(p, n as u16) { Some(x) => Some(Instruction::Push(x)), None => None },
        I::LdcW(n) => match or_dynamic_at::<Constant, PickConstant>(p, n) { Some(x) => Some(Instruction::Push(x)), None => None },
        I::Ldc2W(n) => match or_dynamic_at::<Constant, PickConstant>(p, n) { Some(x) => Some(Instruction::Push(x)), None => None },
        I::IALoad => Some(Instruction::Array(LoadOrStore::Load, ArrayType::Int)),
        I::LALoad => Some(Instruction::Array(LoadOrStore::Load, ArrayType::Long)),
        I::FALoad => Some(Instruction::Array(LoadOrStore::Load, ArrayType::Float)),
        I::DALoad => Some(Instruction::Array(LoadOrStore::Load, ArrayType::Double)),
        I::AALoad => Some(Instruction::Array(LoadOrStore::Load, ArrayType::Reference)),
        I::BALoad => Some(Instruction::Array(LoadOrStore::Load, ArrayType::ByteOrBool)),
        I::CALoad => Some(Instruction::Array(LoadOrStore::Load, ArrayType::Char)),
        I::SALoad => Some(Instruction::Array(LoadOrStore::Load, ArrayType::Short)),
        I::ILoad0 => Some(Instruction::LocalVariable(LoadOrStore::Load, LocalType::Int, 0)),
        I::ILoad1 => Some(Instruction::LocalVariable(LoadOrStore::Load, LocalType::Int, 1)),
        I::ILoad2 => Some(Instruction::LocalVariable(LoadOrStore::Load, LocalType::Int, 2)),
        I::ILoad3 => Some(Instruction::LocalVariable(LoadOrStore::Load, LocalType::Int, 3)),
        I::ILoad(n) => Some(Instruction::LocalVariable(LoadOrStore::Load, LocalType::Int, n as u16)),
        I::Wide(Wide::ILoad(n)) => Some(Instruction::LocalVariable(LoadOrStore::Load, LocalType::Int, n)),
        I::LLoad0 => Some(Instruction::LocalVariable(LoadOrStore::Load, LocalType::Long, 0)),
        I::LLoad1 => Some(Instruction::LocalVariable(LoadOrStore::Load, LocalType::Long, 1)),
        I::LLoad2 => Some(Instruction::LocalVariable(LoadOrStore::Load, LocalType::Long, 2)),
        I::LLoad3 => Some(Instruction::LocalVariable(LoadOrStore::Load, LocalType::Long, 3)),
        I::LLoad(n) => Some(Instruction::LocalVariable(LoadOrStore::Load, LocalType::Long, n as u16)),
        I::Wide(Wide::LLoad(n)) => Some(Instruction::LocalVariable(LoadOrStore::Load, LocalType::Long, n)),
        I::FLoad0 => Some(Instruction::LocalVariable(LoadOrStore::Load, LocalType::Float, 0)),
        I::FLoad1 => Some(Instruction::LocalVariable(LoadOrStore::Load, LocalType::Float, 1)),
        I::FLoad2 => Some(Instruction::LocalVariable(LoadOrStore::Load, LocalType::Float, 2)),
        I::FLoad3 => Some(Instruction::LocalVariable(LoadOrStore::Load, LocalType::Float, 3)),
        I::FLoad(n) => Some(Instruction::LocalVariable(LoadOrStore::Load, LocalType::Float, n as u16)),
        I::Wide(Wide::FLoad(n)) => Some(Instruction::LocalVariable(LoadOrStore::Load, LocalType::Float, n)),
        I::DLoad0 => Some(Instruction::LocalVariable(LoadOrStore::Load, LocalType::Double, 0)),
        I::DLoad1 => Some(Instruction::LocalVariable(LoadOrStore::Load, LocalType::Double, 1)),
        I::DLoad2 => Some(Instruction::LocalVariable(LoadOrStore::Load, LocalType::Double, 2)),
        I::DLoad3 => Some(Instruction::LocalVariable(LoadOrStore::Load, LocalType::Double, 3)),
        I::DLoad(n) => Some(Instruction::LocalVariable(LoadOrStore::Load, LocalType::Double, n as u16)),
        I::Wide(Wide::DLoad(n)) => Some(Instruction::LocalVariable(LoadOrStore::Load, LocalType::Double, n)),
        I::ALoad0 => Some(Instruction::LocalVariable(LoadOrStore::Load, LocalType::Reference, 0)),
        I::ALoad1 => Some(Instruction::LocalVariable(LoadOrStore::Load, LocalType::Reference, 1)),
        I::ALoad2 => Some(Instruction::LocalVariable(LoadOrStore::Load, LocalType::Reference, 2)),
        I::ALoad3 => Some(Instruction::LocalVariable(LoadOrStore::Load, LocalType::Reference, 3)),
        I::ALoad(n) => Some(Instruction::LocalVariable(LoadOrStore::Load, LocalType::Reference, n as u16)),
        I::Wide(Wide::ALoad(n)) => Some(Instruction::LocalVariable(LoadOrStore::Load, LocalType::Reference, n)),
        I::IAStore => Some(Instruction::Array(LoadOrStore::Store, ArrayType::Int)),
        I::LAStore => Some(Instruction::Array(LoadOrStore::Store, ArrayType::Long)),
        I::FAStore => Some(Instruction::Array(LoadOrStore::Store, ArrayType::Float)),
        I::DAStore => Some(Instruction::Array(LoadOrStore::Store, ArrayType::Double)),
        I::AAStore => Some(Instruction::Array(LoadOrStore::Store, ArrayType::Reference)),
        I::BAStore => Some(Instruction::Array(LoadOrStore::Store, ArrayType::ByteOrBool)),
        I::CAStore => Some(Instruction::Array(LoadOrStore::Store, ArrayType::Char)),
        I::SAStore => Some(Instruction::Array(LoadOrStore::Store, ArrayType::Short)),
        I::IStore0 => Some(Instruction::LocalVariable(LoadOrStore::Store, LocalType::Int, 0)),
        I::IStore1 => Some(Instruction::LocalVariable(LoadOrStore::Store, LocalType::Int, 1)),
        I::IStore2 => Some(Instruction::LocalVariable(LoadOrStore::Store, LocalType::Int, 2)),
        I::IStore3 => Some(Instruction::LocalVariable(LoadOrStore::Store, LocalType::Int, 3)),
        I::IStore(n) => Some(Instruction::LocalVariable(LoadOrStore::Store, LocalType::Int, n as u16)),
        I::Wide(Wide::IStore(n)) => Some(Instruction::LocalVariable(LoadOrStore::Store, LocalType::Int, n)),
        I::LStore0 => Some(Instruction::LocalVariable(LoadOrStore::Store, LocalType::Long, 0)),
        I::LStore1 => Some(Instruction::LocalVariable(LoadOrStore::Store, LocalType::Long, 1)),
        I::LStore2 => Some(Instruction::LocalVariable(LoadOrStore::Store, LocalType::Long, 2)),
        I::LStore3 => Some(Instruction::LocalVariable(LoadOrStore::Store, LocalType::Long, 3)),
        I::LStore(n) => Some(Instruction::LocalVariable(LoadOrStore::Store, LocalType::Long, n as u16)),
        I::Wide(Wide::LStore(n)) => Some(Instruction::LocalVariable(LoadOrStore::Store, LocalType::Long, n)),
        I::FStore0 => Some(Instruction::LocalVariable(LoadOrStore::Store, LocalType::Float, 0)),
        I::FStore1 => Some(Instruction::LocalVariable(LoadOrStore::Store, LocalType::Float, 1)),
        I::FStore2 => Some(Instruction::LocalVariable(LoadOrStore::Store, LocalType::Float, 2)),
        I::FStore3 => Some(Instruction::LocalVariable(LoadOrStore::Store, LocalType::Float, 3)),
        I::FStore(n) => Some(Instruction::LocalVariable(LoadOrStore::Store, LocalType::Float, n as u16)),
        I::Wide(Wide::FStore(n)) => Some(Instruction::LocalVariable(LoadOrStore::Store, LocalType::Float, n)),
        I::DStore0 => Some(Instruction::LocalVariable(LoadOrStore::Store, LocalType::Double, 0)),
        I::DStore1 => Some(Instruction::LocalVariable(LoadOrStore::Store, LocalType::Double, 1)),
        I::DStore2 => Some(Instruction::LocalVariable(LoadOrStore::Store, LocalType::Double, 2)),
        I::DStore3 => Some(Instruction::LocalVariable(LoadOrStore::Store, LocalType::Double, 3)),
        I::DStore(n) => Some(Instruction::LocalVariable(LoadOrStore::Store, LocalType::Double, n as u16)),
        I::Wide(Wide::DStore(n)) => Some(Instruction::LocalVariable(LoadOrStore::Store, LocalType::Double, n)),
        I::AStore0 => Some(Instruction::LocalVariable(LoadOrStore::Store, LocalType::Reference, 0)),
        I::AStore1 => Some(Instruction::LocalVariable(LoadOrStore::Store, LocalType::Reference, 1)),
        I::AStore2 => Some(Instruction::LocalVariable(LoadOrStore::Store, LocalType::Reference, 2)),
        I::AStore3 => Some(Instruction::LocalVariable(LoadOrStore::Store, LocalType::Reference, 3)),
        I::AStore(n) => Some(Instruction::LocalVariable(LoadOrStore::Store, LocalType::Reference, n as u16)),
        I::Wide(Wide::AStore(n)) => Some(Instruction::LocalVariable(LoadOrStore::Store, LocalType::Reference, n)),
        I::IInc(n, c) => Some(Instruction::IntIncrement(n as u16, c as i16)),
        I::Wide(Wide::IInc(n, c)) => Some(Instruction::IntIncrement(n, c)),
        I::Ret(n) => Some(Instruction::Ret(n as u16)),
        I::Wide(Wide::Ret(n)) => Some(Instruction::Ret(n)),
        I::IAdd => Some(Instruction::IntOperation(IntType::Int, IntOperation::Add)),
        I::ISub => Some(Instruction::IntOperation(IntType::Int, IntOperation::Subtract)),
        I::IMul => Some(Instruction::IntOperation(IntType::Int, IntOperation::Multiply)),
        I::IDiv => Some(Instruction::IntOperation(IntType::Int, IntOperation::Divide)),
        I::IRem => Some(Instruction::IntOperation(IntType::Int, IntOperation::Remainder)),
        I::INeg => Some(Instruction::IntOperation(IntType::Int, IntOperation::Negate)),
        I::IShl => Some(Instruction::IntOperation(IntType::Int, IntOperation::ShiftLeft)),
        I::IShr => Some(Instruction::IntOperation(IntType::Int, IntOperation::ShiftRight)),
        I::IUshr => Some(Instruction::IntOperation(IntType::Int, IntOperation::UnsignedShiftRight)),
        I::IAnd => Some(Instruction::IntOperation(IntType::Int, IntOperation::And)),
        I::IOr => Some(Instruction::IntOperation(IntType::Int, IntOperation::Or)),
        I::IXor => Some(Instruction::IntOperation(IntType::Int, IntOperation::ExclusiveOr)),
        I::LAdd => Some(Instruction::IntOperation(IntType::Long, IntOperation::Add)),
        I::LSub => Some(Instruction::IntOperation(IntType::Long, IntOperation::Subtract)),
        I::LMul => Some(Instruction::IntOperation(IntType::Long, IntOperation::Multiply)),
        I::LDiv => Some(Instruction::IntOperation(IntType::Long, IntOperation::Divide)),
        I::LRem => Some(Instruction::IntOperation(IntType::Long, IntOperation::Remainder)),
        I::LNeg => Some(Instruction::IntOperation(IntType::Long, IntOperation::Negate)),
        I::LShl => Some(Instruction::IntOperation(IntType::Long, IntOperation::ShiftLeft)),
        I::LShr => Some(Instruction::IntOperation(IntType::Long, IntOperation::ShiftRight)),
        I::LUshr => Some(Instruction::IntOperation(IntType::Long, IntOperation::UnsignedShiftRight)),
        I::LAnd => Some(Instruction::IntOperation(IntType::Long, IntOperation::And)),
        I::LOr => Some(Instruction::IntOperation(IntType::Long, IntOperation::Or)),
        I::LXor => Some(Instruction::IntOperation(IntType::Long, IntOperation::ExclusiveOr)),
        I::FAdd => Some(Instruction::FloatOperation(FloatType::Float, FloatOperation::Add)),
        I::FSub => Some(Instruction::FloatOperation(FloatType::Float, FloatOperation::Subtract)),
        I::FMul => Some(Instruction::FloatOperation(FloatType::Float, FloatOperation::Multiply)),
        I::FDiv => Some(Instruction::FloatOperation(FloatType::Float, FloatOperation::Divide)),
        I::FRem => Some(Instruction::FloatOperation(FloatType::Float, FloatOperation::Remainder)),
        I::FNeg => Some(Instruction::FloatOperation(FloatType::Float, FloatOperation::Negate)),
        I::FCmpL => Some(Instruction::CompareFloats(FloatType::Float, NaNBehavior::ReturnsNegativeOne)),
        I::FCmpG => Some(Instruction::CompareFloats(FloatType::Float, NaNBehavior::ReturnsOne)),
        I::DAdd => Some(Instruction::FloatOperation(FloatType::Double, FloatOperation::Add)),
        I::DSub => Some(Instruction::FloatOperation(FloatType::Double, FloatOperation::Subtract)),
        I::DMul => Some(Instruction::FloatOperation(FloatType::Double, FloatOperation::Multiply)),
        I::DDiv => Some(Instruction::FloatOperation(FloatType::Double, FloatOperation::Divide)),
        I::DRem => Some(Instruction::FloatOperation(FloatType::Double, FloatOperation::Remainder)),
        I::DNeg => Some(Instruction::FloatOperation(FloatType::Double, FloatOperation::Negate)),
        I::DCmpL => Some(Instruction::CompareFloats(FloatType::Double, NaNBehavior::ReturnsNegativeOne)),
        I::DCmpG => Some(Instruction::CompareFloats(FloatType::Double, NaNBehavior::ReturnsOne)),
        I::I2B => Some(Instruction::ConvertInt(BitType::Byte)),
        I::I2C => Some(Instruction::ConvertInt(BitType::Char)),
        I::I2S => Some(Instruction::ConvertInt(BitType::Short)),
        I::I2L => Some(Instruction::ConvertInt(BitType::Long)),
        I::I2F => Some(Instruction::ConvertInt(BitType::Float)),
        I::I2D => Some(Instruction::ConvertInt(BitType::Double)),
        I::L2I => Some(Instruction::Conversion(NumberType::Long, NumberType::Int)),
        I::L2F => Some(Instruction::Conversion(NumberType::Long, NumberType::Float)),
        I::L2D => Some(Instruction::Conversion(NumberType::Long, NumberType::Double)),
        I::F2I => Some(Instruction::Conversion(NumberType::Float, NumberType::Int)),
        I::F2L => Some(Instruction::Conversion(NumberType::Float, NumberType::Long)),
        I::F2D => Some(Instruction::Conversion(NumberType::Float, NumberType::Double)),
        I::D2I => Some(Instruction::Conversion(NumberType::Double, NumberType::Int)),
        I::D2L => Some(Instruction::Conversion(NumberType::Double, NumberType::Long)),
        I::D2F => Some(Instruction::Conversion(NumberType::Double, NumberType::Float)),
        I::Goto(off) => Some(Instruction::Jump(JumpCondition::Always, lbl(p, at, off as int))),
        I::GotoW(off) => Some(Instruction::Jump(JumpCondition::Always, lbl(p, at, off as int))),
        I::IfEq(off) => Some(Instruction::Jump(JumpCondition::IntegerEqualsZero, lbl(p, at, off as int))),
        I::IfNe(off) => Some(Instruction::Jump(JumpCondition::IntegerNotEqualsZero, lbl(p, at, off as int))),
        I::IfLt(off) => Some(Instruction::Jump(JumpCondition::IntegerLessThanZero, lbl(p, at, off as int))),
        I::IfGe(off) => Some(Instruction::Jump(JumpCondition::IntegerGreaterThanOrEqualsZero, lbl(p, at, off as int))),
        I::IfGt(off) => Some(Instruction::Jump(JumpCondition::IntegerGreaterThanZero, lbl(p, at, off as int))),
        I::IfLe(off) => Some(Instruction::Jump(JumpCondition::IntegerLessThanOrEqualsZero, lbl(p, at, off as int))),
        I::IfICmpEq(off) => Some(Instruction::Jump(JumpCondition::IntegerEquals, lbl(p, at, off as int))),
        I::IfICmpNe(off) => Some(Instruction::Jump(JumpCondition::IntegerNotEquals, lbl(p, at, off as int))),
        I::IfICmpLt(off) => Some(Instruction::Jump(JumpCondition::IntegerLessThan, lbl(p, at, off as int))),
        I::IfICmpGe(off) => Some(Instruction::Jump(JumpCondition::IntegerGreaterThanOrEquals, lbl(p, at, off as int))),
        I::IfICmpGt(off) => Some(Instruction::Jump(JumpCondition::IntegerGreaterThan, lbl(p, at, off as int))),
        I::IfICmpLe(off) => Some(Instruction::Jump(JumpCondition::IntegerLessThanOrEquals, lbl(p, at, off as int))),
        I::IfACmpEq(off) => Some(Instruction::Jump(JumpCondition::ReferenceEquals, lbl(p, at, off as int))),
        I::IfACmpNe(off) => Some(Instruction::Jump(JumpCondition::ReferenceNotEquals, lbl(p, at, off as int))),
        I::IfNull(off) => Some(Instruction::Jump(JumpCondition::IsNull, lbl(p, at, off as int))),
        I::IfNonNull(off) => Some(Instruction::Jump(JumpCondition::IsNonNull, lbl(p, at, off as int))),
        I::Jsr(off) => Some(Instruction::Jsr(lbl(p, at, off as int))),
        I::JsrW(off) => Some(Instruction::Jsr(lbl(p, at, off as int))),
        I::IReturn => Some(Instruction::Return(Some(LocalType::Int))),
        I::LReturn => Some(Instruction::Return(Some(LocalType::Long))),
        I::FReturn => Some(Instruction::Return(Some(LocalType::Float))),
        I::DReturn => Some(Instruction::Return(Some(LocalType::Double))),
        I::AReturn => Some(Instruction::Return(Some(LocalType::Reference))),
        I::Return => Some(Instruction::Return(None)),
        I::TableSwitch(d, t) => Some(Instruction::TableSwitch { default: lbl(p, at, d as int), low: t.low, offsets: list(t.offsets@.map_values(|o: i32| lbl(p, at, o as int))) }),
        I::LookupSwitch(d, t) => Some(Instruction::LookupSwitch { default: lbl(p, at, d as int), table: IndexMap { s: Ghost(table_of(p, at, t@)) } }),
        I::GetStatic(n) => match or_dynamic_at::<MemberRef, PickMember>(p, n) { Some(x) => Some(Instruction::Field(GetOrPut::Get, MemberType::Static, x)), None => None },
        I::GetField(n) => match or_dynamic_at::<MemberRef, PickMember>(p, n) { Some(x) => Some(Instruction::Field(GetOrPut::Get, MemberType::Virtual, x)), None => None },
        I::PutStatic(n) => match or_dynamic_at::<MemberRef, PickMember>(p, n) { Some(x) => Some(Instruction::Field(GetOrPut::Put, MemberType::Static, x)), None => None },
        I::PutField(n) => match or_dynamic_at::<MemberRef, PickMember>(p, n) { Some(x) => Some(Instruction::Field(GetOrPut::Put, MemberType::Virtual, x)), None => None },
        I::InvokeVirtual(n) => match or_dynamic_at::<MemberRef, PickMember>(p, n) { Some(x) => Some(Instruction::InvokeExact(MemberType::Virtual, x)), None => None },
        I::InvokeStatic(n) => match or_dynamic_at::<MemberRef, PickMember>(p, n) { Some(x) => Some(Instruction::InvokeExact(MemberType::Static, x)), None => None },
        I::InvokeSpecial(n) => match or_dynamic_at::<MemberRef, PickMember>(p, n) { Some(x) => Some(Instruction::InvokeSpecial(x)), None => None },
        I::InvokeInterface(n, c, _) => match or_dynamic_at::<MemberRef, PickMember>(p, n) { Some(x) => Some(Instruction::InvokeInterface(x, c)), None => None },
        I::InvokeDynamic(n, _) => match invokedynamic_at(p, n) { Some(x) => Some(Instruction::InvokeDynamic(x)), None => None },
        I::New(n) => match or_dynamic_at::<Str, PickClass>(p, n) { Some(x) => Some(Instruction::New(x)), None => None },
        I::NewArray(n) => match primitive_of(n) { Some(t) => Some(Instruction::NewArray(OrDynamic::Static(t), 1)), None => None },
        I::ANewArray(n) => match or_dynamic_at::<Str, PickClass>(p, n) { Some(OrDynamic::Static(c)) => match component_of(c) { Some(t) => Some(Instruction::NewArray(OrDynamic::Static(t), 1)), None => None }, Some(OrDynamic::Dynamic(d)) => Some(Instruction::NewArray(OrDynamic::Dynamic(d), 1)), None => None },
        I::MultiANewArray(n, dim) => match or_dynamic_at::<Str, PickClass>(p, n) { Some(OrDynamic::Static(c)) => match rest_of(c, dim) { Some(t) => Some(Instruction::NewArray(OrDynamic::Static(t), dim)), None => None }, Some(OrDynamic::Dynamic(d)) => Some(Instruction::NewArray(OrDynamic::Dynamic(d), dim)), None => None },
        I::CheckCast(n) => match or_dynamic_at::<Str, PickClass>(p, n) { Some(OrDynamic::Static(c)) => match cast_of(c) { Some(t) => Some(Instruction::CheckCast(OrDynamic::Static(t))), None => None }, Some(OrDynamic::Dynamic(d)) => Some(Instruction::CheckCast(OrDynamic::Dynamic(d))), None => None },
        I::InstanceOf(n) => match or_dynamic_at::<Str, PickClass>(p, n) { Some(OrDynamic::Static(c)) => match cast_of(c) { Some(t) => Some(Instruction::InstanceOf(OrDynamic::Static(t))), None => None }, Some(OrDynamic::Dynamic(d)) => Some(Instruction::InstanceOf(OrDynamic::Dynamic(d))), None => None },
    }
}
