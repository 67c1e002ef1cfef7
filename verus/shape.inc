/// The opcodes without operands (chapter 7 of the specification).
pub open spec fn plain(x: Instruction) -> Option<u8> {
    match x {
        Instruction::NoOp => Some(0),
        Instruction::PushNull => Some(1),
        Instruction::Pop1 => Some(87),
        Instruction::Pop2 => Some(88),
        Instruction::Dup => Some(89),
        Instruction::DupX1 => Some(90),
        Instruction::DupX2 => Some(91),
        Instruction::Dup2 => Some(92),
        Instruction::Dup2X1 => Some(93),
        Instruction::Dup2X2 => Some(94),
        Instruction::Swap => Some(95),
        Instruction::CompareLongs => Some(148),
        Instruction::ArrayLength => Some(190),
        Instruction::Throw => Some(191),
        Instruction::Monitor(MonitorOperation::Enter) => Some(194),
        Instruction::Monitor(MonitorOperation::Exit) => Some(195),
        Instruction::IntOperation(IntType::Int, IntOperation::Add) => Some(96),
        Instruction::IntOperation(IntType::Long, IntOperation::Add) => Some(97),
        Instruction::FloatOperation(FloatType::Float, FloatOperation::Add) => Some(98),
        Instruction::FloatOperation(FloatType::Double, FloatOperation::Add) => Some(99),
        Instruction::IntOperation(IntType::Int, IntOperation::Subtract) => Some(100),
        Instruction::IntOperation(IntType::Long, IntOperation::Subtract) => Some(101),
        Instruction::FloatOperation(FloatType::Float, FloatOperation::Subtract) => Some(102),
        Instruction::FloatOperation(FloatType::Double, FloatOperation::Subtract) => Some(103),
        Instruction::IntOperation(IntType::Int, IntOperation::Multiply) => Some(104),
        Instruction::IntOperation(IntType::Long, IntOperation::Multiply) => Some(105),
        Instruction::FloatOperation(FloatType::Float, FloatOperation::Multiply) => Some(106),
        Instruction::FloatOperation(FloatType::Double, FloatOperation::Multiply) => Some(107),
        Instruction::IntOperation(IntType::Int, IntOperation::Divide) => Some(108),
        Instruction::IntOperation(IntType::Long, IntOperation::Divide) => Some(109),
        Instruction::FloatOperation(FloatType::Float, FloatOperation::Divide) => Some(110),
        Instruction::FloatOperation(FloatType::Double, FloatOperation::Divide) => Some(111),
        Instruction::IntOperation(IntType::Int, IntOperation::Remainder) => Some(112),
        Instruction::IntOperation(IntType::Long, IntOperation::Remainder) => Some(113),
        Instruction::FloatOperation(FloatType::Float, FloatOperation::Remainder) => Some(114),
        Instruction::FloatOperation(FloatType::Double, FloatOperation::Remainder) => Some(115),
        Instruction::IntOperation(IntType::Int, IntOperation::Negate) => Some(116),
        Instruction::IntOperation(IntType::Long, IntOperation::Negate) => Some(117),
        Instruction::FloatOperation(FloatType::Float, FloatOperation::Negate) => Some(118),
        Instruction::FloatOperation(FloatType::Double, FloatOperation::Negate) => Some(119),
        Instruction::IntOperation(IntType::Int, IntOperation::ShiftLeft) => Some(120),
        Instruction::IntOperation(IntType::Long, IntOperation::ShiftLeft) => Some(121),
        Instruction::IntOperation(IntType::Int, IntOperation::ShiftRight) => Some(122),
        Instruction::IntOperation(IntType::Long, IntOperation::ShiftRight) => Some(123),
        Instruction::IntOperation(IntType::Int, IntOperation::UnsignedShiftRight) => Some(124),
        Instruction::IntOperation(IntType::Long, IntOperation::UnsignedShiftRight) => Some(125),
        Instruction::IntOperation(IntType::Int, IntOperation::And) => Some(126),
        Instruction::IntOperation(IntType::Long, IntOperation::And) => Some(127),
        Instruction::IntOperation(IntType::Int, IntOperation::Or) => Some(128),
        Instruction::IntOperation(IntType::Long, IntOperation::Or) => Some(129),
        Instruction::IntOperation(IntType::Int, IntOperation::ExclusiveOr) => Some(130),
        Instruction::IntOperation(IntType::Long, IntOperation::ExclusiveOr) => Some(131),
        Instruction::ConvertInt(BitType::Long) => Some(133),
        Instruction::Conversion(NumberType::Int, NumberType::Long) => Some(133),
        Instruction::ConvertInt(BitType::Float) => Some(134),
        Instruction::Conversion(NumberType::Int, NumberType::Float) => Some(134),
        Instruction::ConvertInt(BitType::Double) => Some(135),
        Instruction::Conversion(NumberType::Int, NumberType::Double) => Some(135),
        Instruction::Conversion(NumberType::Long, NumberType::Int) => Some(136),
        Instruction::Conversion(NumberType::Long, NumberType::Float) => Some(137),
        Instruction::Conversion(NumberType::Long, NumberType::Double) => Some(138),
        Instruction::Conversion(NumberType::Float, NumberType::Int) => Some(139),
        Instruction::Conversion(NumberType::Float, NumberType::Long) => Some(140),
        Instruction::Conversion(NumberType::Float, NumberType::Double) => Some(141),
        Instruction::Conversion(NumberType::Double, NumberType::Int) => Some(142),
        Instruction::Conversion(NumberType::Double, NumberType::Long) => Some(143),
        Instruction::Conversion(NumberType::Double, NumberType::Float) => Some(144),
        Instruction::ConvertInt(BitType::Byte) => Some(145),
        Instruction::ConvertInt(BitType::Char) => Some(146),
        Instruction::ConvertInt(BitType::Short) => Some(147),
        Instruction::CompareFloats(FloatType::Float, NaNBehavior::ReturnsNegativeOne) => Some(149),
        Instruction::CompareFloats(FloatType::Float, NaNBehavior::ReturnsOne) => Some(150),
        Instruction::CompareFloats(FloatType::Double, NaNBehavior::ReturnsNegativeOne) => Some(151),
        Instruction::CompareFloats(FloatType::Double, NaNBehavior::ReturnsOne) => Some(152),
        Instruction::Array(LoadOrStore::Load, ArrayType::Int) => Some(46),
        Instruction::Array(LoadOrStore::Store, ArrayType::Int) => Some(79),
        Instruction::Array(LoadOrStore::Load, ArrayType::Long) => Some(47),
        Instruction::Array(LoadOrStore::Store, ArrayType::Long) => Some(80),
        Instruction::Array(LoadOrStore::Load, ArrayType::Float) => Some(48),
        Instruction::Array(LoadOrStore::Store, ArrayType::Float) => Some(81),
        Instruction::Array(LoadOrStore::Load, ArrayType::Double) => Some(49),
        Instruction::Array(LoadOrStore::Store, ArrayType::Double) => Some(82),
        Instruction::Array(LoadOrStore::Load, ArrayType::Reference) => Some(50),
        Instruction::Array(LoadOrStore::Store, ArrayType::Reference) => Some(83),
        Instruction::Array(LoadOrStore::Load, ArrayType::ByteOrBool) => Some(51),
        Instruction::Array(LoadOrStore::Store, ArrayType::ByteOrBool) => Some(84),
        Instruction::Array(LoadOrStore::Load, ArrayType::Char) => Some(52),
        Instruction::Array(LoadOrStore::Store, ArrayType::Char) => Some(85),
        Instruction::Array(LoadOrStore::Load, ArrayType::Short) => Some(53),
        Instruction::Array(LoadOrStore::Store, ArrayType::Short) => Some(86),
        Instruction::Return(Some(LocalType::Int)) => Some(172),
        Instruction::Return(Some(LocalType::Long)) => Some(173),
        Instruction::Return(Some(LocalType::Float)) => Some(174),
        Instruction::Return(Some(LocalType::Double)) => Some(175),
        Instruction::Return(Some(LocalType::Reference)) => Some(176),
        Instruction::Return(None) => Some(177),
        _ => None,
    }
}
mod plain0 {
use super::*;
pub proof fn w0(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((0u8, j)) ensures written(p, s, i, Instruction::NoOp, j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w4(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((89u8, j)) ensures written(p, s, i, Instruction::Dup, j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w8(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((93u8, j)) ensures written(p, s, i, Instruction::Dup2X1, j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w12(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((190u8, j)) ensures written(p, s, i, Instruction::ArrayLength, j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w16(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((96u8, j)) ensures written(p, s, i, Instruction::IntOperation(IntType::Int, IntOperation::Add), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w20(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((100u8, j)) ensures written(p, s, i, Instruction::IntOperation(IntType::Int, IntOperation::Subtract), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w24(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((104u8, j)) ensures written(p, s, i, Instruction::IntOperation(IntType::Int, IntOperation::Multiply), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w28(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((108u8, j)) ensures written(p, s, i, Instruction::IntOperation(IntType::Int, IntOperation::Divide), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w32(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((112u8, j)) ensures written(p, s, i, Instruction::IntOperation(IntType::Int, IntOperation::Remainder), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w36(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((116u8, j)) ensures written(p, s, i, Instruction::IntOperation(IntType::Int, IntOperation::Negate), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w40(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((120u8, j)) ensures written(p, s, i, Instruction::IntOperation(IntType::Int, IntOperation::ShiftLeft), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w44(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((124u8, j)) ensures written(p, s, i, Instruction::IntOperation(IntType::Int, IntOperation::UnsignedShiftRight), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w48(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((128u8, j)) ensures written(p, s, i, Instruction::IntOperation(IntType::Int, IntOperation::Or), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w52(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((133u8, j)) ensures written(p, s, i, Instruction::ConvertInt(BitType::Long), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w56(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((135u8, j)) ensures written(p, s, i, Instruction::ConvertInt(BitType::Double), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w60(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((138u8, j)) ensures written(p, s, i, Instruction::Conversion(NumberType::Long, NumberType::Double), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w64(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((142u8, j)) ensures written(p, s, i, Instruction::Conversion(NumberType::Double, NumberType::Int), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w68(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((146u8, j)) ensures written(p, s, i, Instruction::ConvertInt(BitType::Char), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w72(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((151u8, j)) ensures written(p, s, i, Instruction::CompareFloats(FloatType::Double, NaNBehavior::ReturnsNegativeOne), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w76(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((47u8, j)) ensures written(p, s, i, Instruction::Array(LoadOrStore::Load, ArrayType::Long), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w80(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((49u8, j)) ensures written(p, s, i, Instruction::Array(LoadOrStore::Load, ArrayType::Double), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w84(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((51u8, j)) ensures written(p, s, i, Instruction::Array(LoadOrStore::Load, ArrayType::ByteOrBool), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w88(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((53u8, j)) ensures written(p, s, i, Instruction::Array(LoadOrStore::Load, ArrayType::Short), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w92(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((174u8, j)) ensures written(p, s, i, Instruction::Return(Some(LocalType::Float)), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
}
mod plain1 {
use super::*;
pub proof fn w1(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((1u8, j)) ensures written(p, s, i, Instruction::PushNull, j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w5(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((90u8, j)) ensures written(p, s, i, Instruction::DupX1, j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w9(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((94u8, j)) ensures written(p, s, i, Instruction::Dup2X2, j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w13(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((191u8, j)) ensures written(p, s, i, Instruction::Throw, j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w17(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((97u8, j)) ensures written(p, s, i, Instruction::IntOperation(IntType::Long, IntOperation::Add), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w21(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((101u8, j)) ensures written(p, s, i, Instruction::IntOperation(IntType::Long, IntOperation::Subtract), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w25(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((105u8, j)) ensures written(p, s, i, Instruction::IntOperation(IntType::Long, IntOperation::Multiply), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w29(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((109u8, j)) ensures written(p, s, i, Instruction::IntOperation(IntType::Long, IntOperation::Divide), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w33(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((113u8, j)) ensures written(p, s, i, Instruction::IntOperation(IntType::Long, IntOperation::Remainder), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w37(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((117u8, j)) ensures written(p, s, i, Instruction::IntOperation(IntType::Long, IntOperation::Negate), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w41(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((121u8, j)) ensures written(p, s, i, Instruction::IntOperation(IntType::Long, IntOperation::ShiftLeft), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w45(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((125u8, j)) ensures written(p, s, i, Instruction::IntOperation(IntType::Long, IntOperation::UnsignedShiftRight), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w49(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((129u8, j)) ensures written(p, s, i, Instruction::IntOperation(IntType::Long, IntOperation::Or), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w53(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((133u8, j)) ensures written(p, s, i, Instruction::Conversion(NumberType::Int, NumberType::Long), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w57(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((135u8, j)) ensures written(p, s, i, Instruction::Conversion(NumberType::Int, NumberType::Double), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w61(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((139u8, j)) ensures written(p, s, i, Instruction::Conversion(NumberType::Float, NumberType::Int), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w65(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((143u8, j)) ensures written(p, s, i, Instruction::Conversion(NumberType::Double, NumberType::Long), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w69(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((147u8, j)) ensures written(p, s, i, Instruction::ConvertInt(BitType::Short), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w73(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((152u8, j)) ensures written(p, s, i, Instruction::CompareFloats(FloatType::Double, NaNBehavior::ReturnsOne), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w77(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((80u8, j)) ensures written(p, s, i, Instruction::Array(LoadOrStore::Store, ArrayType::Long), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w81(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((82u8, j)) ensures written(p, s, i, Instruction::Array(LoadOrStore::Store, ArrayType::Double), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w85(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((84u8, j)) ensures written(p, s, i, Instruction::Array(LoadOrStore::Store, ArrayType::ByteOrBool), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w89(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((86u8, j)) ensures written(p, s, i, Instruction::Array(LoadOrStore::Store, ArrayType::Short), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w93(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((175u8, j)) ensures written(p, s, i, Instruction::Return(Some(LocalType::Double)), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
}
mod plain2 {
use super::*;
pub proof fn w2(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((87u8, j)) ensures written(p, s, i, Instruction::Pop1, j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w6(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((91u8, j)) ensures written(p, s, i, Instruction::DupX2, j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w10(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((95u8, j)) ensures written(p, s, i, Instruction::Swap, j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w14(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((194u8, j)) ensures written(p, s, i, Instruction::Monitor(MonitorOperation::Enter), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w18(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((98u8, j)) ensures written(p, s, i, Instruction::FloatOperation(FloatType::Float, FloatOperation::Add), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w22(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((102u8, j)) ensures written(p, s, i, Instruction::FloatOperation(FloatType::Float, FloatOperation::Subtract), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w26(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((106u8, j)) ensures written(p, s, i, Instruction::FloatOperation(FloatType::Float, FloatOperation::Multiply), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w30(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((110u8, j)) ensures written(p, s, i, Instruction::FloatOperation(FloatType::Float, FloatOperation::Divide), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w34(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((114u8, j)) ensures written(p, s, i, Instruction::FloatOperation(FloatType::Float, FloatOperation::Remainder), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w38(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((118u8, j)) ensures written(p, s, i, Instruction::FloatOperation(FloatType::Float, FloatOperation::Negate), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w42(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((122u8, j)) ensures written(p, s, i, Instruction::IntOperation(IntType::Int, IntOperation::ShiftRight), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w46(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((126u8, j)) ensures written(p, s, i, Instruction::IntOperation(IntType::Int, IntOperation::And), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w50(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((130u8, j)) ensures written(p, s, i, Instruction::IntOperation(IntType::Int, IntOperation::ExclusiveOr), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w54(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((134u8, j)) ensures written(p, s, i, Instruction::ConvertInt(BitType::Float), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w58(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((136u8, j)) ensures written(p, s, i, Instruction::Conversion(NumberType::Long, NumberType::Int), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w62(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((140u8, j)) ensures written(p, s, i, Instruction::Conversion(NumberType::Float, NumberType::Long), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w66(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((144u8, j)) ensures written(p, s, i, Instruction::Conversion(NumberType::Double, NumberType::Float), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w70(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((149u8, j)) ensures written(p, s, i, Instruction::CompareFloats(FloatType::Float, NaNBehavior::ReturnsNegativeOne), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w74(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((46u8, j)) ensures written(p, s, i, Instruction::Array(LoadOrStore::Load, ArrayType::Int), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w78(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((48u8, j)) ensures written(p, s, i, Instruction::Array(LoadOrStore::Load, ArrayType::Float), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w82(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((50u8, j)) ensures written(p, s, i, Instruction::Array(LoadOrStore::Load, ArrayType::Reference), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w86(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((52u8, j)) ensures written(p, s, i, Instruction::Array(LoadOrStore::Load, ArrayType::Char), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w90(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((172u8, j)) ensures written(p, s, i, Instruction::Return(Some(LocalType::Int)), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w94(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((176u8, j)) ensures written(p, s, i, Instruction::Return(Some(LocalType::Reference)), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
}
mod plain3 {
use super::*;
pub proof fn w3(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((88u8, j)) ensures written(p, s, i, Instruction::Pop2, j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w7(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((92u8, j)) ensures written(p, s, i, Instruction::Dup2, j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w11(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((148u8, j)) ensures written(p, s, i, Instruction::CompareLongs, j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w15(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((195u8, j)) ensures written(p, s, i, Instruction::Monitor(MonitorOperation::Exit), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w19(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((99u8, j)) ensures written(p, s, i, Instruction::FloatOperation(FloatType::Double, FloatOperation::Add), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w23(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((103u8, j)) ensures written(p, s, i, Instruction::FloatOperation(FloatType::Double, FloatOperation::Subtract), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w27(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((107u8, j)) ensures written(p, s, i, Instruction::FloatOperation(FloatType::Double, FloatOperation::Multiply), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w31(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((111u8, j)) ensures written(p, s, i, Instruction::FloatOperation(FloatType::Double, FloatOperation::Divide), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w35(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((115u8, j)) ensures written(p, s, i, Instruction::FloatOperation(FloatType::Double, FloatOperation::Remainder), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w39(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((119u8, j)) ensures written(p, s, i, Instruction::FloatOperation(FloatType::Double, FloatOperation::Negate), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w43(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((123u8, j)) ensures written(p, s, i, Instruction::IntOperation(IntType::Long, IntOperation::ShiftRight), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w47(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((127u8, j)) ensures written(p, s, i, Instruction::IntOperation(IntType::Long, IntOperation::And), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w51(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((131u8, j)) ensures written(p, s, i, Instruction::IntOperation(IntType::Long, IntOperation::ExclusiveOr), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w55(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((134u8, j)) ensures written(p, s, i, Instruction::Conversion(NumberType::Int, NumberType::Float), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w59(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((137u8, j)) ensures written(p, s, i, Instruction::Conversion(NumberType::Long, NumberType::Float), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w63(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((141u8, j)) ensures written(p, s, i, Instruction::Conversion(NumberType::Float, NumberType::Double), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w67(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((145u8, j)) ensures written(p, s, i, Instruction::ConvertInt(BitType::Byte), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w71(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((150u8, j)) ensures written(p, s, i, Instruction::CompareFloats(FloatType::Float, NaNBehavior::ReturnsOne), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w75(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((79u8, j)) ensures written(p, s, i, Instruction::Array(LoadOrStore::Store, ArrayType::Int), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w79(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((81u8, j)) ensures written(p, s, i, Instruction::Array(LoadOrStore::Store, ArrayType::Float), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w83(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((83u8, j)) ensures written(p, s, i, Instruction::Array(LoadOrStore::Store, ArrayType::Reference), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w87(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((85u8, j)) ensures written(p, s, i, Instruction::Array(LoadOrStore::Store, ArrayType::Char), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w91(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((173u8, j)) ensures written(p, s, i, Instruction::Return(Some(LocalType::Long)), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
pub proof fn w95(p: Pool, s: Seq<u8>, i: int, j: int) requires u8::reads(s, i) == Some((177u8, j)) ensures written(p, s, i, Instruction::Return(None), j) { reveal(operands); reveal(conv); reveal(written); reveal(legal); }
}
proof fn plain_written(p: Pool, s: Seq<u8>, i: int, x: Instruction, j: int)
    requires plain(x) is Some, u8::reads(s, i) == Some((plain(x)->Some_0, j))
    ensures written(p, s, i, x, j)
{
    match x {
        Instruction::NoOp => { plain0::w0(p, s, i, j); }
        Instruction::PushNull => { plain1::w1(p, s, i, j); }
        Instruction::Pop1 => { plain2::w2(p, s, i, j); }
        Instruction::Pop2 => { plain3::w3(p, s, i, j); }
        Instruction::Dup => { plain0::w4(p, s, i, j); }
        Instruction::DupX1 => { plain1::w5(p, s, i, j); }
        Instruction::DupX2 => { plain2::w6(p, s, i, j); }
        Instruction::Dup2 => { plain3::w7(p, s, i, j); }
        Instruction::Dup2X1 => { plain0::w8(p, s, i, j); }
        Instruction::Dup2X2 => { plain1::w9(p, s, i, j); }
        Instruction::Swap => { plain2::w10(p, s, i, j); }
        Instruction::CompareLongs => { plain3::w11(p, s, i, j); }
        Instruction::ArrayLength => { plain0::w12(p, s, i, j); }
        Instruction::Throw => { plain1::w13(p, s, i, j); }
        Instruction::Monitor(MonitorOperation::Enter) => { plain2::w14(p, s, i, j); }
        Instruction::Monitor(MonitorOperation::Exit) => { plain3::w15(p, s, i, j); }
        Instruction::IntOperation(IntType::Int, IntOperation::Add) => { plain0::w16(p, s, i, j); }
        Instruction::IntOperation(IntType::Long, IntOperation::Add) => { plain1::w17(p, s, i, j); }
        Instruction::FloatOperation(FloatType::Float, FloatOperation::Add) => { plain2::w18(p, s, i, j); }
        Instruction::FloatOperation(FloatType::Double, FloatOperation::Add) => { plain3::w19(p, s, i, j); }
        Instruction::IntOperation(IntType::Int, IntOperation::Subtract) => { plain0::w20(p, s, i, j); }
        Instruction::IntOperation(IntType::Long, IntOperation::Subtract) => { plain1::w21(p, s, i, j); }
        Instruction::FloatOperation(FloatType::Float, FloatOperation::Subtract) => { plain2::w22(p, s, i, j); }
        Instruction::FloatOperation(FloatType::Double, FloatOperation::Subtract) => { plain3::w23(p, s, i, j); }
        Instruction::IntOperation(IntType::Int, IntOperation::Multiply) => { plain0::w24(p, s, i, j); }
        Instruction::IntOperation(IntType::Long, IntOperation::Multiply) => { plain1::w25(p, s, i, j); }
        Instruction::FloatOperation(FloatType::Float, FloatOperation::Multiply) => { plain2::w26(p, s, i, j); }
        Instruction::FloatOperation(FloatType::Double, FloatOperation::Multiply) => { plain3::w27(p, s, i, j); }
        Instruction::IntOperation(IntType::Int, IntOperation::Divide) => { plain0::w28(p, s, i, j); }
        Instruction::IntOperation(IntType::Long, IntOperation::Divide) => { plain1::w29(p, s, i, j); }
        Instruction::FloatOperation(FloatType::Float, FloatOperation::Divide) => { plain2::w30(p, s, i, j); }
        Instruction::FloatOperation(FloatType::Double, FloatOperation::Divide) => { plain3::w31(p, s, i, j); }
        Instruction::IntOperation(IntType::Int, IntOperation::Remainder) => { plain0::w32(p, s, i, j); }
        Instruction::IntOperation(IntType::Long, IntOperation::Remainder) => { plain1::w33(p, s, i, j); }
        Instruction::FloatOperation(FloatType::Float, FloatOperation::Remainder) => { plain2::w34(p, s, i, j); }
        Instruction::FloatOperation(FloatType::Double, FloatOperation::Remainder) => { plain3::w35(p, s, i, j); }
        Instruction::IntOperation(IntType::Int, IntOperation::Negate) => { plain0::w36(p, s, i, j); }
        Instruction::IntOperation(IntType::Long, IntOperation::Negate) => { plain1::w37(p, s, i, j); }
        Instruction::FloatOperation(FloatType::Float, FloatOperation::Negate) => { plain2::w38(p, s, i, j); }
        Instruction::FloatOperation(FloatType::Double, FloatOperation::Negate) => { plain3::w39(p, s, i, j); }
        Instruction::IntOperation(IntType::Int, IntOperation::ShiftLeft) => { plain0::w40(p, s, i, j); }
        Instruction::IntOperation(IntType::Long, IntOperation::ShiftLeft) => { plain1::w41(p, s, i, j); }
        Instruction::IntOperation(IntType::Int, IntOperation::ShiftRight) => { plain2::w42(p, s, i, j); }
        Instruction::IntOperation(IntType::Long, IntOperation::ShiftRight) => { plain3::w43(p, s, i, j); }
        Instruction::IntOperation(IntType::Int, IntOperation::UnsignedShiftRight) => { plain0::w44(p, s, i, j); }
        Instruction::IntOperation(IntType::Long, IntOperation::UnsignedShiftRight) => { plain1::w45(p, s, i, j); }
        Instruction::IntOperation(IntType::Int, IntOperation::And) => { plain2::w46(p, s, i, j); }
        Instruction::IntOperation(IntType::Long, IntOperation::And) => { plain3::w47(p, s, i, j); }
        Instruction::IntOperation(IntType::Int, IntOperation::Or) => { plain0::w48(p, s, i, j); }
        Instruction::IntOperation(IntType::Long, IntOperation::Or) => { plain1::w49(p, s, i, j); }
        Instruction::IntOperation(IntType::Int, IntOperation::ExclusiveOr) => { plain2::w50(p, s, i, j); }
        Instruction::IntOperation(IntType::Long, IntOperation::ExclusiveOr) => { plain3::w51(p, s, i, j); }
        Instruction::ConvertInt(BitType::Long) => { plain0::w52(p, s, i, j); }
        Instruction::Conversion(NumberType::Int, NumberType::Long) => { plain1::w53(p, s, i, j); }
        Instruction::ConvertInt(BitType::Float) => { plain2::w54(p, s, i, j); }
        Instruction::Conversion(NumberType::Int, NumberType::Float) => { plain3::w55(p, s, i, j); }
        Instruction::ConvertInt(BitType::Double) => { plain0::w56(p, s, i, j); }
        Instruction::Conversion(NumberType::Int, NumberType::Double) => { plain1::w57(p, s, i, j); }
        Instruction::Conversion(NumberType::Long, NumberType::Int) => { plain2::w58(p, s, i, j); }
        Instruction::Conversion(NumberType::Long, NumberType::Float) => { plain3::w59(p, s, i, j); }
        Instruction::Conversion(NumberType::Long, NumberType::Double) => { plain0::w60(p, s, i, j); }
        Instruction::Conversion(NumberType::Float, NumberType::Int) => { plain1::w61(p, s, i, j); }
        Instruction::Conversion(NumberType::Float, NumberType::Long) => { plain2::w62(p, s, i, j); }
        Instruction::Conversion(NumberType::Float, NumberType::Double) => { plain3::w63(p, s, i, j); }
        Instruction::Conversion(NumberType::Double, NumberType::Int) => { plain0::w64(p, s, i, j); }
        Instruction::Conversion(NumberType::Double, NumberType::Long) => { plain1::w65(p, s, i, j); }
        Instruction::Conversion(NumberType::Double, NumberType::Float) => { plain2::w66(p, s, i, j); }
        Instruction::ConvertInt(BitType::Byte) => { plain3::w67(p, s, i, j); }
        Instruction::ConvertInt(BitType::Char) => { plain0::w68(p, s, i, j); }
        Instruction::ConvertInt(BitType::Short) => { plain1::w69(p, s, i, j); }
        Instruction::CompareFloats(FloatType::Float, NaNBehavior::ReturnsNegativeOne) => { plain2::w70(p, s, i, j); }
        Instruction::CompareFloats(FloatType::Float, NaNBehavior::ReturnsOne) => { plain3::w71(p, s, i, j); }
        Instruction::CompareFloats(FloatType::Double, NaNBehavior::ReturnsNegativeOne) => { plain0::w72(p, s, i, j); }
        Instruction::CompareFloats(FloatType::Double, NaNBehavior::ReturnsOne) => { plain1::w73(p, s, i, j); }
        Instruction::Array(LoadOrStore::Load, ArrayType::Int) => { plain2::w74(p, s, i, j); }
        Instruction::Array(LoadOrStore::Store, ArrayType::Int) => { plain3::w75(p, s, i, j); }
        Instruction::Array(LoadOrStore::Load, ArrayType::Long) => { plain0::w76(p, s, i, j); }
        Instruction::Array(LoadOrStore::Store, ArrayType::Long) => { plain1::w77(p, s, i, j); }
        Instruction::Array(LoadOrStore::Load, ArrayType::Float) => { plain2::w78(p, s, i, j); }
        Instruction::Array(LoadOrStore::Store, ArrayType::Float) => { plain3::w79(p, s, i, j); }
        Instruction::Array(LoadOrStore::Load, ArrayType::Double) => { plain0::w80(p, s, i, j); }
        Instruction::Array(LoadOrStore::Store, ArrayType::Double) => { plain1::w81(p, s, i, j); }
        Instruction::Array(LoadOrStore::Load, ArrayType::Reference) => { plain2::w82(p, s, i, j); }
        Instruction::Array(LoadOrStore::Store, ArrayType::Reference) => { plain3::w83(p, s, i, j); }
        Instruction::Array(LoadOrStore::Load, ArrayType::ByteOrBool) => { plain0::w84(p, s, i, j); }
        Instruction::Array(LoadOrStore::Store, ArrayType::ByteOrBool) => { plain1::w85(p, s, i, j); }
        Instruction::Array(LoadOrStore::Load, ArrayType::Char) => { plain2::w86(p, s, i, j); }
        Instruction::Array(LoadOrStore::Store, ArrayType::Char) => { plain3::w87(p, s, i, j); }
        Instruction::Array(LoadOrStore::Load, ArrayType::Short) => { plain0::w88(p, s, i, j); }
        Instruction::Array(LoadOrStore::Store, ArrayType::Short) => { plain1::w89(p, s, i, j); }
        Instruction::Return(Some(LocalType::Int)) => { plain2::w90(p, s, i, j); }
        Instruction::Return(Some(LocalType::Long)) => { plain3::w91(p, s, i, j); }
        Instruction::Return(Some(LocalType::Float)) => { plain0::w92(p, s, i, j); }
        Instruction::Return(Some(LocalType::Double)) => { plain1::w93(p, s, i, j); }
        Instruction::Return(Some(LocalType::Reference)) => { plain2::w94(p, s, i, j); }
        Instruction::Return(None) => { plain3::w95(p, s, i, j); }
        _ => {}
    }
}
pub open spec fn type_code(t: LocalType) -> u8 { match t { LocalType::Int => 0, LocalType::Long => 1, LocalType::Float => 2, LocalType::Double => 3, LocalType::Reference => 4 } }
pub open spec fn local_op(o: LoadOrStore, t: LocalType) -> u8 { match o { LoadOrStore::Load => (21 + type_code(t)) as u8, LoadOrStore::Store => (54 + type_code(t)) as u8 } }
/// op, and an index of the constant pool with this there.
pub open spec fn at_index<T, F: Pick<T>>(p: Pool, s: Seq<u8>, i: int, c: OrDynamic<T>, j: int) -> bool {
    match u16::reads(s, i) { Some((n, k)) => k == j && or_dynamic_at::<T, F>(p, n) == Some(c), None => false }
}
pub open spec fn local(s: Seq<u8>, o: u8, n: u16, op: u8, i: int, j: int) -> bool {
    if n <= 255 { op == o && u8::reads(s, i) == Some((n as u8, j)) } else { op == 196 && match u8::reads(s, i) { Some((o2, k)) => o2 == o && u16::reads(s, k) == Some((n, j)), None => false } }
}
pub open spec fn push_shape(p: Pool, s: Seq<u8>, c: OrDynamic<Constant>, op: u8, i: int, j: int) -> bool {
    (match c {
        OrDynamic::Static(Constant::I32(n)) => (-1 <= n <= 5 && op == 3 + n && j == i) || (op == 16 && -128 <= n <= 127 && i8::reads(s, i) == Some((n as i8, j))) || (op == 17 && -32768 <= n <= 32767 && i16::reads(s, i) == Some((n as i16, j))),
        OrDynamic::Static(Constant::I64(n)) => 0 <= n <= 1 && op == 9 + n && j == i,
        OrDynamic::Static(Constant::F32(f)) => j == i && (op == 11 && f.bits == 0 || op == 12 && f.bits == 0x3f800000 || op == 13 && f.bits == 0x40000000),
        OrDynamic::Static(Constant::F64(f)) => j == i && (op == 14 && f.bits == 0 || op == 15 && f.bits == 0x3ff0000000000000),
        _ => false,
    })
    || (op == 18 && !two_slots(c) && match u8::reads(s, i) { Some((n, k)) => k == j && or_dynamic_at::<Constant, PickConstant>(p, n as u16) == Some(c), None => false })
    || (op == 19 && !two_slots(c) && match u16::reads(s, i) { Some((n, k)) => k == j && n > 255 && or_dynamic_at::<Constant, PickConstant>(p, n) == Some(c), None => false })
    || (op == 20 && two_slots(c) && match u16::reads(s, i) { Some((n, k)) => k == j && or_dynamic_at::<Constant, PickConstant>(p, n) == Some(c), None => false })
}
pub open spec fn class_found(c: Option<OrDynamic<Str>>, x: OrDynamic<Type>, dim: u8) -> bool {
    match (c, x) {
        (Some(OrDynamic::Static(c)), OrDynamic::Static(t)) => if dim == 1 { component_of(c) == Some(t) } else { rest_of(c, dim) == Some(t) },
        (Some(OrDynamic::Dynamic(d)), OrDynamic::Dynamic(e)) => d == e,
        _ => false,
    }
}
pub open spec fn array_shape(p: Pool, s: Seq<u8>, x: OrDynamic<Type>, dim: u8, op: u8, i: int, j: int) -> bool {
    (op == 188 && dim == 1 && match (x, u8::reads(s, i)) { (OrDynamic::Static(t), Some((n, k))) => k == j && primitive_of(n) == Some(t), _ => false })
    || (op == 189 && dim == 1 && match u16::reads(s, i) { Some((n, k)) => k == j && class_found(or_dynamic_at::<Str, PickClass>(p, n), x, 1), None => false })
    || (op == 197 && dim > 1 && match u16::reads(s, i) { Some((n, k)) => class_found(or_dynamic_at::<Str, PickClass>(p, n), x, dim) && u8::reads(s, k) == Some((dim, j)), None => false })
}
/// The encodings of an instruction, of which `written` says that it is read back.
pub open spec fn shape(p: Pool, s: Seq<u8>, i: int, x: Instruction, j: int) -> bool {
    match u8::reads(s, i) { None => false, Some((op, i1)) => match x {
        Instruction::Push(c) => push_shape(p, s, c, op, i1, j),
        Instruction::LocalVariable(o, t, n) => local(s, local_op(o, t), n, op, i1, j),
        Instruction::Ret(n) => local(s, 169, n, op, i1, j),
        Instruction::IntIncrement(n, c) => if n <= 255 && -128 <= c <= 127 {
            op == 132 && match u8::reads(s, i1) { Some((m, k)) => m == n && i8::reads(s, k) == Some((c as i8, j)), None => false }
        } else {
            op == 196 && match u8::reads(s, i1) { Some((o, k)) => o == 132 && match u16::reads(s, k) { Some((m, l)) => m == n && i16::reads(s, l) == Some((c, j)), None => false }, None => false }
        },
        Instruction::CheckCast(c) => op == 192 && at_index::<ClassType, PickCast>(p, s, i1, c, j),
        Instruction::InstanceOf(c) => op == 193 && at_index::<ClassType, PickCast>(p, s, i1, c, j),
        Instruction::New(c) => op == 187 && at_index::<Str, PickClass>(p, s, i1, c, j),
        Instruction::Field(g, m, c) => op == (match (g, m) { (GetOrPut::Get, MemberType::Static) => 178u8, (GetOrPut::Put, MemberType::Static) => 179u8, (GetOrPut::Get, MemberType::Virtual) => 180u8, (GetOrPut::Put, MemberType::Virtual) => 181u8 }) && at_index::<MemberRef, PickMember>(p, s, i1, c, j),
        Instruction::InvokeExact(m, c) => op == (match m { MemberType::Virtual => 182u8, MemberType::Static => 184u8 }) && at_index::<MemberRef, PickMember>(p, s, i1, c, j),
        Instruction::InvokeSpecial(c) => op == 183 && at_index::<MemberRef, PickMember>(p, s, i1, c, j),
        Instruction::InvokeInterface(c, n) => op == 185 && match u16::reads(s, i1) { Some((_, k)) => at_index::<MemberRef, PickMember>(p, s, i1, c, k) && match u8::reads(s, k) { Some((m, l)) => m == n && u8::reads(s, l) == Some((0u8, j)), None => false }, None => false },
        Instruction::InvokeDynamic(d) => op == 186 && match u16::reads(s, i1) { Some((n, k)) => invokedynamic_at(p, n) == Some(d) && u16::reads(s, k) == Some((0u16, j)), None => false },
        Instruction::NewArray(t, dim) => array_shape(p, s, t, dim, op, i1, j),
        _ => plain(x) == Some(op) && j == i1,
    } }
}
proof fn push_written(p: Pool, s: Seq<u8>, i: int, x: Instruction, j: int)
    requires x is Push, shape(p, s, i, x, j)
    ensures written(p, s, i, x, j)
{ reveal(operands); reveal(conv); reveal(written); reveal(legal); }
proof fn local_written(p: Pool, s: Seq<u8>, i: int, x: Instruction, j: int)
    requires x is LocalVariable || x is Ret || x is IntIncrement, shape(p, s, i, x, j)
    ensures written(p, s, i, x, j)
{ reveal(operands); reveal(conv); reveal(written); reveal(legal); }
proof fn class_written(p: Pool, s: Seq<u8>, i: int, x: Instruction, j: int)
    requires x is CheckCast || x is InstanceOf || x is New || x is NewArray, shape(p, s, i, x, j)
    ensures written(p, s, i, x, j)
{ reveal(operands); reveal(conv); reveal(written); reveal(legal); }
proof fn member_written(p: Pool, s: Seq<u8>, i: int, x: Instruction, j: int)
    requires x is Field || x is InvokeExact || x is InvokeSpecial || x is InvokeInterface || x is InvokeDynamic, shape(p, s, i, x, j)
    ensures written(p, s, i, x, j)
{ reveal(operands); reveal(conv); reveal(written); reveal(legal); }
proof fn shape_written(p: Pool, s: Seq<u8>, i: int, x: Instruction, j: int)
    requires shape(p, s, i, x, j)
    ensures written(p, s, i, x, j)
{
    if x is Push { push_written(p, s, i, x, j); }
    else if x is LocalVariable || x is Ret || x is IntIncrement { local_written(p, s, i, x, j); }
    else if x is CheckCast || x is InstanceOf || x is New || x is NewArray { class_written(p, s, i, x, j); }
    else if x is Field || x is InvokeExact || x is InvokeSpecial || x is InvokeInterface || x is InvokeDynamic { member_written(p, s, i, x, j); }
    else { plain_written(p, s, i, x, j); }
}
