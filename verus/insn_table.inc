/// The instructions of the JVM specification (chapters 6 and 7): opcodes and operands. The operands of the
/// switches are taken to stand right behind the opcode: padding is the affair of the caller.
pub open spec fn i_in(s: Seq<u8>, i: int) -> Option<(I, int)> { match u8::reads(s, i) { None => None, Some((op, j)) => operands(s, j, op) } }
/// What the operands of this opcode, from i1 on, make of it.
#[verifier::opaque]
pub open spec fn operands(s: Seq<u8>, i1: int, op: u8) -> Option<(I, int)> {
    match op {
        0 => Some((I::Nop, i1)),
        1 => Some((I::AConstNull, i1)),
        2 => Some((I::IConstM1, i1)),
        3 => Some((I::IConst0, i1)),
        4 => Some((I::IConst1, i1)),
        5 => Some((I::IConst2, i1)),
        6 => Some((I::IConst3, i1)),
        7 => Some((I::IConst4, i1)),
        8 => Some((I::IConst5, i1)),
        9 => Some((I::LConst0, i1)),
        10 => Some((I::LConst1, i1)),
        11 => Some((I::FConst0, i1)),
        12 => Some((I::FConst1, i1)),
        13 => Some((I::FConst2, i1)),
        14 => Some((I::DConst0, i1)),
        15 => Some((I::DConst1, i1)),
        16 => match i8::reads(s, i1) { Some((a, j)) => Some((I::Bipush(a), j)), None => None },
        17 => match i16::reads(s, i1) { Some((a, j)) => Some((I::Sipush(a), j)), None => None },
        18 => match u8::reads(s, i1) { Some((a, j)) => Some((I::Ldc(a), j)), None => None },
        19 => match u16::reads(s, i1) { Some((a, j)) => Some((I::LdcW(a), j)), None => None },
        20 => match u16::reads(s, i1) { Some((a, j)) => Some((I::Ldc2W(a), j)), None => None },
        21 => match u8::reads(s, i1) { Some((a, j)) => Some((I::ILoad(a), j)), None => None },
        22 => match u8::reads(s, i1) { Some((a, j)) => Some((I::LLoad(a), j)), None => None },
        23 => match u8::reads(s, i1) { Some((a, j)) => Some((I::FLoad(a), j)), None => None },
        24 => match u8::reads(s, i1) { Some((a, j)) => Some((I::DLoad(a), j)), None => None },
        25 => match u8::reads(s, i1) { Some((a, j)) => Some((I::ALoad(a), j)), None => None },
        26 => Some((I::ILoad0, i1)),
        27 => Some((I::ILoad1, i1)),
        28 => Some((I::ILoad2, i1)),
        29 => Some((I::ILoad3, i1)),
        30 => Some((I::LLoad0, i1)),
        31 => Some((I::LLoad1, i1)),
        32 => Some((I::LLoad2, i1)),
        33 => Some((I::LLoad3, i1)),
        34 => Some((I::FLoad0, i1)),
        35 => Some((I::FLoad1, i1)),
        36 => Some((I::FLoad2, i1)),
        37 => Some((I::FLoad3, i1)),
        38 => Some((I::DLoad0, i1)),
        39 => Some((I::DLoad1, i1)),
        40 => Some((I::DLoad2, i1)),
        41 => Some((I::DLoad3, i1)),
        42 => Some((I::ALoad0, i1)),
        43 => Some((I::ALoad1, i1)),
        44 => Some((I::ALoad2, i1)),
        45 => Some((I::ALoad3, i1)),
        46 => Some((I::IALoad, i1)),
        47 => Some((I::LALoad, i1)),
        48 => Some((I::FALoad, i1)),
        49 => Some((I::DALoad, i1)),
        50 => Some((I::AALoad, i1)),
        51 => Some((I::BALoad, i1)),
        52 => Some((I::CALoad, i1)),
        53 => Some((I::SALoad, i1)),
        54 => match u8::reads(s, i1) { Some((a, j)) => Some((I::IStore(a), j)), None => None },
        55 => match u8::reads(s, i1) { Some((a, j)) => Some((I::LStore(a), j)), None => None },
        56 => match u8::reads(s, i1) { Some((a, j)) => Some((I::FStore(a), j)), None => None },
        57 => match u8::reads(s, i1) { Some((a, j)) => Some((I::DStore(a), j)), None => None },
        58 => match u8::reads(s, i1) { Some((a, j)) => Some((I::AStore(a), j)), None => None },
        59 => Some((I::IStore0, i1)),
        60 => Some((I::IStore1, i1)),
        61 => Some((I::IStore2, i1)),
        62 => Some((I::IStore3, i1)),
        63 => Some((I::LStore0, i1)),
        64 => Some((I::LStore1, i1)),
        65 => Some((I::LStore2, i1)),
        66 => Some((I::LStore3, i1)),
        67 => Some((I::FStore0, i1)),
        68 => Some((I::FStore1, i1)),
        69 => Some((I::FStore2, i1)),
        70 => Some((I::FStore3, i1)),
        71 => Some((I::DStore0, i1)),
        72 => Some((I::DStore1, i1)),
        73 => Some((I::DStore2, i1)),
        74 => Some((I::DStore3, i1)),
        75 => Some((I::AStore0, i1)),
        76 => Some((I::AStore1, i1)),
        77 => Some((I::AStore2, i1)),
        78 => Some((I::AStore3, i1)),
        79 => Some((I::IAStore, i1)),
        80 => Some((I::LAStore, i1)),
        81 => Some((I::FAStore, i1)),
        82 => Some((I::DAStore, i1)),
        83 => Some((I::AAStore, i1)),
        84 => Some((I::BAStore, i1)),
        85 => Some((I::CAStore, i1)),
        86 => Some((I::SAStore, i1)),
        87 => Some((I::Pop, i1)),
        88 => Some((I::Pop2, i1)),
        89 => Some((I::Dup, i1)),
        90 => Some((I::Dupx1, i1)),
        91 => Some((I::Dupx2, i1)),
        92 => Some((I::Dup2, i1)),
        93 => Some((I::Dup2x1, i1)),
        94 => Some((I::Dup2x2, i1)),
        95 => Some((I::Swap, i1)),
        96 => Some((I::IAdd, i1)),
        97 => Some((I::LAdd, i1)),
        98 => Some((I::FAdd, i1)),
        99 => Some((I::DAdd, i1)),
        100 => Some((I::ISub, i1)),
        101 => Some((I::LSub, i1)),
        102 => Some((I::FSub, i1)),
        103 => Some((I::DSub, i1)),
        104 => Some((I::IMul, i1)),
        105 => Some((I::LMul, i1)),
        106 => Some((I::FMul, i1)),
        107 => Some((I::DMul, i1)),
        108 => Some((I::IDiv, i1)),
        109 => Some((I::LDiv, i1)),
        110 => Some((I::FDiv, i1)),
        111 => Some((I::DDiv, i1)),
        112 => Some((I::IRem, i1)),
        113 => Some((I::LRem, i1)),
        114 => Some((I::FRem, i1)),
        115 => Some((I::DRem, i1)),
        116 => Some((I::INeg, i1)),
        117 => Some((I::LNeg, i1)),
        118 => Some((I::FNeg, i1)),
        119 => Some((I::DNeg, i1)),
        120 => Some((I::IShl, i1)),
        121 => Some((I::LShl, i1)),
        122 => Some((I::IShr, i1)),
        123 => Some((I::LShr, i1)),
        124 => Some((I::IUshr, i1)),
        125 => Some((I::LUshr, i1)),
        126 => Some((I::IAnd, i1)),
        127 => Some((I::LAnd, i1)),
        128 => Some((I::IOr, i1)),
        129 => Some((I::LOr, i1)),
        130 => Some((I::IXor, i1)),
        131 => Some((I::LXor, i1)),
        132 => match u8::reads(s, i1) { Some((a, j)) => match i8::reads(s, j) { Some((b, k)) => Some((I::IInc(a, b), k)), None => None }, None => None },
        133 => Some((I::I2L, i1)),
        134 => Some((I::I2F, i1)),
        135 => Some((I::I2D, i1)),
        136 => Some((I::L2I, i1)),
        137 => Some((I::L2F, i1)),
        138 => Some((I::L2D, i1)),
        139 => Some((I::F2I, i1)),
        140 => Some((I::F2L, i1)),
        141 => Some((I::F2D, i1)),
        142 => Some((I::D2I, i1)),
        143 => Some((I::D2L, i1)),
        144 => Some((I::D2F, i1)),
        145 => Some((I::I2B, i1)),
        146 => Some((I::I2C, i1)),
        147 => Some((I::I2S, i1)),
        148 => Some((I::LCmp, i1)),
        149 => Some((I::FCmpL, i1)),
        150 => Some((I::FCmpG, i1)),
        151 => Some((I::DCmpL, i1)),
        152 => Some((I::DCmpG, i1)),
        153 => match i16::reads(s, i1) { Some((a, j)) => Some((I::IfEq(a), j)), None => None },
        154 => match i16::reads(s, i1) { Some((a, j)) => Some((I::IfNe(a), j)), None => None },
        155 => match i16::reads(s, i1) { Some((a, j)) => Some((I::IfLt(a), j)), None => None },
        156 => match i16::reads(s, i1) { Some((a, j)) => Some((I::IfGe(a), j)), None => None },
        157 => match i16::reads(s, i1) { Some((a, j)) => Some((I::IfGt(a), j)), None => None },
        158 => match i16::reads(s, i1) { Some((a, j)) => Some((I::IfLe(a), j)), None => None },
        159 => match i16::reads(s, i1) { Some((a, j)) => Some((I::IfICmpEq(a), j)), None => None },
        160 => match i16::reads(s, i1) { Some((a, j)) => Some((I::IfICmpNe(a), j)), None => None },
        161 => match i16::reads(s, i1) { Some((a, j)) => Some((I::IfICmpLt(a), j)), None => None },
        162 => match i16::reads(s, i1) { Some((a, j)) => Some((I::IfICmpGe(a), j)), None => None },
        163 => match i16::reads(s, i1) { Some((a, j)) => Some((I::IfICmpGt(a), j)), None => None },
        164 => match i16::reads(s, i1) { Some((a, j)) => Some((I::IfICmpLe(a), j)), None => None },
        165 => match i16::reads(s, i1) { Some((a, j)) => Some((I::IfACmpEq(a), j)), None => None },
        166 => match i16::reads(s, i1) { Some((a, j)) => Some((I::IfACmpNe(a), j)), None => None },
        167 => match i16::reads(s, i1) { Some((a, j)) => Some((I::Goto(a), j)), None => None },
        168 => match i16::reads(s, i1) { Some((a, j)) => Some((I::Jsr(a), j)), None => None },
        169 => match u8::reads(s, i1) { Some((a, j)) => Some((I::Ret(a), j)), None => None },
        170 => match i32::reads(s, i1) { Some((a, j)) => match TblS::reads(s, j) { Some((b, k)) => Some((I::TableSwitch(a, b), k)), None => None }, None => None },
        171 => match i32::reads(s, i1) { Some((a, j)) => match <Vec32 as ReadWriteAs<Vec<SwitchEntry>>>::reads(s, j) { Some((b, k)) => Some((I::LookupSwitch(a, b), k)), None => None }, None => None },
        172 => Some((I::IReturn, i1)),
        173 => Some((I::LReturn, i1)),
        174 => Some((I::FReturn, i1)),
        175 => Some((I::DReturn, i1)),
        176 => Some((I::AReturn, i1)),
        177 => Some((I::Return, i1)),
        178 => match u16::reads(s, i1) { Some((a, j)) => Some((I::GetStatic(a), j)), None => None },
        179 => match u16::reads(s, i1) { Some((a, j)) => Some((I::PutStatic(a), j)), None => None },
        180 => match u16::reads(s, i1) { Some((a, j)) => Some((I::GetField(a), j)), None => None },
        181 => match u16::reads(s, i1) { Some((a, j)) => Some((I::PutField(a), j)), None => None },
        182 => match u16::reads(s, i1) { Some((a, j)) => Some((I::InvokeVirtual(a), j)), None => None },
        183 => match u16::reads(s, i1) { Some((a, j)) => Some((I::InvokeSpecial(a), j)), None => None },
        184 => match u16::reads(s, i1) { Some((a, j)) => Some((I::InvokeStatic(a), j)), None => None },
        185 => match u16::reads(s, i1) { Some((a, j)) => match u8::reads(s, j) { Some((b, k)) => match u8::reads(s, k) { Some((c, l)) => Some((I::InvokeInterface(a, b, c), l)), None => None }, None => None }, None => None },
        186 => match u16::reads(s, i1) { Some((a, j)) => match u16::reads(s, j) { Some((b, k)) => Some((I::InvokeDynamic(a, b), k)), None => None }, None => None },
        187 => match u16::reads(s, i1) { Some((a, j)) => Some((I::New(a), j)), None => None },
        188 => match u8::reads(s, i1) { Some((a, j)) => Some((I::NewArray(a), j)), None => None },
        189 => match u16::reads(s, i1) { Some((a, j)) => Some((I::ANewArray(a), j)), None => None },
        190 => Some((I::ArrayLength, i1)),
        191 => Some((I::AThrow, i1)),
        192 => match u16::reads(s, i1) { Some((a, j)) => Some((I::CheckCast(a), j)), None => None },
        193 => match u16::reads(s, i1) { Some((a, j)) => Some((I::InstanceOf(a), j)), None => None },
        194 => Some((I::MonitorEnter, i1)),
        195 => Some((I::MonitorExit, i1)),
        196 => match Wide::reads(s, i1) { Some((a, j)) => Some((I::Wide(a), j)), None => None },
        197 => match u16::reads(s, i1) { Some((a, j)) => match u8::reads(s, j) { Some((b, k)) => Some((I::MultiANewArray(a, b), k)), None => None }, None => None },
        198 => match i16::reads(s, i1) { Some((a, j)) => Some((I::IfNull(a), j)), None => None },
        199 => match i16::reads(s, i1) { Some((a, j)) => Some((I::IfNonNull(a), j)), None => None },
        200 => match i32::reads(s, i1) { Some((a, j)) => Some((I::GotoW(a), j)), None => None },
        201 => match i32::reads(s, i1) { Some((a, j)) => Some((I::JsrW(a), j)), None => None },
        _ => None,
    }
}
