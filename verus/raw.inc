//@ item src/insn.rs struct SwitchEntry
//@   pub
//@   bare
//@   attr
//@   | #[derive(Copy, Clone)]
//@ end
//@ item src/insn.rs enum Wide
//@   pub
//@   bare
//@   attr
//@   | #[derive(Copy, Clone)]
//@ end
//@ item src/insn.rs struct TableSwitch
//@   pub
//@   bare
//@   subst struct TableSwitch => struct TblS
//@ end
//@ item src/insn.rs enum Instruction
//@   pub
//@   bare
//@   subst enum Instruction => enum I
//@   subst i32, TableSwitch => i32, TblS
//@ end
