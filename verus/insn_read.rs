// C12: instructions as they are read from code.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ assume usize has 64 bits
//@ include prw.inc
number!(i32, i32_in);
//@ include list.inc
//@ include helper_rw.inc
//@ item src/insn.rs struct SwitchEntry
//@   pub
//@   bare
//@ end
//@ item src/insn.rs enum Wide
//@   pub
//@   bare
//@ end
//@ item src/insn.rs struct TableSwitch
//@   pub
//@   bare
//@ end
//@ item src/insn.rs enum Instruction
//@   pub
//@   bare
//@ end
pub type I = Instruction;
pub type TblS = TableSwitch;
//@ include wide.inc
//@ include insn_table.inc
impl ReadWrite for SwitchEntry {
    open spec fn reads(s: Seq<u8>, i: int) -> Option<(Self, int)> { entry_in(s, i) }
//@ item @expanded fn read_from in impl ReadWrite for SwitchEntry
//@   ret r
//@ end
//@ item @expanded fn write_to in impl ReadWrite for SwitchEntry
//@ end
}
impl ReadWrite for Wide {
    open spec fn reads(s: Seq<u8>, i: int) -> Option<(Self, int)> { wide_in(s, i) }
//@ item @expanded fn read_from in impl ReadWrite for Wide
//@   errors
//@ end
//@ item @expanded fn write_to in impl ReadWrite for Wide
//@ end
}
impl ReadWrite for TableSwitch {
    open spec fn reads(s: Seq<u8>, i: int) -> Option<(Self, int)> { tbl_in(s, i) }
//@ item src/insn.rs fn read_from in impl ReadWrite for TableSwitch
//@   errors
//@   subst std::io::Read => Read
//@   subst T => R
//@   subst low..=high => upto(low, high)
//@   forloop 0 it
//@   before let mut offsets
//@   | let ghost at = reader.pos(); let ghost s = reader.data(); let ghost n = high - low + 1;
//@   loop 0
//@   | invariant reader.data() == s, 0 <= it.at - low <= n, it.end == high, many::<Identity, i32>(s, at, it.at - low) == Some((offsets@, reader.pos())), n == high - low + 1, n > 0,
//@   |     TableSwitch::reads(s, old(reader).pos()) == match many::<Identity, i32>(s, at, n) { None => None, Some((v, j)) => Some((TableSwitch { low, high, offsets: list(v) }, j)) },
//@   |     s == old(reader).data(),
//@   | ensures it.at - low == n
//@   | decreases n - (it.at - low)
//@   loopstart 0
//@   | proof { if many::<Identity, i32>(s, at, it.at - low) is None { many_stops::<Identity, i32>(s, at, it.at - low, n); } }
//@ end
    #[verifier::external_body]
    fn write_to<W: Write>(&self, writer: &mut W) -> Result<()> { unimplemented!() }
}
//@ drop the writing of raw instructions, which is never called (code is written by write_insn)
impl ReadWrite for Instruction {
    open spec fn reads(s: Seq<u8>, i: int) -> Option<(Self, int)> { i_in(s, i) }
//@ item @expanded fn read_from in impl ReadWrite for Instruction
//@   errors
//@   start
//@   | reveal(operands);
//@   subst h::Vec32 => Vec32
//@ end
    #[verifier::external_body]
    fn write_to<W: Write>(&self, writer: &mut W) -> Result<()> { unimplemented!() }
}
fn main() {}
}
