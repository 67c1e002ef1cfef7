impl ConstantPoolReadWrite for Label {
    open spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(Self, int)> { match u16::reads(s, i) { None => None, Some((n, j)) => Some(((p.labels)(n as u32), j)) } }
    open spec fn good(&self) -> bool { true }
//@ item src/code/structure.rs fn read_from in impl ConstantPoolReadWrite for Label
//@   subst crate::Result => Result
//@   subst as _ => as u32
//@ end
//@ item src/code/structure.rs fn write_to in impl ConstantPoolReadWrite for Label
//@   subst crate::Result => Result
//@   subst ReadWrite::write_to => u16::write_to
//@ end
}
