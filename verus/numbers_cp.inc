/// Numbers by their entries in the pool.
pub open spec fn entry_in(p: Pool, s: Seq<u8>, i: int) -> Option<(RawConstantEntry, int)> {
    match u16::reads(s, i) { None => None, Some((n, j)) => if p.entries.contains_key(n) { Some((p.entries[n], j)) } else { None } }
}
//@ present src/rw.rs ConstantPoolReadWrite::read_from(cp, reader).map($name)
//@ present src/rw.rs ConstantPoolReadWrite::write_to(&self.0, cp, writer)
//@ drop f32 and f64 stand as TotalF32 and TotalF64, whose impls pass on to those of f32 and f64
impl ConstantPoolReadWrite for i32 {
    open spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(Self, int)> { match entry_in(p, s, i) { Some((RawConstantEntry::Int(n), j)) => Some((n, j)), _ => None } }
    open spec fn good(&self) -> bool { true }
//@ item @expanded fn read_from in impl ConstantPoolReadWrite for i32
//@   errors
//@ end
//@ item @expanded fn write_to in impl ConstantPoolReadWrite for i32
//@ end
}
impl ConstantPoolReadWrite for i64 {
    open spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(Self, int)> { match entry_in(p, s, i) { Some((RawConstantEntry::Long(n), j)) => Some((n, j)), _ => None } }
    open spec fn good(&self) -> bool { true }
//@ item @expanded fn read_from in impl ConstantPoolReadWrite for i64
//@   errors
//@ end
//@ item @expanded fn write_to in impl ConstantPoolReadWrite for i64
//@ end
}
impl ConstantPoolReadWrite for TotalF32 {
    open spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(Self, int)> { match entry_in(p, s, i) { Some((RawConstantEntry::Float(n), j)) => Some((n, j)), _ => None } }
    open spec fn good(&self) -> bool { true }
//@ item @expanded fn read_from in impl ConstantPoolReadWrite for f32
//@   errors
//@ end
//@ item @expanded fn write_to in impl ConstantPoolReadWrite for f32
//@ end
}
impl ConstantPoolReadWrite for TotalF64 {
    open spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(Self, int)> { match entry_in(p, s, i) { Some((RawConstantEntry::Double(n), j)) => Some((n, j)), _ => None } }
    open spec fn good(&self) -> bool { true }
//@ item @expanded fn read_from in impl ConstantPoolReadWrite for f64
//@   errors
//@ end
//@ item @expanded fn write_to in impl ConstantPoolReadWrite for f64
//@ end
}
