//@ assume the constant pool: what is found at an index, and that what is put stands at the index given in the pool as it is written, is proved in units constants, pool (C07, C08, C09) and for bootstrap methods checked by C19; labels: the label of a position is the same whenever it is asked for
pub trait ConstantPoolReader: Sized {
    spec fn pool(&self) -> Pool;
    fn read_raw(&mut self, idx: u16) -> (r: Option<RawConstantEntry>) ensures final(self).pool() == old(self).pool(), r == (if old(self).pool().entries.contains_key(idx) { Some(old(self).pool().entries[idx]) } else { None });
    fn read_wtf8(&mut self, idx: u16) -> (r: Option<Str>) ensures final(self).pool() == old(self).pool(), r == text_at(old(self).pool(), idx);
    fn read_class(&mut self, idx: u16) -> (r: Option<Str>) ensures final(self).pool() == old(self).pool(), r == class_at(old(self).pool(), idx);
    fn read_indirect_str(&mut self, tag: u8, idx: u16) -> (r: Option<Str>) ensures final(self).pool() == old(self).pool(), r == indirect_at(old(self).pool(), tag, idx);
    fn read_nameandtype(&mut self, idx: u16) -> (r: Option<(Str, Type)>) ensures final(self).pool() == old(self).pool(), r == nat_at(old(self).pool(), idx);
    fn read_constant(&mut self, idx: u16) -> (r: Option<Constant>) ensures final(self).pool() == old(self).pool(), r == constant_at(old(self).pool(), idx);
    fn read_member(&mut self, idx: u16) -> (r: Option<MemberRef>) ensures final(self).pool() == old(self).pool(), r == member_at(old(self).pool(), idx);
    fn read_invokedynamic(&mut self, idx: u16) -> (r: Option<Dynamic>) ensures final(self).pool() == old(self).pool(), r == invokedynamic_at(old(self).pool(), idx);
    fn read_or_dynamic<T, F: Pick<T>>(&mut self, idx: u16, f: F) -> (r: Option<OrDynamic<T>>) ensures final(self).pool() == old(self).pool(), r == or_dynamic_at::<T, F>(old(self).pool(), idx);
    fn read_int(&mut self, idx: u16) -> (r: Option<i32>) ensures final(self).pool() == old(self).pool(), r == match constant_at(old(self).pool(), idx) { Some(Constant::I32(n)) => Some(n), _ => None };
    fn read_long(&mut self, idx: u16) -> (r: Option<i64>) ensures final(self).pool() == old(self).pool(), r == match constant_at(old(self).pool(), idx) { Some(Constant::I64(n)) => Some(n), _ => None };
    fn read_float(&mut self, idx: u16) -> (r: Option<TotalF32>) ensures final(self).pool() == old(self).pool(), r == match constant_at(old(self).pool(), idx) { Some(Constant::F32(n)) => Some(n), _ => None };
    fn read_double(&mut self, idx: u16) -> (r: Option<TotalF64>) ensures final(self).pool() == old(self).pool(), r == match constant_at(old(self).pool(), idx) { Some(Constant::F64(n)) => Some(n), _ => None };
    fn get_label(&mut self, idx: u32) -> (r: Label) ensures final(self).pool() == old(self).pool(), r == (old(self).pool().labels)(idx);
    fn get_catch(&mut self, idx: u16) -> (r: Option<Catch>) ensures final(self).pool() == old(self).pool(), r == (if old(self).pool().catches.contains_key(idx) { Some(old(self).pool().catches[idx]) } else { None });
}
pub trait ConstantPoolWriter: Sized {
    spec fn pool(&self) -> Pool;
    fn insert_raw(&mut self, value: RawConstantEntry) -> (r: u16) ensures final(self).pool() == old(self).pool(), r != 0, old(self).pool().entries.contains_pair(r, value);
    fn insert_wtf8(&mut self, st: Str) -> (r: u16) ensures final(self).pool() == old(self).pool(), r != 0, text_at(old(self).pool(), r) == Some(st);
    fn insert_class(&mut self, c: Str) -> (r: u16) ensures final(self).pool() == old(self).pool(), class_at(old(self).pool(), r) == Some(c), r != 0, dynamic_at(old(self).pool(), r) is None;
    fn insert_indirect_str(&mut self, tag: u8, st: Str) -> (r: u16)
        requires tag == 7 || tag == 8 || tag == 19 || tag == 20
        ensures final(self).pool() == old(self).pool(), indirect_at(old(self).pool(), tag, r) == Some(st), r != 0;
    fn insert_nameandtype(&mut self, name: Str, descriptor: Str) -> (r: u16) ensures final(self).pool() == old(self).pool(), r != 0, type_of(descriptor@) is Some ==> nat_at(old(self).pool(), r) == Some((name, type_of(descriptor@)->Some_0));
    fn insert_constant(&mut self, value: Constant) -> (r: u16) ensures final(self).pool() == old(self).pool(), r != 0, fine_constant(value) ==> constant_at(old(self).pool(), r) == Some(value) && dynamic_at(old(self).pool(), r) is None;
    fn insert_member(&mut self, mem: MemberRef) -> (r: u16) ensures final(self).pool() == old(self).pool(), r != 0, fine_member(mem) ==> member_at(old(self).pool(), r) == Some(mem) && dynamic_at(old(self).pool(), r) is None;
    fn insert_dynamic(&mut self, d: Dynamic) -> (r: u16)
        ensures final(self).pool() == old(self).pool(), fine_dynamic(d) ==> (if d.descriptor is Method { invokedynamic_at(old(self).pool(), r) == Some(d) } else { dynamic_at(old(self).pool(), r) == Some(d) });
    fn insert_ordynamic<T, F: Pick<T>>(&mut self, or_dyn: OrDynamic<T>, f: F) -> (r: u16)
        ensures final(self).pool() == old(self).pool(), fine_or::<T, F>(or_dyn) ==> or_dynamic_at::<T, F>(old(self).pool(), r) == Some(or_dyn);
    fn insert_int(&mut self, i: i32) -> (r: u16) ensures final(self).pool() == old(self).pool(), r != 0, old(self).pool().entries.contains_pair(r, RawConstantEntry::Int(i));
    fn insert_long(&mut self, l: i64) -> (r: u16) ensures final(self).pool() == old(self).pool(), r != 0, old(self).pool().entries.contains_pair(r, RawConstantEntry::Long(l));
    fn insert_float(&mut self, f: TotalF32) -> (r: u16) ensures final(self).pool() == old(self).pool(), r != 0, old(self).pool().entries.contains_pair(r, RawConstantEntry::Float(f));
    fn insert_double(&mut self, d: TotalF64) -> (r: u16) ensures final(self).pool() == old(self).pool(), r != 0, old(self).pool().entries.contains_pair(r, RawConstantEntry::Double(d));
    fn label(&mut self, lbl: &Label) -> (r: u16) ensures final(self).pool() == old(self).pool(), (old(self).pool().labels)(r as u32) == *lbl;
    fn catch(&mut self, catch: &Catch) -> (r: Option<u16>) ensures final(self).pool() == old(self).pool(), r is Some ==> old(self).pool().catches.contains_pair(r->Some_0, *catch);
}
