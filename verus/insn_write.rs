// C13: instructions as they are written.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus! {
global size_of usize == 8;
//@ assume usize has 64 bits
//@ include prw.inc
number!(i32, i32_in);
//@ include list.inc
//@ include helper_rw.inc
//@ include cp.inc
//@ include cp_traits.inc
//@ include raw.inc
//@ include insn.inc
//@ include wide.inc
//@ include insn_table.inc
//@ include conv.inc
//@ include conv_table.inc
//@ include written.inc
//@ include shape.inc
//@ include flt.inc
//@ drop what is read of switches and wide instructions stands here without code (it is in unit insn_read)
macro_rules! read_only { ($t: ident, $f: ident) => { verus! {
impl ReadWrite for $t {
    open spec fn reads(s: Seq<u8>, i: int) -> Option<(Self, int)> { $f(s, i) }
    #[verifier::external_body]
    fn read_from<R: Read>(reader: &mut R) -> Result<Self> { unimplemented!() }
    #[verifier::external_body]
    fn write_to<W: Write>(&self, writer: &mut W) -> Result<()> { unimplemented!() }
}
} } }
read_only!(SwitchEntry, entry_in);
read_only!(Wide, wide_in);
read_only!(TblS, tbl_in);
pub type Lbl = Label;
pub type FOp = FloatOperation;
pub type IOp = IntOperation;
//@ consts src/constants/insn.rs
//@ assume comparing a TotalF32 or TotalF64 with a literal compares the bits (C22)
impl PartialEqSpecImpl<Flt> for TotalF32 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Flt) -> bool { self.bits == o.b32 } }
impl PartialEq<Flt> for TotalF32 { fn eq(&self, o: &Flt) -> bool { self.bits == o.b32 } }
impl PartialEqSpecImpl<Flt> for TotalF64 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Flt) -> bool { self.bits == o.b64 } }
impl PartialEq<Flt> for TotalF64 { fn eq(&self, o: &Flt) -> bool { self.bits == o.b64 } }
//@ drop Cursor<Vec<u8>>: a stand-in by the bytes written, always at the end; HashMap: by its map
pub struct Cursor<T> { pub v: T }
impl Write for Cursor<Vec<u8>> {
    open spec fn out(&self) -> Seq<u8> { self.v@ }
    open spec fn sure(&self) -> bool { true }
    #[verifier::external_body]
    fn write_all(&mut self, b: &[u8]) -> Result<()> { unimplemented!() }
}
impl Cursor<Vec<u8>> {
    #[verifier::external_body]
    pub fn new(v: Vec<u8>) -> (r: Self) requires v@.len() == 0 ensures r.v == v { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: Vec<u8>) ensures r == self.v { unimplemented!() }
    #[verifier::external_body]
    pub fn position(&self) -> (r: u64) ensures r == self.out().len() { unimplemented!() }
}
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { pub m: Ghost<Map<K, V>> }
impl<K, V> HashMap<K, V> {
    pub open spec fn view(&self) -> Map<K, V> { self.m@ }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
}
impl Str {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<u32>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push_char(&mut self, c: char) ensures final(self)@ == old(self)@.push(c as u32) { unimplemented!() }
}
//@ assume write_type appends the text of the descriptor (C10, unit descriptor)
#[verifier::external_body]
pub fn write_type(ty: &Type, s: &mut Str) ensures final(s)@ == old(s)@ + text_of(*ty) { unimplemented!() }
#[verifier::external_body]
pub fn type_str(ty: &Type) -> (r: Str) ensures r@ == text_of(*ty) { unimplemented!() }
impl Type {
//@ item @expanded fn is_wide in impl Type
//@   pub
//@   ret r
//@   spec
//@   | ensures r == (*self is Long || *self is Double)
//@ end
}
impl Constant {
//@ item @expanded fn is_wide in impl Constant
//@   pub
//@   subst const fn => fn
//@   ret r
//@   spec
//@   | ensures r == (*self is I64 || *self is F64)
//@ end
}
//@ drop the class operands of casts: insert_ordynamic with |w, x| w.insert_class(x.into()) is taken to insert the class of what the conversion below gives
//@ item src/code/structure.rs fn from in impl From<ClassType> for Cow<'static, Wtf8Str>
//@   subst -> Self => -> Str
//@   subst Cow::Owned((&Type::ArrayRef(dim, Box::new(ty))).into()) => type_str(&Type::ArrayRef(dim, Box::new(ty)))
//@   ret r
//@   spec
//@   | ensures r@ == cast_text(t)
//@ end
/// The class that stands for this one is read as it.
proof fn cast_back(c: ClassType, s: Str)
    requires fine_cast(c), s@ == cast_text(c)
    ensures cast_of(s) == Some(c)
{
    broadcast use c10_back, c10_array, c10_bracket, str_same;
}
/// What is read of the text of an array of more dimensions.
proof fn array_text(t: Type, dim: u8, s: Seq<u32>)
    requires fine_array(t, dim), dim > 1, s == Seq::new(dim as nat, |i: int| '[' as u32) + text_of(t)
    ensures type_of(s) == Some(match t { Type::ArrayRef(d, e) => Type::ArrayRef((d + dim) as u8, e), _ => Type::ArrayRef(dim, Box::new(t)) })
{
    broadcast use c10_back, c10_array;
    let w = match t { Type::ArrayRef(d, e) => Type::ArrayRef((d + dim) as u8, e), _ => Type::ArrayRef(dim, Box::new(t)) };
    match t { Type::ArrayRef(d, e) => { c10_array(d, e); c10_array((d + dim) as u8, e); }, _ => { c10_array(dim, Box::new(t)); } }
    assert(fine(w));
    assert(s =~= text_of(w));
}
//@ item src/code/convert.rs fn primitive_code
//@   ret r
//@   spec
//@   | ensures match r { Some(n) => primitive_of(n) == Some(*ty), None => fine(*ty) ==> *ty is Ref || *ty is ArrayRef }
//@ end
//@ item src/code/convert.rs fn new_array_class
//@   errors
//@   subst Cow<'static, Wtf8Str> => Str
//@   subst Wtf8String::new() => Str::new()
//@   subst Cow::Owned(s) => s
//@   ret r
//@   spec
//@   | ensures match r { Ok(c) => fine_array(*ty, dim) && (dim == 1 ==> *ty is Ref || *ty is ArrayRef) ==> if dim == 1 { component_of(c) == Some(*ty) } else { rest_of(c, dim) == Some(*ty) }, Err(_) => !fine_array(*ty, dim) }
//@   start
//@   | broadcast use c10_back, c10_array, c10_bracket, str_same;
//@   iter 0 it
//@   loop 0
//@   | invariant s@ =~= Seq::new(it.index() as nat, |i: int| '[' as u32),
//@   after write_type(ty, &mut s);
//@   | proof { if fine_array(*ty, dim) && dim > 1 { array_text(*ty, dim, s@); } }
//@ end
pub struct Conv;
impl Conv {
//@ item @expanded fn write_insn in impl Conv
//@   macros
//@   floats
//@   errors
//@   subst use std::convert::TryFrom; => 
//@   subst |w, x| w.insert_class(x.into()) => PickCast
//@   subst |w, x| w.insert_class(x) => PickClass
//@   subst ConstantPoolWriter::insert_constant => PickConstant
//@   subst ConstantPoolWriter::insert_member => PickMember
//@   subst unwrap_or_default() => unwrap_or(0)
//@   start
//@   | let ghost n0 = cursor.out().len() as int; let ghost p = cp.pool();
//@   parts 8 match *insn
//@   arms match *insn
//@   | assert(!branching(*insn) && !(*insn is Label) && !(*insn is LineNumber) && !silent(*insn) && fine_insn(*insn) ==> forall|s: Seq<u8>| #[trigger] pre(cursor.out(), s) ==> shape(p, s, n0, *insn, cursor.out().len() as int));
//@   before Ok(cursor)
//@   | proof {
//@   |     if !branching(*insn) && !(*insn is Label) && !(*insn is LineNumber) && !silent(*insn) && fine_insn(*insn) {
//@   |         assert forall|s: Seq<u8>| #[trigger] pre(cursor.out(), s) implies written(p, s, n0, *insn, cursor.out().len() as int) by { assert(shape(p, s, n0, *insn, cursor.out().len() as int)); shape_written(p, s, n0, *insn, cursor.out().len() as int); }
//@   |     }
//@   | }
//@   ret r
//@   spec
//@   | ensures final(cp).pool() == old(cp).pool(),
//@   |     match r {
//@   |         Err(_) => !fine_insn(*insn),
//@   |         Ok(c) => match *insn {
//@   |             Instruction::Label(l) => c.out() == cursor.out() && final(buf)@ == old(buf)@ && final(jumps)@ == old(jumps)@ && final(line_numbers)@ == old(line_numbers)@
//@   |                 && final(labels)@ == old(labels)@.insert(l, (old(buf)@.len() as usize, cursor.out().len() as usize)),
//@   |             Instruction::LineNumber(n) => c.out() == cursor.out() && final(buf)@ == old(buf)@ && final(jumps)@ == old(jumps)@ && final(labels)@ == old(labels)@
//@   |                 && final(line_numbers)@ == old(line_numbers)@.push(((old(buf)@.len() as usize, cursor.out().len() as usize), n)),
//@   |             _ => final(labels)@ == old(labels)@ && final(line_numbers)@ == old(line_numbers)@
//@   |                 && if branching(*insn) {
//@   |                     c.out().len() == 0 && final(buf)@ == old(buf)@.push(cursor.v) && final(jumps)@ == old(jumps)@.push(insn)
//@   |                 } else {
//@   |                     final(buf)@ == old(buf)@ && final(jumps)@ == old(jumps)@ && pre(cursor.out(), c.out())
//@   |                     && (silent(*insn) ==> c.out() == cursor.out())
//@   |                     && (!silent(*insn) && fine_insn(*insn) ==> forall|s: Seq<u8>| #[trigger] pre(c.out(), s) ==> written(old(cp).pool(), s, cursor.out().len() as int, *insn, c.out().len() as int))
//@   |                 },
//@   |         },
//@   |     }
//@ end
}
fn main() {}
}
