// C12: what the instructions read from code mean.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ assume usize has 64 bits
//@ include prw.inc
number!(i32, i32_in);
//@ include list.inc
//@ include cp.inc
//@ include cp_traits.inc
//@ include raw.inc
//@ include insn.inc
//@ include conv.inc
//@ include conv_table.inc
use Instruction::*;
use LoadOrStore::*;
use GetOrPut::*;
use MemberType::*;
pub type FOp = FloatOperation;
pub type IOp = IntOperation;
//@ include flt.inc
#[verifier::external_body]
pub fn unreached() -> (r: ClassType) requires false { unimplemented!() }
//@ assume parse_type is as C10 says (unit descriptor)
#[verifier::external_body]
pub fn parse_type(s: &Str) -> (r: Result<Type>) ensures match r { Ok(t) => type_of(s@) == Some(t), Err(_) => type_of(s@) is None } { unimplemented!() }
impl Str {
    #[verifier::external_body]
    pub fn first(&self) -> (r: Option<u32>) ensures r == (if self@.len() > 0 { Some(self@[0]) } else { None }) { unimplemented!() }
}
//@ item src/code/convert.rs fn class_component
//@   subst Cow<'static, Wtf8Str> => Str
//@   subst c.codepoints().next() => c.first()
//@   subst '[' => '[' as u32
//@   resmap
//@   ret r
//@   spec
//@   | ensures match r { Ok(t) => component_of(c) == Some(t), Err(_) => component_of(c) is None }
//@ end
//@ item src/code/convert.rs fn array_component
//@   subst &Wtf8Str => &Str
//@   errors
//@   ret r
//@   spec
//@   | ensures match r { Ok(t) => rest_of(*c, dim) == Some(t), Err(_) => rest_of(*c, dim) is None }
//@ end
//@ item @expanded fn push in impl Conv
//@   drop push: it is called with constants only, whose conversion (From) makes them OrDynamic::Static
//@   subst <C: Into<OrDynamic<Constant>>> => 
//@   subst c: C => c: Constant
//@   subst c.into() => OrDynamic::Static(c)
//@   ret r
//@   spec
//@   | ensures r == pushed(c)
//@ end
//@ present src/dynamic.rs impl From<Constant> for OrDynamic<Constant> { #[inline] fn from(t: Constant) -> Self { OrDynamic::Static(t) }
pub struct Conv;
impl Conv {
//@ item @expanded fn convert_direct_instruction in impl Conv
//@   cut fn push
//@   macros
//@   floats
//@   errors
//@   resmap
//@   collect vec offs
//@   collect map tbl
//@   forloop 0 it
//@   forloop 1 it
//@   start
//@   | broadcast use c10_is_array; reveal(conv);
//@   before let mut it
//@   | let ghost p = labeler.pool();
//@   loop 0
//@   | invariant labeler.pool() == p, p == old(labeler).pool(), 0 <= it.at@ <= it.s@.len(), it.s@ == insn->TableSwitch_1.offsets@, offs@ =~= it.s@.map_values(|o: i32| lbl(p, curpos as int, o as int)).take(it.at@), 0 <= curpos <= 0xffff_ffff,
//@   | ensures offs@ =~= it.s@.map_values(|o: i32| lbl(p, curpos as int, o as int))
//@   | decreases it.s@.len() - it.at@
//@   loop 1
//@   | invariant labeler.pool() == p, p == old(labeler).pool(), 0 <= it.at@ <= it.s@.len(), it.s@ == insn->LookupSwitch_1@, it.s@.take(it.s@.len() as int) =~= it.s@, tbl@ =~= table_of(p, curpos as int, it.s@.take(it.at@)), 0 <= curpos <= 0xffff_ffff,
//@   | ensures tbl@ =~= table_of(p, curpos as int, it.s@)
//@   | decreases it.s@.len() - it.at@
//@   loopstart 1
//@   | proof { assert(it.s@.take(it.at@).drop_last() =~= it.s@.take(it.at@ - 1)); assert(it.s@.take(it.at@).last() == it.s@[it.at@ - 1]); if it.at@ == it.s@.len() { assert(it.s@.take(it.at@) =~= it.s@); } }
//@   subst .into() => .total()
//@   subst ConstantPoolReader::read_constant => PickConstant
//@   subst ConstantPoolReader::read_member => PickMember
//@   subst ConstantPoolReader::read_class => PickClass
//@   subst c.codepoints().next() => c.first()
//@   subst '[' => '[' as u32
//@   subst unsafe { std::hint::unreachable_unchecked() } => unreached()
//@   ret r
//@   spec
//@   | requires 0 <= curpos <= 0xffff_ffff
//@   | ensures final(labeler).pool() == old(labeler).pool(), match r { Ok(v) => conv(insn, old(labeler).pool(), curpos as int) == Some(v), Err(_) => conv(insn, old(labeler).pool(), curpos as int) is None }
//@ end
}
fn main() {}
}
