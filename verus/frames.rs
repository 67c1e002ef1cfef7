// C16: stack-map frames.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ assume usize has 64 bits
//@ include prw.inc
//@ include list.inc
//@ include cp.inc
//@ include cp_traits.inc
//@ include cprw.inc
//@ include helper_cp.inc
//@ include len.inc
//@ include label.inc
pub mod h { pub type Class = super::StringCp<7>; }
//@ item src/code.rs enum VerificationType
//@   pub
//@   bare
//@   subst Cow<'static, Wtf8Str> => Str
//@ end
/// JVMS 4.7.4, verification_type_info.
pub open spec fn verification_in(p: Pool, s: Seq<u8>, i: int) -> Option<(VerificationType, int)> {
    match u8::reads(s, i) { None => None, Some((tag, j)) => match tag {
        0 => Some((VerificationType::Top, j)),
        1 => Some((VerificationType::Int, j)),
        2 => Some((VerificationType::Float, j)),
        3 => Some((VerificationType::Double, j)),
        4 => Some((VerificationType::Long, j)),
        5 => Some((VerificationType::Null, j)),
        6 => Some((VerificationType::UninitializedThis, j)),
        7 => match <h::Class as ConstantPoolReadWriteAs<Str>>::reads(p, s, j) { None => None, Some((c, k)) => Some((VerificationType::Object(c), k)) },
        8 => match <Label as ConstantPoolReadWrite>::reads(p, s, j) { None => None, Some((l, k)) => Some((VerificationType::UninitializedVariable(l), k)) },
        _ => None,
    } }
}
impl ConstantPoolReadWrite for VerificationType {
    open spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(Self, int)> { verification_in(p, s, i) }
    open spec fn good(&self) -> bool { true }
//@ item @expanded fn read_from in impl ConstantPoolReadWrite for VerificationType
//@   derived
//@   errors
//@ end
//@ item @expanded fn write_to in impl ConstantPoolReadWrite for VerificationType
//@   derived
//@ end
}
//@ item src/code.rs enum RawFrame
//@   pub
//@   bare
//@ end
pub open spec fn types_in(p: Pool, s: Seq<u8>, i: int, n: int) -> Option<(Seq<VerificationType>, int)> { many::<Identity, VerificationType>(p, s, i, n) }
/// JVMS 4.7.4, stack_map_frame.
pub open spec fn frame_in(p: Pool, s: Seq<u8>, i: int) -> Option<(RawFrame, int)> {
    match u8::reads(s, i) { None => None, Some((tag, j)) =>
        if tag <= 63 { Some((RawFrame::Same(tag as u16), j)) }
        else if tag <= 127 { match VerificationType::reads(p, s, j) { None => None, Some((v, k)) => Some((RawFrame::SameLocalsOneStack((tag - 64) as u16, v), k)) } }
        else if tag <= 246 { None }
        else { match u16::reads(s, j) { None => None, Some((off, k)) =>
            if tag == 247 { match VerificationType::reads(p, s, k) { None => None, Some((v, l)) => Some((RawFrame::SameLocalsOneStack(off, v), l)) } }
            else if tag <= 250 { Some((RawFrame::Chop(off, (251 - tag) as u8), k)) }
            else if tag == 251 { Some((RawFrame::Same(off), k)) }
            else if tag <= 254 { match types_in(p, s, k, tag - 251) { None => None, Some((v, l)) => Some((RawFrame::Append(off, list(v)), l)) } }
            else { match u16::reads(s, k) { None => None, Some((n, l)) => match types_in(p, s, l, n as int) { None => None, Some((v, m)) =>
                match u16::reads(s, m) { None => None, Some((o, q)) => match types_in(p, s, q, o as int) { None => None, Some((w, z)) => Some((RawFrame::Full(off, list(v), list(w)), z)) } } } } }
        } }
    }
}
/// The tag: the short form if the offset fits.
pub open spec fn tag_of(f: RawFrame) -> u8 {
    match f {
        RawFrame::Same(off) => if off <= 63 { off as u8 } else { 251 },
        RawFrame::SameLocalsOneStack(off, _) => if off <= 63 { (off + 64) as u8 } else { 247 },
        RawFrame::Chop(_, n) => (251 - n) as u8,
        RawFrame::Append(_, v) => (251 + v@.len()) as u8,
        RawFrame::Full(..) => 255,
    }
}
pub open spec fn good_frame(f: RawFrame) -> bool { match f { RawFrame::Chop(_, n) => 1 <= n <= 3, RawFrame::Append(_, v) => 1 <= v@.len() <= 3, RawFrame::Full(_, v, w) => v@.len() <= 65535 && w@.len() <= 65535, _ => true } }
fn one_to_three(n: usize) -> (r: bool) ensures r == (1 <= n <= 3) { 1 <= n && n <= 3 }
impl ConstantPoolReadWrite for RawFrame {
    open spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(Self, int)> { frame_in(p, s, i) }
    open spec fn good(&self) -> bool { true }
//@ item src/code.rs fn read_from in impl ConstantPoolReadWrite for RawFrame
//@   errors
//@   attr
//@   | #[verifier::loop_isolation(false)]
//@   subst crate::Result => Result
//@   subst for _ => for k_
//@   iter 0 it
//@   iter 1 it
//@   iter 2 it
//@   start
//@   | let ghost p = cp.pool(); let ghost d = reader.data(); let ghost mut j0 = 0int;
//@   before for k_ in
//@   | proof { j0 = reader.pos(); }
//@   loop 0
//@   | invariant cp.pool() == p, reader.data() == d, many::<Identity, VerificationType>(p, d, j0, it.index()) == Some((vec@, reader.pos())),
//@   loop 1
//@   | invariant cp.pool() == p, reader.data() == d, many::<Identity, VerificationType>(p, d, j0, it.index()) == Some((local@, reader.pos())),
//@   loop 2
//@   | invariant cp.pool() == p, reader.data() == d, many::<Identity, VerificationType>(p, d, j0, it.index()) == Some((stack@, reader.pos())),
//@   loopstart 0
//@   | proof { if many::<Identity, VerificationType>(p, d, j0, it.index() + 1) is None { many_stops::<Identity, VerificationType>(p, d, j0, it.index() + 1, tag - 251); } }
//@   loopstart 1
//@   | proof { if many::<Identity, VerificationType>(p, d, j0, it.index() + 1) is None { many_stops::<Identity, VerificationType>(p, d, j0, it.index() + 1, locals as int); } }
//@   loopstart 2
//@   | proof { if many::<Identity, VerificationType>(p, d, j0, it.index() + 1) is None { many_stops::<Identity, VerificationType>(p, d, j0, it.index() + 1, stacks as int); } }
//@ end
//@ item src/code.rs fn write_to in impl ConstantPoolReadWrite for RawFrame
//@   errors
//@   forloop 0 it
//@   forloop 1 it2
//@   forloop 2 it3
//@   subst it = locals; => it = locals.iter();
//@   subst it2 = locals; => it2 = locals.iter();
//@   subst it3 = stack; => it3 = stack.iter();
//@   subst (1..=3).contains(&locals.len()) => one_to_three(locals.len())
//@   subst crate::Result => Result
//@   start
//@   | let ghost p = cp.pool(); let ghost i0 = writer.out().len() as int; let ghost mut j0 = 0int; let ghost mut j1 = 0int; let ghost mut v0 = Seq::<VerificationType>::empty();
//@   ret r
//@   spec
//@   | ensures r is Ok ==> good_frame(*self) && forall|s: Seq<u8>| #[trigger] pre(final(writer).out(), s) ==> u8::reads(s, old(writer).out().len() as int) == Some((tag_of(*self), old(writer).out().len() as int + 1))
//@   before let mut it = locals.iter();
//@   | proof { j0 = writer.out().len() as int; }
//@   before let mut it2 = locals.iter();
//@   | proof { j0 = writer.out().len() as int; }
//@   before write_len(stack.len(), writer)?;
//@   | assert(locals@.take(locals@.len() as int) =~= locals@); proof { j1 = writer.out().len() as int; }
//@   before let mut it3 = stack.iter();
//@   | proof { j0 = writer.out().len() as int; }
//@   loop 0
//@   | invariant
//@   |     cp.pool() == p, p == old(cp).pool(), i0 == old(writer).out().len(), it.s == locals.s, 0 <= it.at@ <= locals@.len(), pre(old(writer).out(), writer.out()),
//@   |     forall|s: Seq<u8>| #[trigger] pre(writer.out(), s) ==> u8::reads(s, i0) == Some((tag_of(*self), i0 + 1)) && u16::reads(s, i0 + 1) == Some((*off, j0)) && many::<Identity, VerificationType>(p, s, j0, it.at@) == Some((locals@.take(it.at@), writer.out().len() as int)),
//@   | ensures it.at@ == locals@.len(),
//@   | decreases locals@.len() - it.at@
//@   loop 1
//@   | invariant
//@   |     cp.pool() == p, p == old(cp).pool(), i0 == old(writer).out().len(), it2.s == locals.s, 0 <= it2.at@ <= locals@.len(), pre(old(writer).out(), writer.out()),
//@   |     forall|s: Seq<u8>| #[trigger] pre(writer.out(), s) ==> u8::reads(s, i0) == Some((255u8, i0 + 1)) && u16::reads(s, i0 + 1) == Some((*off, i0 + 3)) && u16::reads(s, i0 + 3) == Some((locals@.len() as u16, j0)) && many::<Identity, VerificationType>(p, s, j0, it2.at@) == Some((locals@.take(it2.at@), writer.out().len() as int)),
//@   | ensures it2.at@ == locals@.len(),
//@   | decreases locals@.len() - it2.at@
//@   loop 2
//@   | invariant
//@   |     cp.pool() == p, p == old(cp).pool(), i0 == old(writer).out().len(), it3.s == stack.s, 0 <= it3.at@ <= stack@.len(), pre(old(writer).out(), writer.out()),
//@   |     forall|s: Seq<u8>| #[trigger] pre(writer.out(), s) ==> u8::reads(s, i0) == Some((255u8, i0 + 1)) && u16::reads(s, i0 + 1) == Some((*off, i0 + 3)) && u16::reads(s, i0 + 3) == Some((locals@.len() as u16, i0 + 5)) && many::<Identity, VerificationType>(p, s, i0 + 5, locals@.len() as int) == Some((locals@, j1)) && u16::reads(s, j1) == Some((stack@.len() as u16, j0)) && many::<Identity, VerificationType>(p, s, j0, it3.at@) == Some((stack@.take(it3.at@), writer.out().len() as int)),
//@   | ensures it3.at@ == stack@.len(),
//@   | decreases stack@.len() - it3.at@
//@   before Ok(())
//@   | proof { assert forall|v: Seq<VerificationType>| #[trigger] v.take(v.len() as int) == v by { assert(v.take(v.len() as int) =~= v) } }
//@ end
}
fn main() {}
}
