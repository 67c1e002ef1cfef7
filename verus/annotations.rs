// C20: annotations and type annotations.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ assume usize has 64 bits
//@ include prw.inc
//@ include list.inc
//@ include cp.inc
//@ include cp_traits.inc
//@ include cprw.inc
//@ include helper_cp.inc
//@ include len.inc
//@ include label.inc
//@ include numbers_cp.inc
pub mod h { use super::*; pub use super::{Normal, Identity, Vec8, Vec16}; pub type Class = StringCp<7>; }
//@ assume parse_type is as C10 says (unit descriptor), and gives an error for "V"; the types in annotations are such as can be written, so that their text is read back to them (C10)
pub uninterp spec fn void_text() -> Seq<u32>;
#[verifier::external_body]
pub broadcast proof fn c10_void() ensures #[trigger] type_of(void_text()) is None {}
#[verifier::external_body]
pub fn void_str() -> (r: Str) ensures r@ == void_text() { unimplemented!() }
#[verifier::external_body]
pub fn is_void(s: &Str) -> (r: bool) ensures r == (s@ == void_text()) { unimplemented!() }
#[verifier::external_body]
pub fn parse_type(s: &Str) -> (r: Result<Type>) ensures match r { Ok(t) => type_of(s@) == Some(t), Err(_) => type_of(s@) is None } { unimplemented!() }
#[verifier::external_body]
pub fn type_str(t: &Type) -> (r: Str) ensures type_of(r@) == Some(*t) { unimplemented!() }
impl ConstantPoolReadWrite for Type {
    open spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(Self, int)> { match u16::reads(s, i) { None => None, Some((n, j)) => match type_at(p, n) { None => None, Some(t) => Some((t, j)) } } }
    open spec fn good(&self) -> bool { true }
//@ item @expanded fn read_from in impl ConstantPoolReadWrite for Type
//@   errors
//@ end
//@ item @expanded fn write_to in impl ConstantPoolReadWrite for Type
//@   subst Cow::Owned(self.into()) => type_str(self)
//@ end
}
//@ assume HashMap is a map: insert, len and iteration (each of its pairs once, in some order) are as the standard library says
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { pub m: Ghost<Map<K, V>>, pub p: core::marker::PhantomData<K> }
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct Pairs<'a, K, V> { pub s: Ghost<Seq<(K, V)>>, pub at: Ghost<int>, pub p: core::marker::PhantomData<&'a K> }
pub open spec fn pairs_map<K, V>(s: Seq<(K, V)>) -> Map<K, V> decreases s.len() { if s.len() == 0 { Map::empty() } else { pairs_map(s.drop_last()).insert(s.last().0, s.last().1) } }
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn order(&self) -> Seq<(K, V)>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.m@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self).m@ == old(self).m@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.order().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: Pairs<'a, K, V>) ensures r.s@ == self.order(), r.at@ == 0, pairs_map(self.order()) == self.m@ { unimplemented!() }
}
impl<'a, K, V> Pairs<'a, K, V> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a K, &'a V)>)
        requires 0 <= old(self).at@ <= old(self).s@.len()
        ensures final(self).s == old(self).s, if old(self).at@ < old(self).s@.len() { r is Some && *r->Some_0.0 == old(self).s@[old(self).at@].0 && *r->Some_0.1 == old(self).s@[old(self).at@].1 && final(self).at@ == old(self).at@ + 1 } else { r is None && final(self).at == old(self).at }
    { unimplemented!() }
}
pub type ElementValues = HashMap<Str, AnnotationValue>;
pub open spec fn elements(s: Seq<(Str, AnnotationValue)>) -> ElementValues { HashMap { m: Ghost(pairs_map(s)), p: core::marker::PhantomData } }
//@ item src/annotation/mod.rs enum AnnotationValue
//@   pub
//@   bare
//@   subst Cow<'static, Wtf8Str> => Str
//@ end
//@ item src/annotation/mod.rs struct Annotation
//@   pub
//@   bare
//@   subst Cow<'static, Wtf8Str> => Str
//@ end
//@ drop the recursion of annotations: the methods of the traits stand as functions by themselves
/// JVMS 4.7.16.1, element_value.
pub open spec fn value_in(p: Pool, s: Seq<u8>, i: int) -> Option<(AnnotationValue, int)> decreases s.len() - i, 0int, 0int {
    match u8::reads(s, i) { None => None, Some((tag, j)) =>
        if tag == 'B' as u8 { match <i32 as ConstantPoolReadWrite>::reads(p, s, j) { None => None, Some((n, k)) => if -128 <= n <= 127 { Some((AnnotationValue::Byte(n as i8), k)) } else { None } } }
        else if tag == 'C' as u8 { match <i32 as ConstantPoolReadWrite>::reads(p, s, j) { None => None, Some((n, k)) => if 0 <= n <= 65535 { Some((AnnotationValue::Char(n as u16), k)) } else { None } } }
        else if tag == 'D' as u8 { match <TotalF64 as ConstantPoolReadWrite>::reads(p, s, j) { None => None, Some((n, k)) => Some((AnnotationValue::Double(n), k)) } }
        else if tag == 'F' as u8 { match <TotalF32 as ConstantPoolReadWrite>::reads(p, s, j) { None => None, Some((n, k)) => Some((AnnotationValue::Float(n), k)) } }
        else if tag == 'I' as u8 { match <i32 as ConstantPoolReadWrite>::reads(p, s, j) { None => None, Some((n, k)) => Some((AnnotationValue::Int(n), k)) } }
        else if tag == 'J' as u8 { match <i64 as ConstantPoolReadWrite>::reads(p, s, j) { None => None, Some((n, k)) => Some((AnnotationValue::Long(n), k)) } }
        else if tag == 'S' as u8 { match <i32 as ConstantPoolReadWrite>::reads(p, s, j) { None => None, Some((n, k)) => if -32768 <= n <= 32767 { Some((AnnotationValue::Short(n as i16), k)) } else { None } } }
        else if tag == 'Z' as u8 { match <i32 as ConstantPoolReadWrite>::reads(p, s, j) { None => None, Some((n, k)) => if n == 0 || n == 1 { Some((AnnotationValue::Boolean(n == 1), k)) } else { None } } }
        else if tag == 's' as u8 { match <Str as ConstantPoolReadWrite>::reads(p, s, j) { None => None, Some((x, k)) => Some((AnnotationValue::String(x), k)) } }
        else if tag == 'e' as u8 { match <Type as ConstantPoolReadWrite>::reads(p, s, j) { None => None, Some((t, k)) => match <Str as ConstantPoolReadWrite>::reads(p, s, k) { None => None, Some((x, l)) => Some((AnnotationValue::Enum(t, x), l)) } } }
        else if tag == 'c' as u8 { match <Str as ConstantPoolReadWrite>::reads(p, s, j) { None => None, Some((x, k)) => if x@ == void_text() { Some((AnnotationValue::Class(None), k)) } else { match type_of(x@) { None => None, Some(t) => Some((AnnotationValue::Class(Some(t)), k)) } } } }
        else if tag == '@' as u8 { match annotation_in(p, s, j) { None => None, Some((a, k)) => Some((AnnotationValue::Annotation(a), k)) } }
        else if tag == '[' as u8 { match u16::reads(s, j) { None => None, Some((n, k)) => match values_in(p, s, k, n as int) { None => None, Some((v, l)) => Some((AnnotationValue::Array(list(v)), l)) } } }
        else { None }
    }
}
pub open spec fn values_in(p: Pool, s: Seq<u8>, i: int, n: int) -> Option<(Seq<AnnotationValue>, int)> decreases s.len() - i, 1int, n {
    if n <= 0 { Some((Seq::empty(), i)) } else { match values_in(p, s, i, n - 1) { None => None, Some((v, j)) => if i <= j <= s.len() { match value_in(p, s, j) { None => None, Some((x, k)) => Some((v.push(x), k)) } } else { None } } }
}
/// JVMS 4.7.16, annotation.
pub open spec fn annotation_in(p: Pool, s: Seq<u8>, i: int) -> Option<(Annotation, int)> decreases s.len() - i, 0int, 0int {
    match <Type as ConstantPoolReadWrite>::reads(p, s, i) { None => None, Some((annotation_type, j)) => match elements_in(p, s, j) { None => None, Some((element_values, k)) => Some((Annotation { annotation_type, element_values }, k)) } }
}
pub open spec fn elements_in(p: Pool, s: Seq<u8>, i: int) -> Option<(ElementValues, int)> decreases s.len() - i, 0int, 0int {
    match u16::reads(s, i) { None => None, Some((n, j)) => match pairs_in(p, s, j, n as int) { None => None, Some((v, k)) => Some((elements(v), k)) } }
}
pub open spec fn pairs_in(p: Pool, s: Seq<u8>, i: int, n: int) -> Option<(Seq<(Str, AnnotationValue)>, int)> decreases s.len() - i, 1int, n {
    if n <= 0 { Some((Seq::empty(), i)) } else { match pairs_in(p, s, i, n - 1) { None => None, Some((v, j)) => if i <= j <= s.len() { match <Str as ConstantPoolReadWrite>::reads(p, s, j) { None => None, Some((name, k)) => match value_in(p, s, k) { None => None, Some((x, l)) => Some((v.push((name, x)), l)) } } } else { None } } }
}
pub proof fn value_ends(p: Pool, s: Seq<u8>, i: int) ensures value_in(p, s, i) is Some ==> 0 <= i < value_in(p, s, i)->Some_0.1 <= s.len() decreases s.len() - i, 0int, 0int {
    match u8::reads(s, i) { None => {}, Some((tag, j)) => {
        if tag == '@' as u8 { annotation_ends(p, s, j); }
        else if tag == '[' as u8 { match u16::reads(s, j) { None => {}, Some((n, k)) => { values_ends(p, s, k, n as int); } } }
    } }
}
pub proof fn values_ends(p: Pool, s: Seq<u8>, i: int, n: int) requires 0 <= i <= s.len() ensures values_in(p, s, i, n) is Some ==> i <= values_in(p, s, i, n)->Some_0.1 <= s.len() decreases s.len() - i, 1int, n {
    if n > 0 { values_ends(p, s, i, n - 1); match values_in(p, s, i, n - 1) { None => {}, Some((v, j)) => { value_ends(p, s, j); } } }
}
pub proof fn annotation_ends(p: Pool, s: Seq<u8>, i: int) ensures annotation_in(p, s, i) is Some ==> 0 <= i < annotation_in(p, s, i)->Some_0.1 <= s.len() decreases s.len() - i, 0int, 0int {
    match <Type as ConstantPoolReadWrite>::reads(p, s, i) { None => {}, Some((t, j)) => { elements_ends(p, s, j); } }
}
pub proof fn elements_ends(p: Pool, s: Seq<u8>, i: int) ensures elements_in(p, s, i) is Some ==> 0 <= i < elements_in(p, s, i)->Some_0.1 <= s.len() decreases s.len() - i, 0int, 0int {
    match u16::reads(s, i) { None => {}, Some((n, j)) => { pairs_ends(p, s, j, n as int); } }
}
pub proof fn pairs_ends(p: Pool, s: Seq<u8>, i: int, n: int) requires 0 <= i <= s.len() ensures pairs_in(p, s, i, n) is Some ==> i <= pairs_in(p, s, i, n)->Some_0.1 <= s.len() decreases s.len() - i, 1int, n {
    if n > 0 { pairs_ends(p, s, i, n - 1); match pairs_in(p, s, i, n - 1) { None => {}, Some((v, j)) => { match <Str as ConstantPoolReadWrite>::reads(p, s, j) { None => {}, Some((name, k)) => { value_ends(p, s, k); } } } } }
}
pub proof fn values_stop(p: Pool, s: Seq<u8>, i: int, k: int, n: int) requires k <= n, values_in(p, s, i, k) is None ensures values_in(p, s, i, n) is None decreases n { if k < n { values_stop(p, s, i, k, n - 1); } }
pub proof fn pairs_stop(p: Pool, s: Seq<u8>, i: int, k: int, n: int) requires k <= n, pairs_in(p, s, i, k) is None ensures pairs_in(p, s, i, n) is None decreases n { if k < n { pairs_stop(p, s, i, k, n - 1); } }
pub proof fn pre_len(a: Seq<u8>, b: Seq<u8>) requires pre(a, b) ensures a.len() <= b.len() { reveal(pre); }
/// Conversions between i32 and smaller types.
pub trait Small: Sized { spec fn n(self) -> int; spec fn fits(n: int) -> bool; fn to_i32(self) -> (r: i32) ensures r == self.n(), Self::fits(self.n()); fn small(n: i32) -> (r: core::result::Result<Self, ()>) ensures r is Ok <==> Self::fits(n as int), r is Ok ==> r->Ok_0.n() == n; }
macro_rules! small { ($t: ident) => { verus! { impl Small for $t {
    open spec fn n(self) -> int { self as int }
    open spec fn fits(n: int) -> bool { $t::MIN <= n <= $t::MAX }
    fn to_i32(self) -> (r: i32) { self as i32 }
    fn small(n: i32) -> (r: core::result::Result<Self, ()>) { if $t::MIN as i32 <= n && n <= $t::MAX as i32 { Ok(n as $t) } else { Err(()) } }
} } } }
small!(i8);
small!(i16);
small!(u16);
impl Small for bool {
    open spec fn n(self) -> int { if self { 1 } else { 0 } }
    open spec fn fits(n: int) -> bool { n == 0 || n == 1 }
    fn to_i32(self) -> (r: i32) { if self { 1 } else { 0 } }
    fn small(n: i32) -> (r: core::result::Result<Self, ()>) { if n == 0 { Ok(false) } else if n == 1 { Ok(true) } else { Err(()) } }
}
//@ item @expanded fn cp_int in impl ConstantPoolReadWrite for AnnotationValue
//@   subst Into<i32> => Small
//@   subst val.into() => val.to_i32()
//@   ret r
//@   spec
//@   | ensures
//@   |     final(cp).pool() == old(cp).pool(), pre(old(writer).out(), final(writer).out()),
//@   |     r is Ok ==> forall|s: Seq<u8>| pre(final(writer).out(), s) ==> #[trigger] <i32 as ConstantPoolReadWrite>::reads(old(cp).pool(), s, old(writer).out().len() as int) == Some((val.n() as i32, final(writer).out().len() as int)) && I::fits(val.n()),
//@ end
//@ item @expanded fn read_from in impl ConstantPoolReadWrite for AnnotationValue
//@   errors
//@   results
//@   attr
//@   | #[verifier::exec_allows_no_decreases_clause]
//@   | #[verifier::loop_isolation(false)]
//@   subst fn read_from => fn read_value
//@   subst Result<Self> => Result<AnnotationValue>
//@   subst AnnotationValue::read_from => read_value
//@   subst Annotation::read_from => read_annotation
//@   subst val.try_into() => Small::small(val)
//@   subst &*str == "V" => is_void(&str)
//@   subst for _ => for k_
//@   iter 0 it
//@   ret r
//@   spec
//@   | ensures
//@   |     final(cp).pool() == old(cp).pool(), final(reader).data() == old(reader).data(),
//@   |     match r { Ok(v) => value_in(old(cp).pool(), old(reader).data(), old(reader).pos()) == Some((v, final(reader).pos())), Err(_) => value_in(old(cp).pool(), old(reader).data(), old(reader).pos()) is None },
//@   start
//@   | let ghost p = cp.pool(); let ghost d = reader.data(); let ghost mut j0 = 0int;
//@   before let mut values
//@   | proof { j0 = reader.pos(); }
//@   loop 0
//@   | invariant cp.pool() == p, reader.data() == d, values_in(p, d, j0, it.index()) == Some((values@, reader.pos())),
//@   loopstart 0
//@   | proof { values_ends(p, d, j0, it.index()); if values_in(p, d, j0, it.index() + 1) is None { values_stop(p, d, j0, it.index() + 1, num as int); } }
//@ end
//@ item @expanded fn read_from in impl ConstantPoolReadWrite for Annotation
//@   derived
//@   attr
//@   | #[verifier::exec_allows_no_decreases_clause]
//@   subst fn read_from => fn read_annotation
//@   subst Result<Self> => Result<Annotation>
//@   subst <HashMap<Str, AnnotationValue> as ConstantPoolReadWrite>::read_from => read_elements
//@   ret r
//@   spec
//@   | ensures
//@   |     final(cp).pool() == old(cp).pool(), final(reader).data() == old(reader).data(),
//@   |     match r { Ok(v) => annotation_in(old(cp).pool(), old(reader).data(), old(reader).pos()) == Some((v, final(reader).pos())), Err(_) => annotation_in(old(cp).pool(), old(reader).data(), old(reader).pos()) is None },
//@ end
//@ item @expanded fn read_from in impl ConstantPoolReadWrite for HashMap<Cow<'static, Wtf8Str>, AnnotationValue>
//@   attr
//@   | #[verifier::exec_allows_no_decreases_clause]
//@   | #[verifier::loop_isolation(false)]
//@   subst fn read_from => fn read_elements
//@   subst Result<Self, Error> => Result<ElementValues>
//@   subst AnnotationValue::read_from => read_value
//@   subst for _ => for k_
//@   iter 0 it
//@   ret r
//@   spec
//@   | ensures
//@   |     final(cp).pool() == old(cp).pool(), final(reader).data() == old(reader).data(),
//@   |     match r { Ok(v) => elements_in(old(cp).pool(), old(reader).data(), old(reader).pos()) == Some((v, final(reader).pos())), Err(_) => elements_in(old(cp).pool(), old(reader).data(), old(reader).pos()) is None },
//@   start
//@   | let ghost p = cp.pool(); let ghost d = reader.data();
//@   before let mut element_values
//@   | let ghost j0 = reader.pos(); let ghost mut got = Seq::<(Str, AnnotationValue)>::empty();
//@   loop 0
//@   | invariant cp.pool() == p, reader.data() == d, pairs_in(p, d, j0, it.index()) == Some((got, reader.pos())), element_values.m@ == pairs_map(got),
//@   loopstart 0
//@   | proof { pairs_ends(p, d, j0, it.index()); if pairs_in(p, d, j0, it.index() + 1) is None { pairs_stop(p, d, j0, it.index() + 1, pairs as int); } }
//@   before element_values.insert(name, value);
//@   | proof { assert(got.push((name, value)).drop_last() =~= got); got = got.push((name, value)); }
//@ end
//@ item @expanded fn write_to in impl ConstantPoolReadWrite for AnnotationValue
//@   cut fn cp_int
//@   bytes
//@   resmap
//@   forloop 0 it
//@   attr
//@   | #[verifier::exec_allows_no_decreases_clause]
//@   subst &self => this: &AnnotationValue
//@   subst match self => match this
//@   subst n.as_ref() => n
//@   subst Cow::Borrowed(::wtf_8::Wtf8Str::new("V")) => void_str()
//@   subst Cow::Owned(t.into()) => type_str(t)
//@   subst a.write_to( => write_annotation(a,
//@   subst e.write_to( => write_value(e,
//@   subst it = v; => it = v.iter();
//@   subst fn write_to => fn write_value
//@   ret r
//@   spec
//@   | ensures
//@   |     final(cp).pool() == old(cp).pool(), pre(old(writer).out(), final(writer).out()),
//@   |     r is Ok ==> forall|s: Seq<u8>| #[trigger] pre(final(writer).out(), s) ==> value_in(old(cp).pool(), s, old(writer).out().len() as int) == Some((*this, final(writer).out().len() as int)),
//@   start
//@   | broadcast use c10_void; let ghost p = cp.pool(); let ghost i0 = writer.out().len() as int;
//@   before let mut it = v.iter();
//@   | let ghost j0 = writer.out().len() as int; proof { assert(pre(writer.out(), writer.out())); assert(u8::reads(writer.out(), i0) is Some); assert(u16::reads(writer.out(), i0 + 1) == Some((v@.len() as u16, j0))); }
//@   loop 0
//@   | invariant
//@   |     cp.pool() == p, p == old(cp).pool(), i0 == old(writer).out().len(), it.s == v.s, 0 <= it.at@ <= v@.len() <= 65535, pre(old(writer).out(), writer.out()), j0 == i0 + 3, j0 <= writer.out().len(),
//@   |     forall|s: Seq<u8>| #[trigger] pre(writer.out(), s) ==> u8::reads(s, i0) == Some(('[' as u8, i0 + 1)) && u16::reads(s, i0 + 1) == Some((v@.len() as u16, j0)) && values_in(p, s, j0, it.at@) == Some((v@.take(it.at@), writer.out().len() as int)),
//@   | ensures it.at@ == v@.len(),
//@   | decreases v@.len() - it.at@
//@   loopstart 0
//@   | let ghost o0 = writer.out();
//@   after write_value(e, cp, writer)?;
//@   | proof {
//@   |     pre_len(o0, writer.out());
//@   |     assert forall|s: Seq<u8>| #[trigger] pre(writer.out(), s) implies u8::reads(s, i0) == Some(('[' as u8, i0 + 1)) && u16::reads(s, i0 + 1) == Some((v@.len() as u16, j0)) && values_in(p, s, j0, it.at@) == Some((v@.take(it.at@), writer.out().len() as int)) by {
//@   |         assert(pre(o0, s)); pre_len(o0, s); assert(v@.take(it.at@) =~= v@.take(it.at@ - 1).push(*e));
//@   |     }
//@   | }
//@   before Ok(())
//@   | assert(v@.take(v@.len() as int) =~= v@);
//@ end
//@ item @expanded fn write_to in impl ConstantPoolReadWrite for Annotation
//@   derived
//@   attr
//@   | #[verifier::exec_allows_no_decreases_clause]
//@   subst &self => this: &Annotation
//@   subst match self => match this
//@   subst <HashMap<Str, AnnotationValue> as ConstantPoolReadWrite>::write_to => write_elements
//@   subst fn write_to => fn write_annotation
//@   ret r
//@   spec
//@   | ensures
//@   |     final(cp).pool() == old(cp).pool(), pre(old(writer).out(), final(writer).out()),
//@   |     r is Ok ==> forall|s: Seq<u8>| #[trigger] pre(final(writer).out(), s) ==> annotation_in(old(cp).pool(), s, old(writer).out().len() as int) == Some((*this, final(writer).out().len() as int)),
//@ end
//@ item @expanded fn write_to in impl ConstantPoolReadWrite for HashMap<Cow<'static, Wtf8Str>, AnnotationValue>
//@   forloop 0 it
//@   attr
//@   | #[verifier::exec_allows_no_decreases_clause]
//@   subst &self => this: &ElementValues
//@   subst self.len() => this.len()
//@   subst it = self; => it = this.iter();
//@   subst e.write_to( => write_value(e,
//@   subst fn write_to => fn write_elements
//@   ret r
//@   spec
//@   | ensures
//@   |     final(cp).pool() == old(cp).pool(), pre(old(writer).out(), final(writer).out()),
//@   |     r is Ok ==> forall|s: Seq<u8>| #[trigger] pre(final(writer).out(), s) ==> elements_in(old(cp).pool(), s, old(writer).out().len() as int) == Some((*this, final(writer).out().len() as int)),
//@   start
//@   | let ghost p = cp.pool(); let ghost i0 = writer.out().len() as int;
//@   before let mut it = this.iter();
//@   | let ghost j0 = writer.out().len() as int; let ghost v = this.order(); proof { assert(pre(writer.out(), writer.out())); assert(u16::reads(writer.out(), i0) == Some((v.len() as u16, j0))); }
//@   loop 0
//@   | invariant
//@   |     cp.pool() == p, p == old(cp).pool(), i0 == old(writer).out().len(), v == this.order(), pairs_map(v) == this.m@, it.s@ == v, 0 <= it.at@ <= v.len() <= 65535, pre(old(writer).out(), writer.out()), j0 == i0 + 2, j0 <= writer.out().len(),
//@   |     forall|s: Seq<u8>| #[trigger] pre(writer.out(), s) ==> u16::reads(s, i0) == Some((v.len() as u16, j0)) && pairs_in(p, s, j0, it.at@) == Some((v.take(it.at@), writer.out().len() as int)),
//@   | ensures it.at@ == v.len(),
//@   | decreases v.len() - it.at@
//@   loopstart 0
//@   | let ghost o0 = writer.out();
//@   after write_value(e, cp, writer)?;
//@   | proof {
//@   |     pre_len(o0, writer.out());
//@   |     assert forall|s: Seq<u8>| #[trigger] pre(writer.out(), s) implies u16::reads(s, i0) == Some((v.len() as u16, j0)) && pairs_in(p, s, j0, it.at@) == Some((v.take(it.at@), writer.out().len() as int)) by {
//@   |         assert(pre(o0, s)); pre_len(o0, s); assert(v.take(it.at@) =~= v.take(it.at@ - 1).push((*k, *e)));
//@   |     }
//@   | }
//@   before Ok(())
//@   | proof { assert(v.take(v.len() as int) =~= v); assert(elements(v) == *this); }
//@ end
impl ConstantPoolReadWrite for Annotation {
    open spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(Self, int)> { annotation_in(p, s, i) }
    open spec fn good(&self) -> bool { true }
    fn read_from<C: ConstantPoolReader, R: Read>(cp: &mut C, reader: &mut R) -> Result<Self> { read_annotation(cp, reader) }
    fn write_to<C: ConstantPoolWriter, W: Write>(&self, cp: &mut C, writer: &mut W) -> Result<()> { write_annotation(self, cp, writer) }
}
impl ConstantPoolReadWrite for AnnotationValue {
    open spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(Self, int)> { value_in(p, s, i) }
    open spec fn good(&self) -> bool { true }
    fn read_from<C: ConstantPoolReader, R: Read>(cp: &mut C, reader: &mut R) -> Result<Self> { read_value(cp, reader) }
    fn write_to<C: ConstantPoolWriter, W: Write>(&self, cp: &mut C, writer: &mut W) -> Result<()> { write_value(self, cp, writer) }
}
impl ConstantPoolReadWrite for ElementValues {
    open spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(Self, int)> { elements_in(p, s, i) }
    open spec fn good(&self) -> bool { true }
    fn read_from<C: ConstantPoolReader, R: Read>(cp: &mut C, reader: &mut R) -> Result<Self> { read_elements(cp, reader) }
    fn write_to<C: ConstantPoolWriter, W: Write>(&self, cp: &mut C, writer: &mut W) -> Result<()> { write_elements(self, cp, writer) }
}
//@ item src/annotation/mod.rs struct ParameterAnnotations
//@   pub
//@   bare
//@   subst (Vec<Annotation>) => (pub Vec<Annotation>)
//@ end
impl ConstantPoolReadWrite for ParameterAnnotations {
    open spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(Self, int)> { match <h::Vec16 as ConstantPoolReadWriteAs<Vec<Annotation>>>::reads(p, s, i) { None => None, Some((f0, j0)) => Some((ParameterAnnotations(f0), j0)) } }
    open spec fn good(&self) -> bool { <h::Vec16 as ConstantPoolReadWriteAs<Vec<Annotation>>>::good(self.0) }
//@ item @expanded fn read_from in impl ConstantPoolReadWrite for ParameterAnnotations
//@   derived
//@ end
//@ item @expanded fn write_to in impl ConstantPoolReadWrite for ParameterAnnotations
//@   derived
//@ end
}
//@ item src/annotation/type_annotation.rs enum ClassTypeAnnotationTarget
//@   pub
//@   bare
//@ end
/// JVMS 4.7.20.1
impl ReadWrite for ClassTypeAnnotationTarget {
    open spec fn reads(s: Seq<u8>, i: int) -> Option<(Self, int)> { match u8::reads(s, i) { None => None, Some((tag, j)) => match tag {
        0 => match <u8 as ReadWrite>::reads(s, j) { None => None, Some((f0, j0)) => Some((ClassTypeAnnotationTarget::GenericTypeParameter(f0), j0)) },
        16 => match <u16 as ReadWrite>::reads(s, j) { None => None, Some((f0, j0)) => Some((ClassTypeAnnotationTarget::ExtendsImplementsClause(f0), j0)) },
        17 => match <u8 as ReadWrite>::reads(s, j) { None => None, Some((f0, j0)) => match <u8 as ReadWrite>::reads(s, j0) { None => None, Some((f1, j1)) => Some((ClassTypeAnnotationTarget::GenericTypeParameterBound(f0, f1), j1)) } },
        _ => None,
    } } }
//@ item @expanded fn read_from in impl ReadWrite for ClassTypeAnnotationTarget
//@   derived
//@   errors
//@ end
//@ item @expanded fn write_to in impl ReadWrite for ClassTypeAnnotationTarget
//@   derived
//@ end
}
//@ item src/annotation/type_annotation.rs enum MethodTypeAnnotationTarget
//@   pub
//@   bare
//@ end
impl ReadWrite for MethodTypeAnnotationTarget {
    open spec fn reads(s: Seq<u8>, i: int) -> Option<(Self, int)> { match u8::reads(s, i) { None => None, Some((tag, j)) => match tag {
        1 => match <u8 as ReadWrite>::reads(s, j) { None => None, Some((f0, j0)) => Some((MethodTypeAnnotationTarget::GenericTypeParameter(f0), j0)) },
        18 => match <u8 as ReadWrite>::reads(s, j) { None => None, Some((f0, j0)) => match <u8 as ReadWrite>::reads(s, j0) { None => None, Some((f1, j1)) => Some((MethodTypeAnnotationTarget::GenericTypeParameterBound(f0, f1), j1)) } },
        20 => Some((MethodTypeAnnotationTarget::Return, j)),
        21 => Some((MethodTypeAnnotationTarget::Reciever, j)),
        22 => match <u8 as ReadWrite>::reads(s, j) { None => None, Some((f0, j0)) => Some((MethodTypeAnnotationTarget::FormalParameter(f0), j0)) },
        23 => match <u16 as ReadWrite>::reads(s, j) { None => None, Some((f0, j0)) => Some((MethodTypeAnnotationTarget::Throws(f0), j0)) },
        _ => None,
    } } }
//@ item @expanded fn read_from in impl ReadWrite for MethodTypeAnnotationTarget
//@   derived
//@   errors
//@ end
//@ item @expanded fn write_to in impl ReadWrite for MethodTypeAnnotationTarget
//@   derived
//@ end
}
//@ item src/annotation/type_annotation.rs enum FieldTarget
//@   pub
//@   bare
//@ end
impl ReadWrite for FieldTarget {
    open spec fn reads(s: Seq<u8>, i: int) -> Option<(Self, int)> { match u8::reads(s, i) { None => None, Some((tag, j)) => match tag {
        19 => Some((FieldTarget::Field, j)),
        _ => None,
    } } }
//@ item @expanded fn read_from in impl ReadWrite for FieldTarget
//@   derived
//@   errors
//@ end
//@ item @expanded fn write_to in impl ReadWrite for FieldTarget
//@   derived
//@ end
}
//@ item src/annotation/type_annotation.rs enum TypePath
//@   pub
//@   bare
//@ end
/// JVMS 4.7.20.2
impl ReadWrite for TypePath {
    open spec fn reads(s: Seq<u8>, i: int) -> Option<(Self, int)> { match u8::reads(s, i) { None => None, Some((tag, j)) => match tag {
        0 => match <u8 as ReadWrite>::reads(s, j) { None => None, Some((f0, j0)) => Some((TypePath::Array(f0), j0)) },
        1 => match <u8 as ReadWrite>::reads(s, j) { None => None, Some((f0, j0)) => Some((TypePath::Nested(f0), j0)) },
        2 => match <u8 as ReadWrite>::reads(s, j) { None => None, Some((f0, j0)) => Some((TypePath::TypeBound(f0), j0)) },
        3 => match <u8 as ReadWrite>::reads(s, j) { None => None, Some((f0, j0)) => Some((TypePath::TypeArgument(f0), j0)) },
        _ => None,
    } } }
//@ item @expanded fn read_from in impl ReadWrite for TypePath
//@   derived
//@   errors
//@ end
//@ item @expanded fn write_to in impl ReadWrite for TypePath
//@   derived
//@ end
}
impl ConstantPoolReadWrite for Catch {
    open spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(Self, int)> { match u16::reads(s, i) { None => None, Some((n, j)) => if p.catches.contains_key(n) { Some((p.catches[n], j)) } else { None } } }
    open spec fn good(&self) -> bool { true }
//@ item @expanded fn read_from in impl ConstantPoolReadWrite for Catch
//@   errors
//@ end
//@ item @expanded fn write_to in impl ConstantPoolReadWrite for Catch
//@   errors
//@ end
}
//@ item src/annotation/type_annotation.rs struct LocalVarTarget
//@   pub
//@   bare
//@ end
impl ConstantPoolReadWrite for LocalVarTarget {
    open spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(Self, int)> {
        match u16::reads(s, i) { None => None, Some((a, j)) => match u16::reads(s, j) { None => None, Some((n, k)) => match u16::reads(s, k) { None => None, Some((idx, l)) => Some((LocalVarTarget { start: (p.labels)(a as u32), end: (p.labels)((a + n) as u32), idx }, l)) } } }
    }
    open spec fn good(&self) -> bool { true }
//@ item @expanded fn read_from in impl ConstantPoolReadWrite for LocalVarTarget
//@   subst as _ => as u32
//@ end
//@ item @expanded fn write_to in impl ConstantPoolReadWrite for LocalVarTarget
//@   errors
//@   results
//@ end
}
//@ item src/annotation/type_annotation.rs enum CodeTypeAnnotationTarget
//@   pub
//@   bare
//@ end
impl ConstantPoolReadWrite for CodeTypeAnnotationTarget {
    open spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(Self, int)> { match u8::reads(s, i) { None => None, Some((tag, j)) => match tag {
        64 => match <h::Vec16 as ConstantPoolReadWriteAs<Vec<LocalVarTarget>>>::reads(p, s, j) { None => None, Some((f0, j0)) => Some((CodeTypeAnnotationTarget::LocalVariable(f0), j0)) },
        65 => match <h::Vec16 as ConstantPoolReadWriteAs<Vec<LocalVarTarget>>>::reads(p, s, j) { None => None, Some((f0, j0)) => Some((CodeTypeAnnotationTarget::ResourceVariable(f0), j0)) },
        66 => match <Catch as ConstantPoolReadWrite>::reads(p, s, j) { None => None, Some((f0, j0)) => Some((CodeTypeAnnotationTarget::CatchParameter(f0), j0)) },
        67 => match <Label as ConstantPoolReadWrite>::reads(p, s, j) { None => None, Some((f0, j0)) => Some((CodeTypeAnnotationTarget::InstanceOf(f0), j0)) },
        68 => match <Label as ConstantPoolReadWrite>::reads(p, s, j) { None => None, Some((f0, j0)) => Some((CodeTypeAnnotationTarget::Constructor(f0), j0)) },
        69 => match <Label as ConstantPoolReadWrite>::reads(p, s, j) { None => None, Some((f0, j0)) => Some((CodeTypeAnnotationTarget::ConstructorRef(f0), j0)) },
        70 => match <Label as ConstantPoolReadWrite>::reads(p, s, j) { None => None, Some((f0, j0)) => Some((CodeTypeAnnotationTarget::MethodRef(f0), j0)) },
        71 => match <Label as ConstantPoolReadWrite>::reads(p, s, j) { None => None, Some((f0, j0)) => match <h::Normal as ConstantPoolReadWriteAs<u8>>::reads(p, s, j0) { None => None, Some((f1, j1)) => Some((CodeTypeAnnotationTarget::Cast(f0, f1), j1)) } },
        72 => match <Label as ConstantPoolReadWrite>::reads(p, s, j) { None => None, Some((f0, j0)) => match <h::Normal as ConstantPoolReadWriteAs<u8>>::reads(p, s, j0) { None => None, Some((f1, j1)) => Some((CodeTypeAnnotationTarget::GenericConstructor(f0, f1), j1)) } },
        73 => match <Label as ConstantPoolReadWrite>::reads(p, s, j) { None => None, Some((f0, j0)) => match <h::Normal as ConstantPoolReadWriteAs<u8>>::reads(p, s, j0) { None => None, Some((f1, j1)) => Some((CodeTypeAnnotationTarget::GenericMethod(f0, f1), j1)) } },
        74 => match <Label as ConstantPoolReadWrite>::reads(p, s, j) { None => None, Some((f0, j0)) => match <h::Normal as ConstantPoolReadWriteAs<u8>>::reads(p, s, j0) { None => None, Some((f1, j1)) => Some((CodeTypeAnnotationTarget::GenericConstructorRef(f0, f1), j1)) } },
        75 => match <Label as ConstantPoolReadWrite>::reads(p, s, j) { None => None, Some((f0, j0)) => match <h::Normal as ConstantPoolReadWriteAs<u8>>::reads(p, s, j0) { None => None, Some((f1, j1)) => Some((CodeTypeAnnotationTarget::GenericMethodRef(f0, f1), j1)) } },
        _ => None,
    } } }
    open spec fn good(&self) -> bool { match *self {
        CodeTypeAnnotationTarget::LocalVariable(f0) => <h::Vec16 as ConstantPoolReadWriteAs<Vec<LocalVarTarget>>>::good(f0),
        CodeTypeAnnotationTarget::ResourceVariable(f0) => <h::Vec16 as ConstantPoolReadWriteAs<Vec<LocalVarTarget>>>::good(f0),
        CodeTypeAnnotationTarget::CatchParameter(f0) => <Catch as ConstantPoolReadWrite>::good(&f0),
        CodeTypeAnnotationTarget::InstanceOf(f0) => <Label as ConstantPoolReadWrite>::good(&f0),
        CodeTypeAnnotationTarget::Constructor(f0) => <Label as ConstantPoolReadWrite>::good(&f0),
        CodeTypeAnnotationTarget::ConstructorRef(f0) => <Label as ConstantPoolReadWrite>::good(&f0),
        CodeTypeAnnotationTarget::MethodRef(f0) => <Label as ConstantPoolReadWrite>::good(&f0),
        CodeTypeAnnotationTarget::Cast(f0, f1) => <Label as ConstantPoolReadWrite>::good(&f0) && <h::Normal as ConstantPoolReadWriteAs<u8>>::good(f1),
        CodeTypeAnnotationTarget::GenericConstructor(f0, f1) => <Label as ConstantPoolReadWrite>::good(&f0) && <h::Normal as ConstantPoolReadWriteAs<u8>>::good(f1),
        CodeTypeAnnotationTarget::GenericMethod(f0, f1) => <Label as ConstantPoolReadWrite>::good(&f0) && <h::Normal as ConstantPoolReadWriteAs<u8>>::good(f1),
        CodeTypeAnnotationTarget::GenericConstructorRef(f0, f1) => <Label as ConstantPoolReadWrite>::good(&f0) && <h::Normal as ConstantPoolReadWriteAs<u8>>::good(f1),
        CodeTypeAnnotationTarget::GenericMethodRef(f0, f1) => <Label as ConstantPoolReadWrite>::good(&f0) && <h::Normal as ConstantPoolReadWriteAs<u8>>::good(f1),
    } }
//@ item @expanded fn read_from in impl ConstantPoolReadWrite for CodeTypeAnnotationTarget
//@   derived
//@   errors
//@ end
//@ item @expanded fn write_to in impl ConstantPoolReadWrite for CodeTypeAnnotationTarget
//@   derived
//@ end
}
//@ item src/annotation/type_annotation.rs struct ClassTypeAnnotation
//@   pub
//@   bare
//@   subst Cow<'static, Wtf8Str> => Str
//@ end
impl ConstantPoolReadWrite for ClassTypeAnnotation {
    open spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(Self, int)> { match <h::Normal as ConstantPoolReadWriteAs<ClassTypeAnnotationTarget>>::reads(p, s, i) { None => None, Some((f0, j0)) => match <h::Vec8<h::Normal> as ConstantPoolReadWriteAs<Vec<TypePath>>>::reads(p, s, j0) { None => None, Some((f1, j1)) => match <Type as ConstantPoolReadWrite>::reads(p, s, j1) { None => None, Some((f2, j2)) => match <HashMap<Str, AnnotationValue> as ConstantPoolReadWrite>::reads(p, s, j2) { None => None, Some((f3, j3)) => Some((ClassTypeAnnotation { target: f0, type_path: f1, annotation_type: f2, element_values: f3 }, j3)) } } } } }
    open spec fn good(&self) -> bool { <h::Normal as ConstantPoolReadWriteAs<ClassTypeAnnotationTarget>>::good(self.target) && <h::Vec8<h::Normal> as ConstantPoolReadWriteAs<Vec<TypePath>>>::good(self.type_path) && <Type as ConstantPoolReadWrite>::good(&self.annotation_type) && <HashMap<Str, AnnotationValue> as ConstantPoolReadWrite>::good(&self.element_values) }
//@ item @expanded fn read_from in impl ConstantPoolReadWrite for ClassTypeAnnotation
//@   derived
//@ end
//@ item @expanded fn write_to in impl ConstantPoolReadWrite for ClassTypeAnnotation
//@   derived
//@ end
}
//@ item src/annotation/type_annotation.rs struct MethodTypeAnnotation
//@   pub
//@   bare
//@   subst Cow<'static, Wtf8Str> => Str
//@ end
impl ConstantPoolReadWrite for MethodTypeAnnotation {
    open spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(Self, int)> { match <h::Normal as ConstantPoolReadWriteAs<MethodTypeAnnotationTarget>>::reads(p, s, i) { None => None, Some((f0, j0)) => match <h::Vec8<h::Normal> as ConstantPoolReadWriteAs<Vec<TypePath>>>::reads(p, s, j0) { None => None, Some((f1, j1)) => match <Type as ConstantPoolReadWrite>::reads(p, s, j1) { None => None, Some((f2, j2)) => match <HashMap<Str, AnnotationValue> as ConstantPoolReadWrite>::reads(p, s, j2) { None => None, Some((f3, j3)) => Some((MethodTypeAnnotation { target: f0, type_path: f1, annotation_type: f2, element_values: f3 }, j3)) } } } } }
    open spec fn good(&self) -> bool { <h::Normal as ConstantPoolReadWriteAs<MethodTypeAnnotationTarget>>::good(self.target) && <h::Vec8<h::Normal> as ConstantPoolReadWriteAs<Vec<TypePath>>>::good(self.type_path) && <Type as ConstantPoolReadWrite>::good(&self.annotation_type) && <HashMap<Str, AnnotationValue> as ConstantPoolReadWrite>::good(&self.element_values) }
//@ item @expanded fn read_from in impl ConstantPoolReadWrite for MethodTypeAnnotation
//@   derived
//@ end
//@ item @expanded fn write_to in impl ConstantPoolReadWrite for MethodTypeAnnotation
//@   derived
//@ end
}
//@ item src/annotation/type_annotation.rs struct FieldTypeAnnotation
//@   pub
//@   bare
//@   subst Cow<'static, Wtf8Str> => Str
//@ end
impl ConstantPoolReadWrite for FieldTypeAnnotation {
    open spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(Self, int)> { match <h::Normal as ConstantPoolReadWriteAs<FieldTarget>>::reads(p, s, i) { None => None, Some((f0, j0)) => match <h::Vec8<h::Normal> as ConstantPoolReadWriteAs<Vec<TypePath>>>::reads(p, s, j0) { None => None, Some((f1, j1)) => match <Type as ConstantPoolReadWrite>::reads(p, s, j1) { None => None, Some((f2, j2)) => match <HashMap<Str, AnnotationValue> as ConstantPoolReadWrite>::reads(p, s, j2) { None => None, Some((f3, j3)) => Some((FieldTypeAnnotation { target_type: f0, type_path: f1, annotation_type: f2, element_values: f3 }, j3)) } } } } }
    open spec fn good(&self) -> bool { <h::Normal as ConstantPoolReadWriteAs<FieldTarget>>::good(self.target_type) && <h::Vec8<h::Normal> as ConstantPoolReadWriteAs<Vec<TypePath>>>::good(self.type_path) && <Type as ConstantPoolReadWrite>::good(&self.annotation_type) && <HashMap<Str, AnnotationValue> as ConstantPoolReadWrite>::good(&self.element_values) }
//@ item @expanded fn read_from in impl ConstantPoolReadWrite for FieldTypeAnnotation
//@   derived
//@ end
//@ item @expanded fn write_to in impl ConstantPoolReadWrite for FieldTypeAnnotation
//@   derived
//@ end
}
//@ item src/annotation/type_annotation.rs struct CodeTypeAnnotation
//@   pub
//@   bare
//@   subst Cow<'static, Wtf8Str> => Str
//@ end
impl ConstantPoolReadWrite for CodeTypeAnnotation {
    open spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(Self, int)> { match <CodeTypeAnnotationTarget as ConstantPoolReadWrite>::reads(p, s, i) { None => None, Some((f0, j0)) => match <h::Vec8<h::Normal> as ConstantPoolReadWriteAs<Vec<TypePath>>>::reads(p, s, j0) { None => None, Some((f1, j1)) => match <Type as ConstantPoolReadWrite>::reads(p, s, j1) { None => None, Some((f2, j2)) => match <HashMap<Str, AnnotationValue> as ConstantPoolReadWrite>::reads(p, s, j2) { None => None, Some((f3, j3)) => Some((CodeTypeAnnotation { target: f0, type_path: f1, annotation_type: f2, element_values: f3 }, j3)) } } } } }
    open spec fn good(&self) -> bool { <CodeTypeAnnotationTarget as ConstantPoolReadWrite>::good(&self.target) && <h::Vec8<h::Normal> as ConstantPoolReadWriteAs<Vec<TypePath>>>::good(self.type_path) && <Type as ConstantPoolReadWrite>::good(&self.annotation_type) && <HashMap<Str, AnnotationValue> as ConstantPoolReadWrite>::good(&self.element_values) }
//@ item @expanded fn read_from in impl ConstantPoolReadWrite for CodeTypeAnnotation
//@   derived
//@ end
//@ item @expanded fn write_to in impl ConstantPoolReadWrite for CodeTypeAnnotation
//@   derived
//@ end
}
fn main() {}
}
