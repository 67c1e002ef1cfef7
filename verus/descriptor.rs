// C10: descriptors, parsed and printed.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ assume usize has 64 bits
//@ assume strings by their code points: what codepoints().next(), as_str, push, push_char and push_wtf8 do is proved of the real ones in units wtf8_view and wtf8_build (C04, C05)
//@ assume Formatter::write_char, write! of "L{};" and repeat append what they say; to_string_lossy replaces each lone surrogate by U+FFFD (C05)
//@ drop Wtf8Str, Wtf8String, Cow and Wtf8CodePoints: stand-ins by the code points of the string, or what is left of them
pub struct Text;
pub enum Error { Invalid(&'static str, Text), UnexpectedEnd }
pub type Result<T, E = Error> = core::result::Result<T, E>;
pub fn unexpected_end() -> Error { Error::UnexpectedEnd }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Codepoint { pub value: u32 }
impl PartialEq<char> for Codepoint { fn eq(&self, other: &char) -> bool { self.value == *other as u32 } }
impl vstd::std_specs::cmp::PartialEqSpecImpl<char> for Codepoint {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &char) -> bool { self.value == *o as u32 }
}
impl From<char> for Codepoint { fn from(c: char) -> Self { Codepoint { value: c as u32 } } }
impl vstd::std_specs::convert::FromSpecImpl<char> for Codepoint {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(c: char) -> Self { Codepoint { value: c as u32 } }
}
impl Codepoint {
    #[verifier::external_body]
    pub fn to_char_lossy(&self) -> (r: char) ensures r as u32 == (if 0xD800 <= self.value <= 0xDFFF { 0xFFFD } else { self.value as int }) { unimplemented!() }
}
pub open spec fn split(a: u32, b: u32) -> bool { 0xD800 <= a <= 0xDBFF && 0xDC00 <= b <= 0xDFFF }
/// A string: no pair of surrogates, as that would be one code point.
pub open spec fn canon(s: Seq<u32>) -> bool { forall|i: int| 0 <= i < s.len() - 1 ==> !split(#[trigger] s[i], s[i + 1]) }
pub struct Wtf8String { pub s: Ghost<Seq<u32>> }
impl Wtf8String {
    pub open spec fn view(&self) -> Seq<u32> { self.s@ }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<u32>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, c: Codepoint) requires old(self)@.len() > 0 ==> !split(old(self)@.last(), c.value) ensures final(self)@ == old(self)@.push(c.value) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_char(&mut self, c: char) ensures final(self)@ == old(self)@.push(c as u32) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_wtf8(&mut self, o: &Wtf8String) requires old(self)@.len() > 0 && o@.len() > 0 ==> !split(old(self)@.last(), o@[0]) ensures final(self)@ == old(self)@ + o@ { unimplemented!() }
    #[verifier::external_body]
    pub fn codepoints(&self) -> (r: Wtf8CodePoints) ensures r@ == self@, canon(r@) { unimplemented!() }
}
pub struct Wtf8CodePoints { pub s: Ghost<Seq<u32>> }
impl Wtf8CodePoints {
    pub open spec fn view(&self) -> Seq<u32> { self.s@ }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Codepoint>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(Codepoint { value: old(self)@[0] }) && final(self)@ == old(self)@.skip(1)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: Wtf8String) ensures r@ == self@ { unimplemented!() }
}
pub fn owned(s: Wtf8String) -> (r: Wtf8String) ensures r == s { s }
//@ item src/ty.rs enum Type
//@   pub
//@   bare
//@   subst Cow<'static, Wtf8Str> => Wtf8String
//@ end
/// A descriptor as a value (a vector as its elements, a string as its code points).
pub enum D { P(u32), R(Seq<u32>), A(int, Box<D>), M(Seq<D>, Option<Box<D>>) }
#[verifier::opaque]
pub open spec fn d(t: Type) -> D decreases t {
    match t {
        Type::Byte => D::P('B' as u32), Type::Char => D::P('C' as u32), Type::Double => D::P('D' as u32), Type::Float => D::P('F' as u32),
        Type::Int => D::P('I' as u32), Type::Long => D::P('J' as u32), Type::Boolean => D::P('Z' as u32), Type::Short => D::P('S' as u32),
        Type::Ref(s) => D::R(s@),
        Type::ArrayRef(n, e) => D::A(n as int, Box::new(d(*e))),
        Type::Method { parameters, ret } => D::M(
            Seq::new(parameters@.len(), |i: int| if 0 <= i < parameters@.len() { d(parameters@[i]) } else { D::P(0) }),
            match ret { Some(b) => Some(Box::new(d(*b))), None => None }),
    }
}
pub open spec fn ds(ts: Seq<Type>) -> Seq<D> { Seq::new(ts.len(), |i: int| d(ts[i])) }
/// JVMS 4.3: the text of a descriptor.
pub open spec fn text(t: D) -> Seq<u32> decreases t {
    match t {
        D::P(c) => seq![c],
        D::R(s) => seq!['L' as u32] + s + seq![';' as u32],
        D::A(n, e) => Seq::new(n as nat, |i: int| '[' as u32) + text(*e),
        D::M(ps, r) => seq!['(' as u32] + texts(ps, ps.len() as int) + seq![')' as u32] + (match r { Some(b) => text(*b), None => seq!['V' as u32] }),
    }
}
pub open spec fn texts(ps: Seq<D>, n: int) -> Seq<u32> decreases ps, n {
    if n <= 0 || n > ps.len() { seq![] } else { texts(ps, n - 1) + text(ps[n - 1]) }
}
/// The first `;` from i on, or the end.
#[verifier::opaque]
pub open spec fn semi(s: Seq<u32>, i: int) -> int decreases s.len() - i { if i >= s.len() { s.len() as int } else if s[i] == ';' as u32 { i } else { semi(s, i + 1) } }
/// The first that is no `[` from i on.
#[verifier::opaque]
pub open spec fn run(s: Seq<u32>, i: int) -> int decreases s.len() - i { if i >= s.len() || s[i] != '[' as u32 { i } else { run(s, i + 1) } }
pub open spec fn prim(c: u32) -> bool { c == 'B' as u32 || c == 'C' as u32 || c == 'D' as u32 || c == 'F' as u32 || c == 'I' as u32 || c == 'J' as u32 || c == 'Z' as u32 || c == 'S' as u32 }
/// A field descriptor at the start of s, and its length.
#[verifier::opaque]
pub open spec fn field(s: Seq<u32>) -> Option<(D, int)> decreases s.len() {
    if s.len() == 0 { None }
    else if prim(s[0]) { Some((D::P(s[0]), 1)) }
    else if s[0] == 'L' as u32 { if semi(s, 1) >= s.len() { None } else { Some((D::R(s.subrange(1, semi(s, 1))), semi(s, 1) + 1)) } }
    else if s[0] == '[' as u32 {
        let n = run(s, 1);
        if n > 255 || n < 1 || n > s.len() { None } else { match field(s.skip(n)) { Some((e, k)) => Some((D::A(n, Box::new(e)), n + k)), None => None } }
    } else { None }
}
/// Field descriptors up to a `)` or the end.
#[verifier::opaque]
pub open spec fn fields(s: Seq<u32>) -> Option<(Seq<D>, int)> decreases s.len() {
    if s.len() == 0 || s[0] == ')' as u32 { Some((seq![], 0)) } else {
        match field(s) { Some((e, k)) => if k < 1 || k > s.len() { None } else { match fields(s.skip(k)) { Some((es, n)) => Some((seq![e] + es, k + n)), None => None } }, None => None }
    }
}
/// A descriptor at the start of s.
#[verifier::opaque]
pub open spec fn any(s: Seq<u32>, method: bool) -> Option<(D, int)> {
    if method && s.len() > 0 && s[0] == '(' as u32 {
        match fields(s.skip(1)) {
            None => None,
            Some((ps, n)) => {
                let t = s.skip(1).skip(n);
                if t.len() == 0 { None }
                else if t.len() > 1 && t[1] == 'V' as u32 { Some((D::M(ps, None), n + 3)) }
                else { match field(t.skip(1)) { Some((r, k)) => Some((D::M(ps, Some(Box::new(r))), n + 2 + k)), None => None } }
            }
        }
    } else { field(s) }
}
proof fn skips(s: Seq<u32>) ensures forall|a: int, b: int| 0 <= a && 0 <= b && a + b <= s.len() ==> #[trigger] s.skip(a).skip(b) == s.skip(a + b), s.skip(0) == s
{ assert forall|a: int, b: int| 0 <= a && 0 <= b && a + b <= s.len() implies #[trigger] s.skip(a).skip(b) == s.skip(a + b) by { assert(s.skip(a).skip(b) =~= s.skip(a + b)); } assert(s.skip(0) =~= s); }
proof fn semi_at(s: Seq<u32>, i: int) requires 0 <= i <= s.len() ensures i < s.len() ==> semi(s, i) == (if s[i] == ';' as u32 { i } else { semi(s, i + 1) }), i == s.len() ==> semi(s, i) == i, i <= semi(s, i) <= s.len(), semi(s, i) < s.len() ==> s[semi(s, i)] == ';' as u32 decreases s.len() - i { reveal(semi); if i < s.len() && s[i] != ';' as u32 { semi_at(s, i + 1); } }
proof fn run_at(s: Seq<u32>, i: int) requires 0 <= i <= s.len() ensures i < s.len() && s[i] == '[' as u32 ==> run(s, i) == run(s, i + 1), i == s.len() || s[i] != '[' as u32 ==> run(s, i) == i, i <= run(s, i) <= s.len() decreases s.len() - i { reveal(run); if i < s.len() && s[i] == '[' as u32 { run_at(s, i + 1); } }
proof fn field_len(s: Seq<u32>) ensures field(s) is Some ==> 1 <= field(s)->Some_0.1 <= s.len() decreases s.len()
{ reveal(field); if s.len() > 0 { if s[0] == 'L' as u32 { semi_at(s, 1); } else if s[0] == '[' as u32 { run_at(s, 1); if run(s, 1) <= 255 { field_len(s.skip(run(s, 1))); } } } }
proof fn method_ds() ensures forall|p: Vec<Type>, r: Option<Box<Type>>| #[trigger] d(Type::Method { parameters: p, ret: r }) == D::M(ds(p@), match r { Some(b) => Some(Box::new(d(*b))), None => None })
{
    assert forall|p: Vec<Type>, r: Option<Box<Type>>| #[trigger] d(Type::Method { parameters: p, ret: r }) == D::M(ds(p@), match r { Some(b) => Some(Box::new(d(*b))), None => None }) by {
        reveal(d); assert(d(Type::Method { parameters: p, ret: r })->M_0 =~= ds(p@));
    }
}
spec fn after(ps: Seq<D>, used: int, o: Option<(Seq<D>, int)>) -> Option<(Seq<D>, int)> { match o { None => None, Some((es, n)) => Some((ps + es, used + n)) } }
proof fn one_more(ps: Seq<D>, used: int, s: Seq<u32>)
    requires s.len() > 0, s[0] != ')' as u32
    ensures after(ps, used, fields(s)) == match field(s) { None => None::<(Seq<D>, int)>, Some((e, k)) => after(ps.push(e), used + k, fields(s.skip(k))) }
{ reveal(fields); field_len(s); if field(s) is Some { let (e, k) = field(s)->Some_0; if fields(s.skip(k)) is Some { let es = fields(s.skip(k))->Some_0.0; assert(ps + (seq![e] + es) =~= ps.push(e) + es); } } }
proof fn pushed(ts: Seq<Type>) ensures forall|t: Type| #[trigger] ds(ts.push(t)) == ds(ts).push(d(t))
{ assert forall|t: Type| #[trigger] ds(ts.push(t)) == ds(ts).push(d(t)) by { assert(ds(ts.push(t)) =~= ds(ts).push(d(t))); } }
proof fn simple() ensures
    d(Type::Byte) == D::P('B' as u32), d(Type::Char) == D::P('C' as u32), d(Type::Double) == D::P('D' as u32), d(Type::Float) == D::P('F' as u32),
    d(Type::Int) == D::P('I' as u32), d(Type::Long) == D::P('J' as u32), d(Type::Boolean) == D::P('Z' as u32), d(Type::Short) == D::P('S' as u32),
    forall|s: Wtf8String| #[trigger] d(Type::Ref(s)) == D::R(s@),
    forall|n: u8, e: Box<Type>| #[trigger] d(Type::ArrayRef(n, e)) == D::A(n as int, Box::new(d(*e))),
{ reveal_with_fuel(d, 2); }
spec fn array(s: Seq<u32>, n: int) -> Option<(D, int)> { if n > 255 { None } else { match field(s.skip(n)) { Some((e, k)) => Some((D::A(n, Box::new(e)), n + k)), None => None } } }
proof fn cases(s: Seq<u32>, method: bool)
    ensures
        any(s, false) == field(s), s.len() > 0 && s[0] != '(' as u32 ==> any(s, method) == field(s), s.len() == 0 ==> any(s, method) is None,
        s.len() > 0 && prim(s[0]) ==> field(s) == Some((D::P(s[0]), 1int)),
        s.len() > 0 && s[0] == 'L' as u32 ==> field(s) == (if semi(s, 1) >= s.len() { None } else { Some((D::R(s.subrange(1, semi(s, 1))), semi(s, 1) + 1)) }),
        s.len() > 0 && s[0] == '[' as u32 ==> field(s) == array(s, run(s, 1)),
        s.len() > 0 && !prim(s[0]) && s[0] != 'L' as u32 && s[0] != '[' as u32 ==> field(s) is None,
{ reveal(any); reveal(field); if s.len() > 0 { run_at(s, 1); } }
/// What is behind the parameters of a method.
spec fn result(ps: Seq<D>, n: int, t: Seq<u32>) -> Option<(D, int)> {
    if t.len() == 0 { None }
    else if t.len() > 1 && t[1] == 'V' as u32 { Some((D::M(ps, None), n + 3)) }
    else { match field(t.skip(1)) { Some((r, k)) => Some((D::M(ps, Some(Box::new(r))), n + 2 + k)), None => None } }
}
proof fn method_case(s: Seq<u32>)
    ensures s.len() > 0 && s[0] == '(' as u32 ==> any(s, true) == match fields(s.skip(1)) { None => None, Some((ps, n)) => result(ps, n, s.skip(1).skip(n)) }
{ reveal(any); }
proof fn no_more(ps: Seq<D>, used: int, s: Seq<u32>)
    requires s.len() == 0 || s[0] == ')' as u32
    ensures after(ps, used, fields(s)) == Some((ps, used))
{ reveal(fields); assert(ps + Seq::<D>::empty() =~= ps); }
proof fn none_yet(s: Seq<u32>, ts: Seq<Type>) requires ts.len() == 0 ensures after(ds(ts), 0, fields(s)) == fields(s)
{ if fields(s) is Some { assert(ds(ts) + fields(s)->Some_0.0 =~= fields(s)->Some_0.0); } }
//@ item src/ty.rs fn get_type
//@   optmap
//@   subst wtf_8::Wtf8CodePoints => Wtf8CodePoints
//@   subst crate::error::Error => Error
//@   subst "more than 255 dimensions".into() => Text
//@   subst format!("{ch:?}").into() => Text
//@   subst Cow::Owned => owned
//@   ret r
//@   spec
//@   | requires canon(old(c)@)
//@   | ensures match r {
//@   |     Ok(t) => any(old(c)@, allow_method) is Some && any(old(c)@, allow_method)->Some_0.0 == d(t) && final(c)@ == old(c)@.skip(any(old(c)@, allow_method)->Some_0.1) && 1 <= any(old(c)@, allow_method)->Some_0.1 <= old(c)@.len(),
//@   |     Err(_) => any(old(c)@, allow_method) is None,
//@   | }
//@   | decreases old(c)@.len()
//@   start
//@   | let ghost s = c@; let ghost mut k = 1int;
//@   | proof { cases(s, allow_method); method_case(s); field_len(s); simple(); if s.len() > 0 { semi_at(s, 1); run_at(s, 1); } }
//@   loop 0
//@   | invariant canon(s), 1 <= k <= s.len(), c@ == s.skip(k), st@ == s.subrange(1, k), semi(s, k) == semi(s, 1)
//@   | decreases s.len() - k
//@   loopstart 0
//@   | proof { semi_at(s, k); if k > 1 { assert(!split(s[k - 1], s[k - 1 + 1])); } assert(s.skip(k).skip(1) =~= s.skip(k + 1)); assert(s.subrange(1, k + 1) =~= s.subrange(1, k).push(s[k])); k = k + 1; }
//@   loop 1
//@   | invariant s == old(c)@, 1 <= dim <= s.len(), c@ == s.skip(dim as int), run(s, dim as int) == run(s, 1), any(s, allow_method) == array(s, run(s, 1))
//@   | decreases s.len() - dim
//@   loopstart 1
//@   | proof { run_at(s, dim as int); run_at(s, dim as int + 1); assert(s.skip(dim as int).skip(1) =~= s.skip(dim as int + 1)); }
//@   before let mut types
//@   | proof { none_yet(s.skip(1), Seq::<Type>::empty()); assert(ds(Seq::<Type>::empty()) =~= Seq::<D>::empty()); }
//@   loop 2
//@   | invariant s == old(c)@, canon(s), 1 <= k <= s.len(), c@ == s.skip(k), fields(s.skip(1)) == after(ds(types@), k - 1, fields(c@)), allow_method, any(s, allow_method) == match fields(s.skip(1)) { None => None, Some((ps, n)) => result(ps, n, s.skip(1).skip(n)) },
//@   | decreases c@.len()
//@   loopstart 2
//@   | proof { one_more(ds(types@), k - 1, c@); field_len(c@); cases(c@, false); pushed(types@); if field(c@) is Some { assert(s.skip(k).skip(field(c@)->Some_0.1) =~= s.skip(k + field(c@)->Some_0.1)); k = k + field(c@)->Some_0.1; } }
//@   before if c.next().is_none()
//@   | proof { semi_at(s, k); skips(s); if k < s.len() { cases(s.skip(k + 1), false); field_len(s.skip(k + 1)); } method_ds(); }
//@   before let r = get_type(c, false)
//@   | proof { run_at(s, dim as int); skips(s); cases(c@, false); field_len(c@); }
//@   after types.push(get_type(c, false)?) }
//@   | proof { no_more(ds(types@), k - 1, c@); assert(s.skip(1).skip(k - 1) =~= s.skip(k)); }
//@ end
/// JVMS 4.3: what is a field descriptor.
#[verifier::opaque]
pub open spec fn fine(t: D) -> bool decreases t {
    match t {
        D::P(c) => prim(c),
        D::R(s) => !s.contains(';' as u32),
        D::A(n, e) => 1 <= n <= 255 && !((*e) is A) && fine(*e),
        D::M(..) => false,
    }
}
pub open spec fn all_fine(ps: Seq<D>) -> bool { forall|i: int| 0 <= i < ps.len() ==> fine(#[trigger] ps[i]) }
/// What is a descriptor.
pub open spec fn valid(t: D) -> bool { match t { D::M(ps, r) => all_fine(ps) && match r { Some(b) => fine(*b), None => true }, _ => fine(t) } }
proof fn brackets(n: int) -> (r: Seq<u32>) ensures r == Seq::new(n as nat, |i: int| '[' as u32), forall|i: int| 0 <= i < n ==> r[i] == '[' as u32, n >= 0 ==> r.len() == n { Seq::new(n as nat, |i: int| '[' as u32) }
proof fn semi_none(s: Seq<u32>, i: int) requires 0 <= i <= s.len() ensures forall|j: int| i <= j < semi(s, i) ==> s[j] != ';' as u32 decreases s.len() - i { reveal(semi); if i < s.len() && s[i] != ';' as u32 { semi_none(s, i + 1); } }
proof fn run_all(s: Seq<u32>, i: int) requires 0 <= i <= s.len() ensures forall|j: int| i <= j < run(s, i) ==> s[j] == '[' as u32, run(s, i) < s.len() ==> s[run(s, i)] != '[' as u32 decreases s.len() - i { reveal(run); if i < s.len() && s[i] == '[' as u32 { run_all(s, i + 1); } }
/// What is parsed as a field prints as it was.
proof fn field_text(s: Seq<u32>)
    requires field(s) is Some
    ensures fine(field(s)->Some_0.0), text(field(s)->Some_0.0) == s.take(field(s)->Some_0.1), 1 <= field(s)->Some_0.1 <= s.len()
    decreases s.len()
{
    reveal(field); reveal(fine); 
    field_len(s);
    if prim(s[0]) { assert(seq![s[0]] =~= s.take(1)); }
    else if s[0] == 'L' as u32 {
        let k = semi(s, 1);
        semi_at(s, 1); semi_none(s, 1);
        assert(seq!['L' as u32] + s.subrange(1, k) + seq![';' as u32] =~= s.take(k + 1));
    } else {
        let n = run(s, 1);
        run_at(s, 1); run_all(s, 1);
        field_text(s.skip(n));
        let (e, k) = field(s.skip(n))->Some_0;
        let b = brackets(n);
        assert(b + s.skip(n).take(k) =~= s.take(n + k));
        assert(!(e is A)) by { assert(s.skip(n)[0] == s[n]); }
    }
}
proof fn texts_front(ps: Seq<D>, p: D, n: int)
    requires 0 <= n <= ps.len()
    ensures texts(seq![p] + ps, n + 1) == text(p) + texts(ps, n)
    decreases n
{
    
    let q = seq![p] + ps;
    if n > 0 {
        texts_front(ps, p, n - 1);
        assert(q[n] == ps[n - 1]);
        assert(text(p) + (texts(ps, n - 1) + text(ps[n - 1])) =~= text(p) + texts(ps, n - 1) + text(ps[n - 1]));
    } else { assert(texts(q, 0) =~= seq![]); assert(texts(q, 0) + text(q[0]) =~= text(p) + texts(ps, 0)); }
}
proof fn fields_text(s: Seq<u32>)
    requires fields(s) is Some
    ensures all_fine(fields(s)->Some_0.0), texts(fields(s)->Some_0.0, fields(s)->Some_0.0.len() as int) == s.take(fields(s)->Some_0.1), 0 <= fields(s)->Some_0.1 <= s.len(), fields(s)->Some_0.1 < s.len() ==> s[fields(s)->Some_0.1] == ')' as u32
    decreases s.len()
{
    reveal(fields); 
    if s.len() == 0 || s[0] == ')' as u32 { assert(s.take(0) =~= seq![]); } else {
        field_text(s);
        let (e, k) = field(s)->Some_0;
        fields_text(s.skip(k));
        let (es, n) = fields(s.skip(k))->Some_0;
        texts_front(es, e, es.len() as int);
        assert(s.take(k) + s.skip(k).take(n) =~= s.take(k + n));
    }
}
proof fn any_text(s: Seq<u32>)
    requires any(s, true) is Some
    ensures valid(any(s, true)->Some_0.0), text(any(s, true)->Some_0.0) == s.take(any(s, true)->Some_0.1)
{
    cases(s, true); method_case(s);
    if s.len() > 0 && s[0] == '(' as u32 {
        
        fields_text(s.skip(1));
        let (ps, n) = fields(s.skip(1))->Some_0;
        let t = s.skip(1).skip(n);
        if t.len() > 1 && t[1] == 'V' as u32 {
            assert(seq!['(' as u32] + s.skip(1).take(n) + seq![')' as u32] + seq!['V' as u32] =~= s.take(n + 3));
        } else {
            field_text(t.skip(1));
            let k = field(t.skip(1))->Some_0.1;
            assert(seq!['(' as u32] + s.skip(1).take(n) + seq![')' as u32] + t.skip(1).take(k) =~= s.take(n + 2 + k));
        }
    } else { field_text(s); reveal(fine); }
}
proof fn semi_find(s: Seq<u32>, i: int, k: int) requires 0 <= i <= k < s.len(), s[k] == ';' as u32, forall|j: int| i <= j < k ==> s[j] != ';' as u32 ensures semi(s, i) == k decreases k - i { reveal(semi); if i < k { semi_find(s, i + 1, k); } }
proof fn run_find(s: Seq<u32>, i: int, k: int) requires 0 <= i <= k < s.len(), s[k] != '[' as u32, forall|j: int| i <= j < k ==> s[j] == '[' as u32 ensures run(s, i) == k decreases k - i { reveal(run); if i < k { run_find(s, i + 1, k); } }
proof fn fine_text(t: D) requires fine(t) ensures text(t).len() > 0, text(t)[0] != ')' as u32, text(t)[0] != '(' as u32, text(t)[0] != 'V' as u32, text(t)[0] == '[' as u32 <==> t is A
{  reveal(fine); match t { D::A(n, e) => { brackets(n); } _ => {} } }
/// What is printed is parsed to what it was, whatever is behind it.
proof fn text_field(t: D, u: Seq<u32>)
    requires fine(t)
    ensures field(text(t) + u) == Some((t, text(t).len() as int))
    decreases t
{
    let s = text(t) + u;
     reveal(fine); reveal(field);
    match t {
        D::P(c) => { assert(s[0] == c); }
        D::R(name) => {
            let k = 1 + name.len() as int;
            assert(s[0] == 'L' as u32);
            assert(s[k] == ';' as u32);
            assert forall|j: int| 1 <= j < k implies s[j] != ';' as u32 by { assert(s[j] == name[j - 1]); assert(name.contains(name[j - 1])); }
            semi_find(s, 1, k);
            assert(s.subrange(1, k) =~= name);
        }
        D::A(n, e) => {
            let b = brackets(n);
            fine_text(*e);
            assert(s =~= b + (text(*e) + u));
            assert(s[n] == text(*e)[0]);
            run_find(s, 1, n);
            assert(s.skip(n) =~= text(*e) + u);
            text_field(*e, u);
        }
        _ => {}
    }
}
proof fn text_fields(ps: Seq<D>, u: Seq<u32>)
    requires all_fine(ps), u.len() > 0, u[0] == ')' as u32
    ensures fields(texts(ps, ps.len() as int) + u) == Some((ps, texts(ps, ps.len() as int).len() as int))
    decreases ps.len()
{
    reveal(fields); 
    if ps.len() == 0 { assert(texts(ps, 0) + u =~= u); assert(ps =~= seq![]); } else {
        let (p, q) = (ps[0], ps.skip(1));
        assert(ps =~= seq![p] + q);
        texts_front(q, p, q.len() as int);
        let s = texts(ps, ps.len() as int) + u;
        let v = texts(q, q.len() as int) + u;
        assert(s =~= text(p) + v);
        text_field(p, v);
        fine_text(p);
        assert(s.skip(text(p).len() as int) =~= v);
        text_fields(q, u);
    }
}
proof fn text_any(t: D)
    requires valid(t)
    ensures any(text(t), true) == Some((t, text(t).len() as int))
{
    let s = text(t);
    cases(s, true); method_case(s);
    match t {
        D::M(ps, r) => {
            
            let b = texts(ps, ps.len() as int);
            let z = match r { Some(x) => text(*x), None => seq!['V' as u32] };
            assert(s.skip(1) =~= b + (seq![')' as u32] + z));
            text_fields(ps, seq![')' as u32] + z);
            let v = s.skip(1).skip(b.len() as int);
            assert(v =~= seq![')' as u32] + z);
            assert(v.skip(1) =~= z);
            match r { Some(x) => { fine_text(*x); text_field(*x, seq![]); assert(text(*x) + seq![] =~= z); } None => {} }
        }
        _ => { fine_text(t); text_field(t, seq![]); assert(text(t) + seq![] =~= s); }
    }
}
//@ item src/ty.rs fn parse_type
//@   cut fn get_type
//@   subst &Wtf8Str => &Wtf8String
//@   subst crate::error::Error => Error
//@   subst format!("{s:?} has trailing characters").into() => Text
//@   ret r
//@   spec
//@   | ensures match r {
//@   |     Ok(t) => valid(d(t)) && text(d(t)) == s@,
//@   |     Err(_) => forall|t: D| #[trigger] valid(t) ==> text(t) != s@,
//@   | }
//@   start
//@   | proof {
//@   |     if any(s@, true) is Some { any_text(s@); assert(s@.take(s@.len() as int) =~= s@); }
//@   |     assert forall|t: D| #[trigger] valid(t) && text(t) == s@ implies any(s@, true) == Some((t, s@.len() as int)) by { text_any(t); }
//@   | }
//@ end
proof fn texts_all(p: Seq<Type>, k: int) requires 0 <= k < p.len() ensures texts(ds(p), k + 1) == texts(ds(p), k) + text(d(p[k])), texts(ds(p), 0) == Seq::<u32>::empty() {  }
//@ item src/ty.rs fn write_type
//@   attr
//@   | #[verifier::loop_isolation(false)]
//@   spec
//@   | ensures final(s)@ == old(s)@ + text(d(*t))
//@   | decreases t
//@   start
//@   | let ghost s0 = s@;
//@   | proof {  simple(); method_ds(); }
//@   loop 0
//@   | invariant s@ == s0 + Seq::new(it.index() as nat, |i: int| '[' as u32)
//@   iter 0 it
//@   loop 1
//@   | invariant s@ == s0.push('(' as u32) + texts(ds(params@), it.index()), it.seq() == params@.map_values(|e: Type| &e),
//@   iter 1 it
//@   loopstart 1
//@   | proof { assert(*t == params@[it.index()]); }
//@ end
impl Wtf8String {
//@ item src/ty.rs fn from in impl<'a> From<&'a Type> for Wtf8String
//@   pub
//@   subst &'a Type => &Type
//@   ret r
//@   spec
//@   | ensures r@ == text(d(*t))
//@ end
}
pub open spec fn plain(c: u32) -> u32 { if 0xD800 <= c <= 0xDFFF { 0xFFFD } else { c } }
pub open spec fn lossy(s: Seq<u32>) -> Seq<u32> { Seq::new(s.len(), |i: int| plain(s[i])) }
/// The text with lone surrogates replaced.
pub open spec fn ltext(t: D) -> Seq<u32> decreases t {
    match t {
        D::R(s) => seq!['L' as u32] + lossy(s) + seq![';' as u32],
        D::A(n, e) => Seq::new(n as nat, |i: int| '[' as u32) + ltext(*e),
        D::M(ps, r) => seq!['(' as u32] + ltexts(ps, ps.len() as int) + seq![')' as u32] + (match r { Some(b) => ltext(*b), None => seq!['V' as u32] }),
        D::P(c) => seq![c],
    }
}
pub open spec fn ltexts(ps: Seq<D>, n: int) -> Seq<u32> decreases ps, n {
    if n <= 0 || n > ps.len() { seq![] } else { ltexts(ps, n - 1) + ltext(ps[n - 1]) }
}
proof fn lossy_cat(a: Seq<u32>, b: Seq<u32>) ensures lossy(a + b) == lossy(a) + lossy(b) { assert(lossy(a + b) =~= lossy(a) + lossy(b)); }
/// The plain text is the exact one up to lone surrogates.
proof fn same_text(t: D)
    requires valid(t)
    ensures ltext(t) == lossy(text(t))
    decreases t
{
    match t {
        D::R(s) => { assert(ltext(t) =~= lossy(text(t))); }
        D::A(n, e) => { reveal(fine); fine_valid(*e); same_text(*e); let b = brackets(n); lossy_cat(b, text(*e)); assert(lossy(b) =~= b); }
        D::M(ps, r) => {
            same_texts(ps, ps.len() as int);
            let b = texts(ps, ps.len() as int);
            let z = match r { Some(x) => text(*x), None => seq!['V' as u32] };
            match r { Some(x) => { fine_valid(*x); same_text(*x); } None => { assert(lossy(z) =~= z); } }
            assert(ltext(t) =~= lossy(text(t)));
        }
        D::P(c) => { reveal(fine); assert(ltext(t) =~= lossy(text(t))); }
    }
}
proof fn fine_valid(t: D) requires fine(t) ensures valid(t) { reveal(fine); }
proof fn same_texts(ps: Seq<D>, n: int)
    requires all_fine(ps), 0 <= n <= ps.len()
    ensures ltexts(ps, n) == lossy(texts(ps, n))
    decreases ps, n
{ if n > 0 { same_texts(ps, n - 1); fine_valid(ps[n - 1]); same_text(ps[n - 1]); lossy_cat(texts(ps, n - 1), text(ps[n - 1])); } else { assert(ltexts(ps, n) =~= lossy(texts(ps, n))); } }
pub struct FmtError;
pub struct Formatter { pub s: Ghost<Seq<u32>> }
impl Formatter {
    pub open spec fn view(&self) -> Seq<u32> { self.s@ }
    #[verifier::external_body]
    pub fn write_char(&mut self, c: char) -> (r: Result<(), FmtError>) ensures r is Ok ==> final(self)@ == old(self)@.push(c as u32) { unimplemented!() }
}
#[verifier::external_body]
pub fn write_ref(f: &mut Formatter, s: &Wtf8String) -> (r: Result<(), FmtError>) ensures r is Ok ==> final(f)@ == old(f)@ + (seq!['L' as u32] + lossy(s@) + seq![';' as u32]) { unimplemented!() }
#[verifier::external_body]
pub fn write_times(f: &mut Formatter, c: char, n: usize) -> (r: Result<(), FmtError>) ensures r is Ok ==> final(f)@ == old(f)@ + Seq::new(n as nat, |i: int| c as u32) { unimplemented!() }
impl Type {
//@ item src/ty.rs fn fmt in impl Display for Type
//@   attr
//@   | #[verifier::loop_isolation(false)]
//@   subst use std::fmt::Write; => {}
//@   subst Formatter<'_> => Formatter
//@   subst std::fmt::Error => FmtError
//@   subst write!(f, "L{};", s.to_string_lossy()) => write_ref(f, s)
//@   subst "[".repeat(*dim as usize).fmt(f) => write_times(f, '[', *dim as usize)
//@   ret r
//@   spec
//@   | ensures r is Ok ==> final(f)@ == old(f)@ + ltext(d(*self))
//@   | decreases self
//@   start
//@   | let ghost s0 = f@;
//@   | proof { simple(); method_ds(); }
//@   loop 0
//@   | invariant f@ == s0.push('(' as u32) + ltexts(ds(params@), it.index()), it.seq() == params@.map_values(|e: Type| &e),
//@   iter 0 it
//@   loopstart 0
//@   | proof { assert(*t == params@[it.index()]); }
//@ end
//@ item src/ty.rs fn is_method in impl Type
//@   ret r
//@   spec
//@   | ensures r == (d(*self) is M)
//@   start
//@   | proof { reveal(d); }
//@ end
}
fn main() {}
}
