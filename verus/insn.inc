//@ drop IndexMap: a stand-in by the sequence of its pairs, with what happens to a key that is there already
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct IndexMap<K, V> { pub s: Ghost<Seq<(K, V)>> }
pub open spec fn put<K, V>(s: Seq<(K, V)>, k: K, v: V) -> Seq<(K, V)> {
    if exists|i: int| 0 <= i < s.len() && s[i].0 == k { let i = choose|i: int| 0 <= i < s.len() && s[i].0 == k; s.update(i, (k, v)) } else { s.push((k, v)) }
}
impl<K, V> IndexMap<K, V> {
    pub open spec fn view(&self) -> Seq<(K, V)> { self.s@ }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<(K, V)>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn put(&mut self, x: (K, V)) ensures final(self)@ == put(old(self)@, x.0, x.1) { unimplemented!() }
}
//@ item src/code/structure.rs enum FloatType
//@   pub
//@   bare
//@   attr
//@   | #[derive(Copy, Clone)]
//@ end
//@ item src/code/structure.rs enum NaNBehavior
//@   pub
//@   bare
//@   attr
//@   | #[derive(Copy, Clone)]
//@ end
//@ item src/code/structure.rs enum JumpCondition
//@   pub
//@   bare
//@   attr
//@   | #[derive(Copy, Clone)]
//@ end
//@ item src/code/structure.rs enum LoadOrStore
//@   pub
//@   bare
//@   attr
//@   | #[derive(Copy, Clone)]
//@ end
//@ item src/code/structure.rs enum GetOrPut
//@   pub
//@   bare
//@   attr
//@   | #[derive(Copy, Clone)]
//@ end
//@ item src/code/structure.rs enum MemberType
//@   pub
//@   bare
//@   attr
//@   | #[derive(Copy, Clone)]
//@ end
//@ item src/code/structure.rs enum LocalType
//@   pub
//@   bare
//@   attr
//@   | #[derive(Copy, Clone)]
//@ end
//@ item src/code/structure.rs enum ArrayType
//@   pub
//@   bare
//@   attr
//@   | #[derive(Copy, Clone)]
//@ end
//@ item src/code/structure.rs enum NumberType
//@   pub
//@   bare
//@   attr
//@   | #[derive(Copy, Clone)]
//@ end
//@ item src/code/structure.rs enum BitType
//@   pub
//@   bare
//@   attr
//@   | #[derive(Copy, Clone)]
//@ end
//@ item src/code/structure.rs enum IntType
//@   pub
//@   bare
//@   attr
//@   | #[derive(Copy, Clone)]
//@ end
//@ item src/code/structure.rs enum FloatOperation
//@   pub
//@   bare
//@   attr
//@   | #[derive(Copy, Clone)]
//@ end
//@ item src/code/structure.rs enum IntOperation
//@   pub
//@   bare
//@   attr
//@   | #[derive(Copy, Clone)]
//@ end
//@ item src/code/structure.rs enum MonitorOperation
//@   pub
//@   bare
//@   attr
//@   | #[derive(Copy, Clone)]
//@ end
//@ item src/code/structure.rs enum ClassType
//@   pub
//@   bare
//@   subst Cow<'static, Wtf8Str> => Str
//@ end
//@ item src/code/structure.rs enum Instruction
//@   pub
//@   bare
//@   subst Cow<'static, Wtf8Str> => Str
//@ end
