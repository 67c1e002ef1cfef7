// C07, C08: the constant pool as it is built, written and read.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ assume usize has 64 bits; the pool has fewer than 2^64 - 2 slots (its entries are in memory)
//@ assume reading and writing one entry: it is appended as its bytes, which are read back to it and nothing behind them (C06, proved by Kani of the compiled code for every kind of entry but text, which is C02 and C03)
//@ assume HashMap is a map: entry, Entry::get, insert, get and new do what the standard library says, with keys compared by a derived == that is equality (that of floats: C22)
//@ assume clone of an entry is equal to it; u16::from_be_bytes and to_be_bytes; readers and writers are in memory or behave as such
//@ drop the types of text, floats and cells in entries and pools: stand-ins without contents
//@ include io.inc
pub struct Utf8;
pub struct TotalF32;
pub struct TotalF64;
//@ item src/cp.rs enum RawConstantEntry
//@   pub
//@   bare
//@   subst Cow<'static, Wtf8Str> => Utf8
//@ end
pub open spec fn wide(e: RawConstantEntry) -> bool { e is Long || e is Double }
pub open spec fn room(e: RawConstantEntry) -> int { if wide(e) { 2 } else { 1 } }
pub uninterp spec fn entry_bytes(e: RawConstantEntry) -> Seq<u8>;
pub uninterp spec fn entry_fits(e: RawConstantEntry) -> bool;
pub uninterp spec fn entry_parse(s: Seq<u8>) -> Option<(RawConstantEntry, int)>;
impl ReadWrite for RawConstantEntry {
    open spec fn bytes(&self) -> Seq<u8> { entry_bytes(*self) }
    open spec fn fits(&self) -> bool { entry_fits(*self) }
    open spec fn parse(s: Seq<u8>) -> Option<(Self, int)> { entry_parse(s) }
    #[verifier::external_body]
    fn read_from<T: Read>(reader: &mut T) -> Result<Self> { unimplemented!() }
    #[verifier::external_body]
    fn write_to<T: Write>(&self, writer: &mut T) -> Result<()> { unimplemented!() }
}
impl Clone for RawConstantEntry {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl RawConstantEntry {
//@ item src/cp.rs fn size
//@   pub
//@   ret r
//@   spec
//@   | ensures r == room(*self)
//@ end
}
pub struct HashMap<K, V> { pub m: Ghost<Map<K, V>>, pub p: core::marker::PhantomData<(K, V)> }
pub struct OccupiedEntry<'a, K, V> { pub map: &'a mut HashMap<K, V>, pub key: K }
pub struct VacantEntry<'a, K, V> { pub map: &'a mut HashMap<K, V>, pub key: K }
pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
impl<K, V> HashMap<K, V> {
    pub open spec fn view(&self) -> Map<K, V> { self.m@ }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn entry<'a>(&'a mut self, k: K) -> (r: Entry<'a, K, V>)
        ensures match r {
            Entry::Occupied(e) => old(self)@.contains_key(k) && e.key == k && *e.map == *old(self) && *final(e.map) == *final(self),
            Entry::Vacant(e) => !old(self)@.contains_key(k) && e.key == k && *e.map == *old(self) && *final(e.map) == *final(self),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures r == (if self@.contains_key(*k) { Some(&self@[*k]) } else { None }) { unimplemented!() }
}
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    #[verifier::external_body]
    pub fn get(&self) -> (r: &V) ensures *r == old(self.map)@[self.key] { unimplemented!() }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    #[verifier::external_body]
    pub fn insert(self, v: V) ensures final(self.map)@ == old(self.map)@.insert(self.key, v) { unimplemented!() }
}
pub struct BootstrapMethod;
//@ item src/cp.rs struct VecCp
//@ end
pub uninterp spec fn same(a: BootstrapMethod, b: BootstrapMethod) -> bool;
/// Iterator::position: the first that is equal.
#[verifier::external_body]
fn position(v: &Vec<BootstrapMethod>, x: &BootstrapMethod) -> (r: Option<usize>)
    ensures match r { Some(i) => i < v.len() && same(v[i as int], *x), None => forall|k: int| 0 <= k < v.len() ==> !same(#[trigger] v[k], *x) }
{ unimplemented!() }
pub struct Cell;
//@ item src/cp.rs struct MapCp
//@   bare
//@   subst Arc<OnceCell<BootstrapMethod>> => Cell
//@ end
/// The index of entry k: behind those before it, of which longs and doubles take two.
spec fn slot(es: Seq<RawConstantEntry>, k: int) -> int decreases k { if k <= 0 { 1 } else { slot(es, k - 1) + room(es[k - 1]) } }
proof fn pushed(es: Seq<RawConstantEntry>, v: RawConstantEntry)
    ensures
        forall|k: int| 0 <= k <= es.len() ==> #[trigger] slot(es.push(v), k) == slot(es, k), slot(es.push(v), es.len() as int + 1) == slot(es, es.len() as int) + room(v),
        !es.contains(v) && es.no_duplicates() ==> es.push(v).no_duplicates(),
        forall|e: RawConstantEntry| #[trigger] es.contains(e) ==> es.push(v).contains(e), es.push(v)[es.len() as int] == v, es.push(v).contains(v),
        es.contains(v) ==> exists|k: int| 0 <= k < es.len() && #[trigger] es[k] == v,
{
    assert forall|k: int| 0 <= k <= es.len() implies #[trigger] slot(es.push(v), k) == slot(es, k) by { same_slot(es, v, k); }
    assert(es.push(v).last() == v);
    assert forall|e: RawConstantEntry| #[trigger] es.contains(e) implies es.push(v).contains(e) by { let k = choose|k: int| 0 <= k < es.len() && es[k] == e; assert(es.push(v)[k] == e); }
    assert(es.push(v)[es.len() as int] == v);
    assert(slot(es.push(v), es.len() as int) == slot(es, es.len() as int));
}
proof fn same_slot(es: Seq<RawConstantEntry>, v: RawConstantEntry, k: int)
    requires 0 <= k <= es.len()
    ensures slot(es.push(v), k) == slot(es, k)
    decreases k
{ if k > 0 { same_slot(es, v, k - 1); } }
/// The bytes of the entries from k on.
spec fn body(es: Seq<RawConstantEntry>, k: int) -> Seq<u8> decreases es.len() - k { if k >= es.len() || k < 0 { seq![] } else { entry_bytes(es[k]) + body(es, k + 1) } }
spec fn head(es: Seq<RawConstantEntry>, k: int) -> Seq<u8> decreases k { if k <= 0 { seq![] } else { head(es, k - 1) + entry_bytes(es[k - 1]) } }
proof fn head_body(es: Seq<RawConstantEntry>, k: int)
    requires 0 <= k <= es.len()
    ensures head(es, k) + body(es, k) == body(es, 0)
    decreases k
{ if k > 0 { head_body(es, k - 1); assert(head(es, k) + body(es, k) =~= head(es, k - 1) + (entry_bytes(es[k - 1]) + body(es, k))); } else { assert(head(es, 0) + body(es, 0) =~= body(es, 0)); } }
proof fn all_written(f: Seq<u8>, es: Seq<RawConstantEntry>) ensures f + head(es, es.len() as int) == f + body(es, 0), f + head(es, 0) == f
{ head_body(es, es.len() as int); assert(head(es, es.len() as int) + body(es, es.len() as int) =~= head(es, es.len() as int)); assert(f + head(es, 0) =~= f); }
/// A pool whose entries from index i on stand in s: the entries by index, and the number of bytes.
spec fn pool(s: Seq<u8>, i: int, count: int) -> Option<(Map<u16, RawConstantEntry>, int)> decreases (if i < count { count - i } else { 0 }) {
    if i >= count { Some((Map::empty(), 0)) } else {
        match entry_parse(s) {
            None => None,
            Some((e, n)) => match pool(s.skip(n), i + room(e), count) { None => None, Some((m, k)) => Some((m.insert(i as u16, e), n + k)) },
        }
    }
}
type Found = Option<(Map<u16, RawConstantEntry>, int)>;
/// With what came before.
spec fn behind(m: Map<u16, RawConstantEntry>, used: int, p: Found) -> Found { match p { None => None, Some((n, k)) => Some((m.union_prefer_right(n), used + k)) } }
/// What is read lies within the input.
#[verifier::external_body]
proof fn parsed(s: Seq<u8>) ensures entry_parse(s) is Some ==> 0 < entry_parse(s)->Some_0.1 <= s.len() {}
proof fn keys(s: Seq<u8>, i: int, count: int)
    requires 0 <= i, count <= 65535
    ensures pool(s, i, count) is Some ==> forall|k: u16| #[trigger] pool(s, i, count)->Some_0.0.contains_key(k) ==> i <= k < count
    decreases (if i < count { count - i } else { 0 })
{ if i < count && entry_parse(s) is Some { let (e, n) = entry_parse(s)->Some_0; keys(s.skip(n), i + room(e), count); } }
proof fn next(m: Map<u16, RawConstantEntry>, used: int, s: Seq<u8>, i: int, count: int)
    requires 0 <= i < count <= 65535
    ensures behind(m, used, pool(s, i, count)) == match entry_parse(s) { None => None::<(Map<u16, RawConstantEntry>, int)>, Some((e, n)) => behind(m.insert(i as u16, e), used + n, pool(s.skip(n), i + room(e), count)) }
{
    if entry_parse(s) is Some {
        let (e, n) = entry_parse(s)->Some_0;
        keys(s.skip(n), i + room(e), count);
        if pool(s.skip(n), i + room(e), count) is Some {
            let p = pool(s.skip(n), i + room(e), count)->Some_0.0;
            assert(m.union_prefer_right(p.insert(i as u16, e)) =~= m.insert(i as u16, e).union_prefer_right(p));
        }
    }
}
impl VecCp {
    spec fn all(&self) -> Seq<RawConstantEntry> { self.entries@ }
    spec fn wf(&self) -> bool {
        let es = self.entries@;
        &&& self.len == slot(es, es.len() as int)
        &&& forall|k: int| 0 <= k < es.len() ==> self.cache@.contains_key(#[trigger] es[k]) && self.cache@[es[k]] == slot(es, k) as u16
        &&& forall|e: RawConstantEntry| #[trigger] self.cache@.contains_key(e) ==> es.contains(e)
        &&& es.no_duplicates()
    }
//@ item src/cp.rs fn new in impl VecCp
//@   ret r
//@   spec
//@   | ensures r.wf(), r.all() == Seq::<RawConstantEntry>::empty(), r.bsm@ == Seq::<BootstrapMethod>::empty()
//@ end
//@ item src/cp.rs fn insert_raw in impl ConstantPoolWriter for VecCp
//@   ret r
//@   spec
//@   | requires old(self).wf(), old(self).len < usize::MAX - 2
//@   | ensures
//@   |     final(self).wf(), final(self).bsm == old(self).bsm,
//@   |     old(self).all().contains(value) ==> final(self).all() == old(self).all(),
//@   |     !old(self).all().contains(value) ==> final(self).all() == old(self).all().push(value),
//@   |     exists|k: int| 0 <= k < final(self).all().len() && #[trigger] final(self).all()[k] == value && r == slot(final(self).all(), k) as u16,
//@   start
//@   | proof { pushed(self.entries@, value); }
//@ end
//@ item src/cp.rs fn insert_bsm in impl ConstantPoolWriter for VecCp
//@   subst self.bsm.iter().position(|b| *b == bsm) => position(&self.bsm, &bsm)
//@   ret r
//@   spec
//@   | requires old(self).wf(), old(self).bsm.len() < usize::MAX
//@   | ensures
//@   |     final(self).wf(), final(self).all() == old(self).all(),
//@   |     final(self).bsm@ == (if exists|k: int| 0 <= k < old(self).bsm.len() && same(#[trigger] old(self).bsm[k], bsm) { old(self).bsm@ } else { old(self).bsm@.push(bsm) }),
//@   |     exists|k: int| 0 <= k < final(self).bsm.len() && r == k as u16 && (same(#[trigger] final(self).bsm@[k], bsm) || final(self).bsm@[k] == bsm),
//@   start
//@   | proof { assert(self.bsm@.push(bsm)[self.bsm@.len() as int] == bsm); }
//@ end
//@ item src/cp.rs fn write_to in impl ReadWrite for VecCp
//@   ret r
//@   spec
//@   | requires self.wf()
//@   | ensures
//@   |     r is Ok ==> slot(self.all(), self.all().len() as int) <= 65535 && final(writer).out() == old(writer).out() + be16(slot(self.all(), self.all().len() as int)) + body(self.all(), 0),
//@   |     r is Ok ==> forall|k: int| 0 <= k < self.all().len() ==> entry_fits(#[trigger] self.all()[k]),
//@   |     old(writer).out().is_prefix_of(final(writer).out())
//@   start
//@   | proof { all_written(writer.out() + be16(slot(self.entries@, self.entries@.len() as int)), self.entries@); }
//@   | let ghost es = self.entries@; let ghost front = writer.out() + be16(slot(es, es.len() as int));
//@   iter 0 it
//@   loop 0
//@   | invariant
//@   |     old(writer).out().is_prefix_of(writer.out()), es == self.entries@, it.seq() == es.map_values(|e: RawConstantEntry| &e),
//@   |     writer.out() == front + head(es, it.index()),
//@   |     forall|k: int| 0 <= k < it.index() ==> entry_fits(#[trigger] es[k]),
//@ end
}
/// C06: an entry's bytes are read back to it, whatever is behind them.
#[verifier::external_body]
proof fn entry_back(e: RawConstantEntry, t: Seq<u8>) ensures entry_fits(e) ==> entry_parse(entry_bytes(e) + t) == Some((e, entry_bytes(e).len() as int)) {}
proof fn slots_grow(es: Seq<RawConstantEntry>, i: int, k: int)
    requires 0 <= i <= k <= es.len()
    ensures 1 + i <= slot(es, i), slot(es, i) + (k - i) <= slot(es, k), i < k ==> slot(es, i) + room(es[i]) <= slot(es, k)
    decreases k
{ if k > i { slots_grow(es, i, k - 1); } else if k > 0 { slots_grow(es, k - 1, k - 1); } }
/// The index k stands for, if e is there.
spec fn at(es: Seq<RawConstantEntry>, k: int, m: Map<u16, RawConstantEntry>) -> bool { m.contains_key(slot(es, k) as u16) && m[slot(es, k) as u16] == es[k] }
proof fn back(es: Seq<RawConstantEntry>, k: int, t: Seq<u8>)
    requires 0 <= k <= es.len(), slot(es, es.len() as int) <= 65535, forall|j: int| 0 <= j < es.len() ==> entry_fits(#[trigger] es[j])
    ensures
        pool(body(es, k) + t, slot(es, k), slot(es, es.len() as int)) is Some,
        pool(body(es, k) + t, slot(es, k), slot(es, es.len() as int))->Some_0.1 == body(es, k).len(),
        forall|j: int| k <= j < es.len() ==> #[trigger] at(es, j, pool(body(es, k) + t, slot(es, k), slot(es, es.len() as int))->Some_0.0),
        forall|i: u16| #[trigger] pool(body(es, k) + t, slot(es, k), slot(es, es.len() as int))->Some_0.0.contains_key(i) ==> exists|j: int| k <= j < es.len() && i == #[trigger] slot(es, j),
    decreases es.len() - k
{
    slots_grow(es, k, es.len() as int);
    if k < es.len() {
        let b = entry_bytes(es[k]);
        entry_back(es[k], body(es, k + 1) + t);
        assert(body(es, k) + t =~= b + (body(es, k + 1) + t));
        assert((b + (body(es, k + 1) + t)).skip(b.len() as int) =~= body(es, k + 1) + t);
        back(es, k + 1, t);
        assert(slot(es, k + 1) == slot(es, k) + room(es[k]));
        let m = pool(body(es, k) + t, slot(es, k), slot(es, es.len() as int))->Some_0.0;
        assert forall|j: int| k <= j < es.len() implies #[trigger] at(es, j, m) by {
            slots_grow(es, k, j);
            slots_grow(es, j, es.len() as int);
            if j > k { assert(at(es, j, pool(body(es, k + 1) + t, slot(es, k + 1), slot(es, es.len() as int))->Some_0.0)); }
        }
        assert forall|i: u16| #[trigger] m.contains_key(i) implies exists|j: int| k <= j < es.len() && i == #[trigger] slot(es, j) by {
            if i == slot(es, k) { } else { assert(pool(body(es, k + 1) + t, slot(es, k + 1), slot(es, es.len() as int))->Some_0.0.contains_key(i)); }
        }
    }
}
/// A pool that is written, with anything behind it, and what is read of it.
proof fn written_and_read(cp: VecCp, t: Seq<u8>)
    requires cp.wf(), slot(cp.all(), cp.all().len() as int) <= 65535, forall|k: int| 0 <= k < cp.all().len() ==> entry_fits(#[trigger] cp.all()[k])
    ensures ({
        let n = slot(cp.all(), cp.all().len() as int);
        let s = be16(n) + body(cp.all(), 0) + t;
        &&& num16(s) == n
        &&& pool(s.skip(2), 1, n) is Some
        &&& s.skip(2 + pool(s.skip(2), 1, n)->Some_0.1) == t
        &&& forall|k: int| 0 <= k < cp.all().len() ==> #[trigger] at(cp.all(), k, pool(s.skip(2), 1, n)->Some_0.0)
    })
{
    let es = cp.all();
    let n = slot(es, es.len() as int);
    slots_grow(es, 0, es.len() as int);
    let s = be16(n) + body(es, 0) + t;
    back(es, 0, t);
    assert(s.skip(2) =~= body(es, 0) + t);
    assert(s.skip(2 + body(es, 0).len() as int) =~= t);
}
impl MapCp {
//@ item src/cp.rs fn new in impl MapCp
//@   ret r
//@   spec
//@   | ensures r.entries@ == Map::<u16, RawConstantEntry>::empty()
//@ end
//@ item src/cp.rs fn read_from in impl ReadWrite for MapCp
//@   ret r
//@   spec
//@   | ensures match r {
//@   |     Ok(cp) => old(reader).rest().len() >= 2 && pool(old(reader).rest().skip(2), 1, num16(old(reader).rest())) is Some
//@   |         && cp.entries@ == pool(old(reader).rest().skip(2), 1, num16(old(reader).rest()))->Some_0.0
//@   |         && final(reader).rest() == old(reader).rest().skip(2 + pool(old(reader).rest().skip(2), 1, num16(old(reader).rest()))->Some_0.1),
//@   |     Err(_) => old(reader).rest().len() < 2 || pool(old(reader).rest().skip(2), 1, num16(old(reader).rest())) is None,
//@   | }
//@   before let mut i
//@   | let ghost s = reader.rest(); let ghost mut used = 0int;
//@   loop 0
//@   | invariant
//@   |     i >= 1, old(reader).rest().len() >= 2, s == old(reader).rest().skip(2), count == num16(old(reader).rest()),
//@   |     0 <= used <= s.len(), reader.rest() == s.skip(used),
//@   |     pool(s, 1, count as int) == behind(cp.entries@, used, pool(reader.rest(), i as int, count as int)),
//@   | decreases (if i < count { count - i } else { 0 })
//@   loopstart 0
//@   | proof { parsed(reader.rest()); next(cp.entries@, used, reader.rest(), i as int, count as int); if entry_parse(reader.rest()) is Some { used = used + entry_parse(reader.rest())->Some_0.1; } }
//@ end
//@ item src/cp.rs fn read_raw in impl ConstantPoolReader for MapCp
//@   ret r
//@   spec
//@   | ensures *final(self) == *old(self), r == (if old(self).entries@.contains_key(idx) { Some(old(self).entries@[idx]) } else { None })
//@ end
}
fn main() {}
}
