// C14: where branches stand and how big they are.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ assume usize has 64 bits
//@ assume the code is shorter than 2^48 bytes (it is in memory)
//@ item src/code.rs enum Branch
//@ end
spec fn sum(runs: Seq<usize>, n: int) -> int decreases n { if n <= 0 { 0 } else { sum(runs, n - 1) + runs[n - 1] } }
/// Room for a branch at most.
spec fn room(b: Branch) -> int { match b { Branch::Switch(o) => 4 + o as int, Branch::Jump(_, _, w) => if w < 3 { 3 } else { w as int } } }
spec fn rooms(bs: Seq<Branch>, n: int) -> int decreases n { if n <= 0 { 0 } else { rooms(bs, n - 1) + room(bs[n - 1]) } }
proof fn mono(runs: Seq<usize>, bs: Seq<Branch>, i: int, n: int)
    requires 0 <= i <= n
    ensures sum(runs, i) + rooms(bs, i) <= sum(runs, n) + rooms(bs, n), rooms(bs, i) >= 0, sum(runs, i) >= 0
    decreases n
{ if i < n { mono(runs, bs, i, n - 1); } else if n > 0 { mono(runs, bs, n - 1, n - 1); } }
/// Where branch i starts: behind the end of the one before and the run in between.
spec fn start(runs: Seq<usize>, ends: Seq<usize>, i: int) -> int { (if i <= 0 { 0 } else { ends[i - 1] as int }) + runs[i] }
/// Where a label is: an offset in a run, which starts behind the end of the branch before it.
spec fn target(ends: Seq<usize>, run: int, off: int) -> int { (if run <= 0 { 0 } else { ends[run - 1] as int }) + off }
spec fn same(a: Vec<usize>, b: Vec<usize>) -> bool { a.len() == b.len() }
spec fn fits(d: int) -> bool { -32768 <= d <= 32767 }
/// JVMS 6.5: the operands of a switch are aligned, with 0 to 3 bytes of padding.
spec fn switch_ok(at: int, size: int, operands: int) -> bool { let pad = size - 1 - operands; 0 <= pad <= 3 && (at + 1 + pad) % 4 == 0 }
spec fn sized(b: Branch, size: int, at: int, wide: bool) -> bool {
    match b {
        Branch::Switch(o) => switch_ok(at, size, o as int),
        Branch::Jump(_, _, w) => size == (if wide { w as int } else { 3 }),
    }
}
spec fn sane(runs: Seq<usize>, branches: Seq<Branch>) -> bool {
    &&& runs.len() > branches.len()
    &&& sum(runs, branches.len() as int) + rooms(branches, branches.len() as int) < 0x1_0000_0000_0000
    &&& forall|i: int| 0 <= i < branches.len() ==> match #[trigger] branches[i] { Branch::Jump(run, off, _) => run <= branches.len() && off < 0x1_0000_0000_0000, _ => true }
}
/// The number of branches that are not wide: decreases with every round.
spec fn lefts(w: Seq<bool>, n: int) -> nat decreases n { if n <= 0 { 0 } else { lefts(w, n - 1) + (if w[n - 1] { 0nat } else { 1nat }) } }
proof fn lefts_set(w: Seq<bool>, i: int, n: int)
    requires 0 <= i < w.len(), n <= w.len(), !w[i]
    ensures lefts(w.update(i, true), n) == (if i < n { lefts(w, n) - 1 } else { lefts(w, n) as int }), i < n ==> lefts(w, n) > 0
    decreases n
{ if n > 0 { lefts_set(w, i, n - 1); } }
//@ item src/code.rs fn layout
//@   ret r
//@   spec
//@   | requires sane(runs@, branches@)
//@   | ensures
//@   |     r.0.len() == branches.len(), r.1.len() == branches.len(),
//@   |     forall|i: int| 0 <= i < branches.len() ==> #[trigger] r.1[i] == start(runs@, r.1@, i) + r.0[i],
//@   |     forall|i: int| 0 <= i < branches.len() ==> match #[trigger] branches[i] {
//@   |         Branch::Switch(o) => switch_ok(start(runs@, r.1@, i), r.0[i] as int, o as int),
//@   |         Branch::Jump(run, off, w) => r.0[i] == w || (r.0[i] == 3 && fits(target(r.1@, run as int, off as int) - start(runs@, r.1@, i)))
//@   |     },
//@   loop 0
//@   | invariant wide.len() == branches.len(), sane(runs@, branches@)
//@   | decreases lefts(wide@, wide.len() as int)
//@   loop 1
//@   | invariant
//@   |     same(sizes, ends), wide.len() == branches.len(), sane(runs@, branches@), sizes.len() == i, ends.len() == i,
//@   |     index == (if i == 0 { 0 } else { ends[i - 1] as int }),
//@   |     index <= sum(runs@, i as int) + rooms(branches@, i as int),
//@   |     forall|k: int| 0 <= k < i ==> ends[k] < 0x1_0000_0000_0000,
//@   |     forall|k: int| 0 <= k < i ==> #[trigger] ends[k] == start(runs@, ends@, k) + sizes[k],
//@   |     forall|k: int| 0 <= k < i ==> sized(#[trigger] branches[k], sizes[k] as int, start(runs@, ends@, k), wide[k]),
//@   loopstart 1
//@   | proof { mono(runs@, branches@, i + 1, branches.len() as int); mono(runs@, branches@, i as int, i as int); }
//@   before let mut changed = false;
//@   | let ghost before = wide@;
//@   loop 2
//@   | invariant
//@   |     wide.len() == branches.len(), before.len() == wide.len(), sizes.len() == branches.len(), ends.len() == branches.len(), sane(runs@, branches@),
//@   |     forall|k: int| 0 <= k < branches.len() ==> ends[k] < 0x1_0000_0000_0000,
//@   |     forall|k: int| 0 <= k < branches.len() ==> #[trigger] ends[k] == start(runs@, ends@, k) + sizes[k],
//@   |     lefts(wide@, wide.len() as int) <= lefts(before, wide.len() as int),
//@   |     changed ==> lefts(wide@, wide.len() as int) < lefts(before, wide.len() as int),
//@   |     !changed ==> wide@ == before,
//@   |     !changed ==> forall|k: int| 0 <= k < i ==> match #[trigger] branches[k] { Branch::Jump(run, off, _) => wide[k] || fits(target(ends@, run as int, off as int) - start(runs@, ends@, k)), _ => true },
//@   before wide[i] = true;
//@   | proof { lefts_set(wide@, i as int, wide.len() as int); }
//@ end
fn main() {}
}
