//! C14: every branch and switch in written code reaches its label.
use crate::core::*;
use coffer::prelude::*;

pub const HARNESSES: &[Harness] = &[];

#[cfg(not(kani))]
pub fn native(cx: &mut crate::native::Cx) {
    use crate::bytecode::*;
    use crate::gen2::*;
    use crate::native::note;
    use crate::spec::*;
    use Instruction as I;
    fn bounds(c: &Code) -> (usize, usize) {
        let (mut lo, mut hi) = (0, 0);
        for i in &c.code {
            let (a, b) = match i {
                I::Label(_) | I::LineNumber(_) | I::Conversion(..) | I::ConvertInt(_) => (0, 1),
                I::NoOp => (1, 1),
                I::Jump(..) => (3, 8),
                I::Jsr(_) => (3, 5),
                I::TableSwitch { offsets, .. } => (13 + 4 * offsets.len(), 16 + 4 * offsets.len()),
                I::LookupSwitch { table, .. } => (9 + 8 * table.len(), 12 + 8 * table.len()),
                _ => (1, 6),
            };
            lo += a;
            hi += b;
        }
        (lo, hi)
    }
    fn brief(c: &Code) -> String {
        let mut o = String::new();
        let mut nops = 0;
        for i in &c.code {
            if *i == I::NoOp {
                nops += 1;
                continue;
            }
            if nops > 0 {
                o += &format!("NoOp*{nops}, ");
                nops = 0;
            }
            o += &format!("{i:?}, ");
        }
        o + &format!("NoOp*{nops}")
    }
    fn run(c: &Code, back: bool) {
        note(brief(c));
        let (lo, hi) = bounds(c);
        let mut p = RecPool::new(1);
        let mut o = vec![];
        match c.write_to(&mut p, &mut o) {
            Ok(()) => {
                assert!(lo <= 65535, "at least {lo} bytes of code are accepted");
                check_code(c, &o, &p).unwrap_or_else(|e| panic!("{e}"));
            }
            Err(e) => {
                assert!(hi > 65535, "at most {hi} bytes of code are not written: {e}");
                return;
            }
        }
        if back && p.bsms.is_empty() {
            let mut sp = SpecPool::new(1);
            sp.entries = p.entries.clone();
            let v = Code::read_from(&mut sp, &mut Rd::new(&o)).unwrap_or_else(|e| panic!("written code is not read: {e}"));
            check_code(&v, &o, &p).unwrap_or_else(|e| panic!("read back: {e}"));
        }
    }
    let plain_code = |code: Vec<Instruction>| Code { max_stack: 0, max_locals: 0, code, catches: vec![], attrs: vec![] };
    let n = cx.scale(40_000, 1_500_000);
    cx.random("near branches", n, |r| {
        let c = code(r, &Opts { max: 30, branches: true, tables: false, far: 0, lines: true });
        run(&c, true);
    });
    let n = cx.scale(700, 40_000);
    cx.random("branches at any distance", n, |r| {
        let far = *r.pick(&[200, 33000, 40000, 65500]);
        let c = code(r, &Opts { max: 12, branches: true, tables: false, far, lines: false });
        run(&c, false);
    });
    // distances around the limits
    let mut edge: Vec<(usize, usize, bool)> = vec![];
    for k in 32755..=32775 {
        for c in 0..18 {
            if cx.thorough || c % 6 == k % 6 || c == 16 || c == 17 {
                edge.push((c, k, true));
                edge.push((c, k, false));
            }
        }
    }
    let jump = |c: usize, l: u32| if c == 17 { I::Jsr(Label(l)) } else { I::Jump(CONDS[c], Label(l)) };
    cx.each("distances around the limit", &edge, |(c, k, fwd)| {
        let mut v = vec![];
        if *fwd {
            v.push(I::NoOp);
            v.push(jump(*c, 1));
            v.extend(std::iter::repeat(I::NoOp).take(*k));
            v.push(I::Label(Label(1)));
        } else {
            v.push(I::Label(Label(1)));
            v.extend(std::iter::repeat(I::NoOp).take(*k));
            v.push(jump(*c, 1));
        }
        v.push(I::Return(None));
        run(&plain_code(v), true);
    });
    // a jump that grows pushes others out of range, over switches whose padding changes
    let n = cx.scale(500, 20_000);
    cx.random("jumps that depend on each other", n, |r| {
        let nj = 2 + r.below(5) as u32;
        let mut v = vec![];
        for j in 0..nj {
            for _ in 0..r.below(4) {
                v.push(I::NoOp);
            }
            v.push(jump(r.below(18), j));
        }
        let sw = r.chance(1, 2);
        if sw {
            v.push(I::TableSwitch { default: Label(0), low: -1, offsets: (0..nj).map(Label).collect() });
        }
        let used: usize = v.iter().map(|i| if matches!(i, I::NoOp) { 1 } else { 3 }).sum();
        let fill = 32767 - used.min(32767) + r.below(24) - 12;
        v.extend(std::iter::repeat(I::NoOp).take(fill));
        for j in 0..nj {
            v.push(I::Label(Label(j)));
            for _ in 0..r.below(6) {
                v.push(I::NoOp);
            }
            if r.chance(1, 2) {
                let (a, b) = (r.below(18), r.below(nj as usize) as u32);
                v.push(jump(a, b));
            }
        }
        run(&plain_code(v), false);
    });
    // the size of the code
    let sizes: Vec<(usize, u8)> = (65520..=65545).flat_map(|k| (0..3).map(move |t| (k, t))).chain([(131072 + 10, 0), (70000, 1)]).collect();
    cx.each("code of about 65535 bytes", &sizes, |(k, t)| {
        let mut v: Vec<I> = std::iter::repeat(I::NoOp).take(*k).collect();
        match t {
            1 => {
                v.insert(0, I::Label(Label(4)));
                v.push(I::Jump(JumpCondition::Always, Label(4)));
            }
            2 => {
                v.insert(0, I::LookupSwitch { default: Label(0), table: Default::default() });
                v.push(I::Label(Label(0)));
            }
            _ => {}
        }
        let c = plain_code(v);
        let want = match t {
            1 => k + 5,
            2 => k + 12,
            _ => *k,
        };
        run(&c, false);
        let mut o = vec![];
        assert_eq!(c.write_to(&mut RecPool::new(1), &mut o).is_ok(), want <= 65535, "{want} bytes of code");
    });
    // every switch shape at every alignment
    let sw: Vec<(usize, usize, u8)> = (0..9).flat_map(|a| (0..8).flat_map(move |n| (0..2).map(move |t| (a, n, t)))).collect();
    cx.each("switches at every alignment", &sw, |(a, n, t)| {
        let mut v: Vec<I> = vec![I::Label(Label(0))];
        v.extend(std::iter::repeat(I::NoOp).take(*a));
        if *t == 0 {
            if *n == 0 {
                return;
            }
            v.push(I::TableSwitch { default: Label(9), low: i32::MAX - *n as i32 + 1, offsets: (0..*n as u32).map(|i| Label(if i % 2 == 0 { 0 } else { 9 })).collect() });
        } else {
            v.push(I::LookupSwitch { default: Label(0), table: (0..*n as i32).map(|i| (if i % 2 == 0 { -i * 1000 } else { i32::MAX - i }, Label(if i % 3 == 0 { 0 } else { 9 }))).collect() });
        }
        v.push(I::NoOp);
        v.push(I::Label(Label(9)));
        v.push(I::Jump(JumpCondition::IsNull, Label(9)));
        run(&plain_code(v), true);
    });
    // a range that no table switch can have
    cx.each("impossible table switches", &[(0, 0usize), (i32::MAX, 2), (i32::MAX - 3, 5), (i32::MIN, 0)], |(low, n)| {
        let c = plain_code(vec![I::Label(Label(0)), I::TableSwitch { default: Label(0), low: *low, offsets: vec![Label(0); *n] }]);
        assert!(c.write_to(&mut RecPool::new(1), &mut vec![]).is_err());
    });
}
