//! C13: instructions are encoded into bytecode with the same meaning.
use crate::core::*;
use coffer::prelude::*;

pub const HARNESSES: &[Harness] = &[];

#[cfg(not(kani))]
pub fn native(cx: &mut crate::native::Cx) {
    use crate::bytecode::*;
    use crate::gen2::*;
    use crate::native::note;
    use crate::spec::*;
    /// Writes code into a pool that starts at `start`.
    fn run(v: Vec<Instruction>, start: u16) {
        let c = Code { max_stack: 3, max_locals: 0xFFFE, code: v, catches: vec![], attrs: vec![] };
        note(format!("{:?} pool from {start}", c.code));
        let mut p = RecPool::new(start);
        let mut o = vec![];
        c.write_to(&mut p, &mut o).unwrap_or_else(|e| panic!("not encoded: {e}"));
        check_code(&c, &o, &p).unwrap_or_else(|e| panic!("{e}; {o:02x?}"));
        // wide forms only where they are needed
        let raw = parse_code(&o, &p).unwrap();
        let mut pc = 0;
        while pc < raw.code.len() {
            let (n, next) = decode(&raw.code, pc, &p).unwrap();
            match (raw.code[pc], &n) {
                (0xC4, N::Local(_, v)) => assert!(*v > 255, "{n:x?} needs no wide form"),
                (0xC4, N::Inc(v, c)) => assert!(*v > 255 || *c < -128 || *c > 127, "{n:x?} needs no wide form"),
                (0x13, _) => assert!(raw.code[pc + 1] != 0, "ldc_w of a slot below 256"),
                _ => {}
            }
            pc = next;
        }
    }
    let starts = [1u16, 240, 250, 253, 254, 255, 256, 257, 5000, 65000];
    let all = plain();
    cx.each("instructions without operands", &all, |i| {
        run(vec![i.clone()], 1);
        run(vec![i.clone(), Instruction::NoOp, i.clone()], 1);
    });
    let n = cx.scale(120_000, 4_000_000);
    cx.random("single instructions", n, |r| {
        let s = *r.pick(&starts);
        run(vec![operand_insn(r)], s);
    });
    let n = cx.scale(40_000, 1_000_000);
    cx.random("sequences", n, |r| {
        let c = code(r, &Opts { max: 20, branches: false, tables: false, far: 0, lines: false });
        run(c.code, *r.pick(&starts));
    });
    // every variable and every small constant
    let vars: Vec<u16> = (0..=65535).collect();
    cx.each("every local variable", &vars, |v| {
        for l in LOCALS {
            run(vec![Instruction::LocalVariable(LoadOrStore::Load, l, *v)], 1);
            run(vec![Instruction::LocalVariable(LoadOrStore::Store, l, *v)], 1);
        }
        run(vec![Instruction::Ret(*v)], 1);
        for c in [0, 1, -128, -129, 127, 128, 255, 256, i16::MIN, i16::MAX] {
            run(vec![Instruction::IntIncrement(*v, c)], 1);
        }
    });
    cx.each("every 16-bit increment and constant", &vars, |c| {
        run(vec![Instruction::IntIncrement(3, *c as i16)], 1);
        run(vec![Instruction::IntIncrement(300, *c as i16)], 1);
        run(vec![Instruction::Push(OrDynamic::Static(Constant::I32(*c as i16 as i32)))], 1);
        run(vec![Instruction::Push(OrDynamic::Static(Constant::I32(*c as i32 - 100)))], 255);
        run(vec![Instruction::Push(OrDynamic::Static(Constant::I64(*c as i16 as i64)))], 1);
        run(vec![Instruction::Push(OrDynamic::Static(Constant::F32((*c as i16 as f32).into())))], 1);
        run(vec![Instruction::Push(OrDynamic::Static(Constant::F64((*c as i16 as f64).into())))], 1);
        run(vec![Instruction::Push(OrDynamic::Static(Constant::F32(f32::from_bits((*c as u32) << 16).into())))], 1);
        run(vec![Instruction::Push(OrDynamic::Static(Constant::F64(f64::from_bits((*c as u64) << 48).into())))], 1);
    });
    let slots: Vec<u16> = (1..2000).chain(65400..65500).collect();
    cx.each("every pool slot around the limits", &slots, |s| {
        let mut r = Rng::new(*s as u64);
        for k in [Constant::String(cow(b"a")), Constant::I32(1 << 20), Constant::F32(3.5.into()), Constant::I64(99), Constant::F64(9.5.into()), Constant::Class(cow(b"x"))] {
            run(vec![Instruction::Push(OrDynamic::Static(k))], *s);
        }
        for _ in 0..6 {
            let i = operand_insn(&mut r);
            run(vec![i], *s);
        }
    });
}
