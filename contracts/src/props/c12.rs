//! C12: bytecode is decoded into the instruction it denotes.
use crate::core::*;
use coffer::prelude::*;

pub const HARNESSES: &[Harness] = &[];

/// A pool with constants of every kind at low slots.
#[cfg(not(kani))]
pub fn rich_pool() -> crate::spec::SpecPool {
    use crate::spec::*;
    let mut p = SpecPool::new(1);
    let b = |s: &str| s.as_bytes().to_vec();
    let m = Konst::Method(b("o"), b("m"), b("()V"));
    let h = Konst::Handle(6, Box::new(m.clone()));
    let bsm = |k: i32| Box::new(Bsm { handle: h.clone(), args: vec![Konst::Int(k)] });
    for k in [
        Konst::Int(70000),
        Konst::Float(0x7fc0_0001),
        Konst::Long(-7),
        Konst::Double(0x8000_0000_0000_0000),
        Konst::Class(b("java/lang/Object")),
        Konst::Class(b("[[I")),
        Konst::Class(b("[Lx;")),
        Konst::Class(b("[[[J")),
        Konst::Str(b("s")),
        Konst::Module(b("mo")),
        Konst::Package(b("pa")),
        Konst::Field(b("o"), b("f"), b("I")),
        m.clone(),
        Konst::IMethod(b("o"), b("i"), b("(J)V")),
        h.clone(),
        Konst::MType(b("(I)I")),
        Konst::Dyn(bsm(1), b("d"), b("I")),
        Konst::Dyn(bsm(2), b("d"), b("J")),
        Konst::Dyn(bsm(3), b("d"), b("Ljava/lang/Class;")),
        Konst::Indy(bsm(4), b("i"), b("()V")),
    ] {
        p.add(&k);
    }
    p
}

#[cfg(not(kani))]
pub fn native(cx: &mut crate::native::Cx) {
    use crate::bytecode::*;
    use crate::classfile::build_code;
    use crate::gen2::*;
    use crate::native::note;
    use crate::spec::*;
    fn read(b: &[u8], p: &SpecPool) -> coffer::Result<(Code, usize)> {
        let mut rd = Rd::new(b);
        Code::read_from(&mut p.clone(), &mut rd).map(|c| (c, rd.n))
    }
    fn wrap(code: &[u8]) -> Vec<u8> {
        let mut o = vec![0, 9, 0, 8];
        o.extend_from_slice(&(code.len() as u32).to_be_bytes());
        o.extend_from_slice(code);
        o.extend_from_slice(&[0, 0, 0, 0]);
        o
    }
    let n = cx.scale(40_000, 1_500_000);
    cx.random("programs", n, |r| {
        let c = code(r, &Opts { max: 24, branches: true, tables: false, far: 0, lines: false });
        let mut p = SpecPool::new(*r.pick(&[1, 1, 240, 250, 254, 60000]));
        let mut b = build_code(&c, &mut p, r.next());
        let n = b.len();
        note(format!("{:?} {:02x?}", c.code, b));
        b.extend_from_slice(&[1, 2, 3, 4]);
        let (v, k) = read(&b, &p).unwrap_or_else(|e| panic!("not decoded: {e}"));
        assert_eq!(k, n, "bytes consumed");
        check_code(&v, &b[..n], &p).unwrap_or_else(|e| panic!("decoded as {:?}: {e}", v.code));
        // every jump names a label that stands somewhere, and nothing is added
        let k = v.code.iter().filter(|i| !matches!(i, Instruction::Label(_))).count();
        let w = c.code.iter().filter(|i| !matches!(norm(i, &|_| Some(0)), Ok(None))).count();
        assert_eq!(k, w, "instructions");
    });
    // single instructions: any opcode, any operands, at any alignment
    fn single(r: &mut Rng, op: u8, pad: usize, p: &SpecPool) {
        let mut code = vec![0u8; pad];
        code.push(op);
        let small = |r: &mut Rng| -> u16 {
            if r.chance(7, 8) {
                1 + r.below(50) as u16
            } else {
                r.u16()
            }
        };
        match op {
            0xAA | 0xAB => {
                while code.len() % 4 != 0 {
                    code.push(r.u8());
                }
                let n = r.below(4) as i32;
                let off = |r: &mut Rng, o: &mut Vec<u8>| {
                    let t = if r.chance(15, 16) { r.below(60) as i32 - pad as i32 } else { r.u32() as i32 };
                    o.extend_from_slice(&t.to_be_bytes());
                };
                off(r, &mut code);
                if op == 0xAA {
                    let lo = r.u32() as i32;
                    let hi = if r.chance(7, 8) { lo.wrapping_add(n) } else { r.u32() as i32 };
                    code.extend_from_slice(&lo.to_be_bytes());
                    code.extend_from_slice(&hi.to_be_bytes());
                    for _ in 0..=n {
                        off(r, &mut code);
                    }
                } else {
                    let n = if r.chance(15, 16) { n } else { r.u32() as i32 };
                    code.extend_from_slice(&n.to_be_bytes());
                    let mut key = r.u32() as i32 >> 1;
                    for _ in 0..n.clamp(0, 4) {
                        code.extend_from_slice(&key.to_be_bytes());
                        key += 1 + r.below(1000) as i32;
                        off(r, &mut code);
                    }
                }
            }
            0x99..=0xA8 | 0xC6 | 0xC7 => {
                let t = if r.chance(7, 8) { r.below(60) as i16 - pad as i16 } else { r.u16() as i16 };
                code.extend_from_slice(&t.to_be_bytes());
            }
            0xC8 | 0xC9 => {
                let t = if r.chance(7, 8) { r.below(60) as i32 - pad as i32 } else { r.u32() as i32 };
                code.extend_from_slice(&t.to_be_bytes());
            }
            0x12 => code.push(small(r) as u8),
            0x13 | 0x14 | 0xB2..=0xBB | 0xBD | 0xC0 | 0xC1 | 0xC5 => {
                code.extend_from_slice(&small(r).to_be_bytes());
                match op {
                    0xB9 => code.extend_from_slice(&[r.u8(), 0]),
                    0xBA => code.extend_from_slice(&[0, 0]),
                    0xC5 => code.push(1 + r.below(4) as u8),
                    _ => {}
                }
            }
            0xBC => code.push(if r.chance(3, 4) { r.below(16) as u8 } else { r.u8() }),
            0xC4 => {
                let o = if r.chance(3, 4) { *r.pick(&[0x15, 0x16, 0x17, 0x18, 0x19, 0x36, 0x37, 0x38, 0x39, 0x3A, 0xA9, 0x84]) } else { r.u8() };
                code.push(o);
                code.extend_from_slice(&r.u16().to_be_bytes());
                if o == 0x84 {
                    code.extend_from_slice(&r.u16().to_be_bytes());
                }
            }
            _ => {
                for _ in 0..r.below(3) {
                    code.push(r.u8() & 0x0f);
                }
            }
        }
        while code.len() < 48 {
            code.push(0);
        }
        note(format!("{code:02x?}"));
        // what the specification says
        let mut pc = 0;
        let mut starts = std::collections::HashSet::new();
        let mut targets = vec![];
        let mut ok = true;
        while pc < code.len() {
            starts.insert(pc as u32);
            match decode(&code, pc, p) {
                Some((n, next)) => {
                    match &n {
                        // An array of a dynamically computed class is no valid operand here.
                        N::Multi(Konst::Dyn(..), 1) => std::panic::panic_any(Skip),
                        N::Jump(_, t) => targets.push(*t),
                        N::Table(d, _, v) => {
                            targets.push(*d);
                            targets.extend(v);
                        }
                        N::Lookup(d, v) => {
                            targets.push(*d);
                            targets.extend(v.iter().map(|x| x.1));
                        }
                        _ => {}
                    }
                    pc = next;
                }
                None => {
                    // Constants of the wrong width are not spoken of.
                    if matches!(code[pc], 0x12 | 0x13 | 0x14) {
                        std::panic::panic_any(Skip)
                    }
                    ok = false;
                    break;
                }
            }
        }
        starts.insert(code.len() as u32);
        ok &= pc <= code.len() && targets.iter().all(|t| starts.contains(t));
        let b = wrap(&code);
        match read(&b, p) {
            Ok((c, k)) => {
                assert!(ok, "this is no bytecode, but is decoded as {:?}", c.code);
                assert_eq!(k, b.len());
                check_code(&c, &b, p).unwrap_or_else(|e| panic!("decoded as {:?}: {e}", c.code));
            }
            Err(e) => assert!(!ok, "not decoded: {e}"),
        }
    }
    let p = rich_pool();
    let n = cx.scale(150_000, 5_000_000);
    cx.random("single instructions", n, |r| {
        let (op, pad) = (r.next() as u8, r.below(8));
        single(r, op, pad, &p);
    });
    let ops: Vec<(u8, usize, u64)> = (0..=255u8).flat_map(|o| (0..4).flat_map(move |a| (0..12).map(move |s| (o, a, s)))).collect();
    cx.each("every opcode at every alignment", &ops, |(o, a, s)| single(&mut Rng::new(*s), *o, *a, &p));
    // a program cut off anywhere inside an instruction is an error
    let n = cx.scale(8_000, 200_000);
    cx.random("code that ends within an instruction", n, |r| {
        let c = code(r, &Opts { max: 12, branches: false, tables: false, far: 0, lines: false });
        let mut p = SpecPool::new(1);
        let b = build_code(&c, &mut p, r.next());
        let raw = parse_code(&b, &p).unwrap();
        let mut starts = vec![0];
        let mut pc = 0;
        while pc < raw.code.len() {
            pc = decode(&raw.code, pc, &p).unwrap().1;
            starts.push(pc);
        }
        for k in 0..raw.code.len() {
            let b = wrap(&raw.code[..k]);
            note(format!("{:02x?}", &raw.code[..k]));
            assert_eq!(read(&b, &p).is_ok(), starts.contains(&k), "the first {k} of {} bytes", raw.code.len());
        }
    });
}
