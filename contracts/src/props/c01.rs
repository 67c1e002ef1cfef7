//! C01: numbers are exactly big-endian on the wire.
use crate::core::*;
use coffer::flags::*;
use coffer::total_floats::*;
use coffer::ReadWrite;
use std::mem::forget;

/// The contract of a fixed-width value: `want` are its bytes.
fn contract<T: ReadWrite, const N: usize>(v: &T, want: [u8; N], short: usize, same: impl Fn(&T) -> bool) {
    let mut w = Wr::<20>::new();
    let r = v.write_to(&mut w);
    assert!(r.is_ok(), "written");
    forget(r);
    assert!(w.is(&want), "exactly the big-endian bytes are written");
    // reading, with something behind the value
    let mut b = [0x5Au8; 20];
    let mut i = 0;
    while i < N {
        b[i] = want[i];
        i += 1;
    }
    let mut rd = Rd::new(&b);
    let r = T::read_from(&mut rd);
    assert!(matches!(&r, Ok(x) if same(x)), "the identical value is read");
    assert!(rd.n == N, "exactly its bytes are consumed");
    forget(r);
    // too short
    if short < N {
        let mut rd = Rd::new(&b[..short]);
        let r = T::read_from(&mut rd);
        assert!(r.is_err(), "input that is too short is an error");
        forget(r);
    }
}
fn be<const N: usize>(x: u128) -> [u8; N] {
    let mut o = [0; N];
    let mut i = 0;
    while i < N {
        o[i] = (x >> (8 * (N - 1 - i))) as u8;
        i += 1;
    }
    o
}

crate::harnesses! {
    fn c01_8_16(s) unwind 22, "quick", "complete", "<u8|i8|u16|i16 as ReadWrite>::{read_from,write_to}" {
        let k = s.below(3) as usize;
        let a = s.u8();
        contract(&a, [a], k, |x| *x == a);
        let b = a as i8;
        contract(&b, [a], k, |x| *x == b);
        let c = s.u16();
        contract(&c, be::<2>(c as u128), k, |x| *x == c);
        let d = c as i16;
        contract(&d, be::<2>(c as u128), k, |x| *x == d);
        crate::cover!(k == 1);
    }
    fn c01_32(s) unwind 22, "quick", "complete", "<u32|i32|f32|TotalF32 as ReadWrite>::{read_from,write_to}" {
        let k = s.below(5) as usize;
        let a = s.u32();
        let w = be::<4>(a as u128);
        contract(&a, w, k, |x| *x == a);
        let b = a as i32;
        contract(&b, w, k, |x| *x == b);
        let c = f32::from_bits(a);
        contract(&c, w, k, |x| x.to_bits() == a);
        contract(&TotalF32(c), w, k, |x| x.0.to_bits() == a);
        crate::cover!(c.is_nan());
    }
    fn c01_64(s) unwind 22, "quick", "complete", "<u64|i64|f64|TotalF64 as ReadWrite>::{read_from,write_to}" {
        let k = s.below(9) as usize;
        let a = s.u64();
        let w = be::<8>(a as u128);
        contract(&a, w, k, |x| *x == a);
        let b = a as i64;
        contract(&b, w, k, |x| *x == b);
        let c = f64::from_bits(a);
        contract(&c, w, k, |x| x.to_bits() == a);
        contract(&TotalF64(c), w, k, |x| x.0.to_bits() == a);
        crate::cover!(c.is_nan());
    }
    fn c01_128(s) unwind 22, "quick", "complete", "<u128|i128 as ReadWrite>::{read_from,write_to}" {
        let k = s.below(17) as usize;
        let a = (s.u64() as u128) << 64 | s.u64() as u128;
        let w = be::<16>(a);
        contract(&a, w, k, |x| *x == a);
        let b = a as i128;
        contract(&b, w, k, |x| *x == b);
        crate::cover!(b < 0);
    }
    fn c01_flags(s) unwind 22, "quick", "complete", "<ClassFlags|FieldFlags|MethodFlags|InnerClassFlags|MethodParameterFlags|ModuleFlags|RequireFlags|ExOpFlags as ReadWrite>::{read_from,write_to}" {
        let x = s.u16();
        let k = s.below(3) as usize;
        // JVMS tables 4.1-B, 4.5-A, 4.6-A, 4.7.6-A, 4.7.24, 4.7.25
        macro_rules! flags {
            ($($t:ty, $mask:expr);*) => { $({
                let mask: u16 = $mask;
                let b = be::<2>(x as u128);
                let mut rd = Rd::new(&b);
                let r = <$t>::read_from(&mut rd);
                assert!(matches!(&r, Ok(f) if f.bits() == x & mask), concat!("reading ", stringify!($t), " keeps exactly the defined bits"));
                assert!(rd.n == 2, "two bytes are consumed");
                forget(r);
                let v = <$t>::from_bits_truncate(x);
                contract(&v, be::<2>((x & mask) as u128), k, |y| y.bits() == x & mask);
            })* };
        }
        flags! {
            ClassFlags, 0x0001 | 0x0010 | 0x0020 | 0x0200 | 0x0400 | 0x1000 | 0x2000 | 0x4000 | 0x8000;
            FieldFlags, 0x0001 | 0x0002 | 0x0004 | 0x0008 | 0x0010 | 0x0040 | 0x0080 | 0x1000 | 0x4000;
            MethodFlags, 0x0001 | 0x0002 | 0x0004 | 0x0008 | 0x0010 | 0x0020 | 0x0040 | 0x0080 | 0x0100 | 0x0400 | 0x0800 | 0x1000;
            InnerClassFlags, 0x0001 | 0x0002 | 0x0004 | 0x0008 | 0x0010 | 0x0200 | 0x0400 | 0x1000 | 0x2000 | 0x4000;
            MethodParameterFlags, 0x0010 | 0x1000 | 0x8000;
            ModuleFlags, 0x0020 | 0x1000 | 0x8000;
            RequireFlags, 0x0020 | 0x0040 | 0x1000 | 0x8000;
            ExOpFlags, 0x1000 | 0x8000
        }
        crate::cover!(x == 0xFFFF);
    }
}

/// A reader that gives one byte at a time, and a writer that takes one.
#[cfg(not(kani))]
pub fn native(cx: &mut crate::native::Cx) {
    struct One<'a>(&'a [u8]);
    impl<'a> std::io::Read for One<'a> {
        fn read(&mut self, x: &mut [u8]) -> std::io::Result<usize> {
            if x.is_empty() || self.0.is_empty() {
                return Ok(0);
            }
            x[0] = self.0[0];
            self.0 = &self.0[1..];
            Ok(1)
        }
    }
    struct OneW(Vec<u8>);
    impl std::io::Write for OneW {
        fn write(&mut self, x: &[u8]) -> std::io::Result<usize> {
            if x.is_empty() {
                return Ok(0);
            }
            self.0.push(x[0]);
            Ok(1)
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    let n = cx.scale(2000, 100000);
    cx.random("short reads and writes", n, |r| {
        let x = r.u64();
        crate::native::note(format!("{x:#x}"));
        let mut w = OneW(vec![]);
        x.write_to(&mut w).unwrap();
        f64::from_bits(x).write_to(&mut w).unwrap();
        (x as i32).write_to(&mut w).unwrap();
        (x as u16).write_to(&mut w).unwrap();
        let mut want = be::<8>(x as u128).to_vec();
        want.extend(be::<8>(x as u128));
        want.extend(be::<4>(x as u32 as u128));
        want.extend(be::<2>(x as u16 as u128));
        assert_eq!(w.0, want);
        let mut rd = One(&want);
        assert_eq!(u64::read_from(&mut rd).unwrap(), x);
        assert_eq!(f64::read_from(&mut rd).unwrap().to_bits(), x);
        assert_eq!(i32::read_from(&mut rd).unwrap(), x as i32);
        assert_eq!(u16::read_from(&mut rd).unwrap(), x as u16);
        assert!(u8::read_from(&mut rd).is_err());
    });
    // all flag words
    let all: Vec<u16> = (0..=0xFFFF).collect();
    cx.each("every flag word", &all, |x| {
        let mut t = NatSrc::tape(vec![x.to_le_bytes().to_vec(), vec![1]]);
        c01_flags(&mut t);
    });
}
