//! C22: floating-point constants compare, order and hash by exact value bits.
use crate::core::*;
use coffer::total_floats::*;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

/// Records what is hashed.
#[derive(PartialEq)]
struct H(u64, u32);
impl Hasher for H {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        let mut i = 0;
        while i < b.len() {
            self.0 = self.0.rotate_left(8) ^ b[i] as u64;
            self.1 += 1;
            i += 1;
        }
    }
    fn write_u32(&mut self, x: u32) {
        self.0 = self.0.rotate_left(32) ^ x as u64;
        self.1 += 4;
    }
    fn write_u64(&mut self, x: u64) {
        self.0 ^= x;
        self.1 += 8;
    }
}

macro_rules! contract {
    ($t:ident, $f:ty, $a:expr, $b:expr, $c:expr) => {{
        let (a, b, c) = ($a, $b, $c);
        let (x, y, z) = ($t(<$f>::from_bits(a)), $t(<$f>::from_bits(b)), $t(<$f>::from_bits(c)));
        // equality is bit-identity, in every form
        assert!((x == y) == (a == b), "equal exactly when bit-identical");
        assert!((x != y) == (a != b), "unequal exactly when not bit-identical");
        assert!((x.cmp(&y) == Ordering::Equal) == (a == b), "ordered equal exactly when bit-identical");
        assert!((x == y.0) == (a == b), "equal to a plain number exactly when bit-identical");
        assert!((x.0 == y) == (a == b), "a plain number equals it exactly when bit-identical");
        assert!($t::from(x.0).0.to_bits() == a && <$f>::from(x).to_bits() == a, "conversions keep every bit");
        // a total order
        assert!(x.partial_cmp(&y) == Some(x.cmp(&y)), "partial and total order agree");
        assert!(x.cmp(&y) == y.cmp(&x).reverse(), "antisymmetric");
        if x <= y && y <= z {
            assert!(x <= z, "transitive");
        }
        assert!((x < y) == (x.cmp(&y) == Ordering::Less), "operators agree");
        assert!((x > y) == (x.cmp(&y) == Ordering::Greater), "operators agree");
        // numeric order on numbers
        if x.0 < y.0 {
            assert!(x < y, "numeric order is kept");
        }
        // hashing
        if a == b {
            let (mut h, mut i) = (H(0, 0), H(0, 0));
            x.hash(&mut h);
            y.hash(&mut i);
            assert!(h == i, "equal constants hash alike");
        }
        x.0.is_nan() && y.0.is_nan() && a != b
    }};
}
crate::harnesses! {
    fn c22_f32(s) unwind 10, "quick", "complete", "TotalF32::{eq,cmp,partial_cmp,hash}, PartialEq<f32>, f32: PartialEq<TotalF32>, From" {
        let (a, b, c) = (s.u32(), s.u32(), s.u32());
        let n = contract!(TotalF32, f32, a, b, c);
        crate::cover!(n);
        crate::cover!(a == b);
    }
    fn c22_f64(s) unwind 10, "quick", "complete", "TotalF64::{eq,cmp,partial_cmp,hash}, PartialEq<f64>, f64: PartialEq<TotalF64>, From" {
        let (a, b, c) = (s.u64(), s.u64(), s.u64());
        let n = contract!(TotalF64, f64, a, b, c);
        crate::cover!(n);
        crate::cover!(a == b);
    }
}
#[cfg(not(kani))]
pub fn native(cx: &mut crate::native::Cx) {
    let e32: Vec<u32> = vec![
        0, 1, 0x8000_0000, 0x8000_0001, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0xffc0_0000, 0x7f80_0001, 0x7fc0_0001, 0xff80_0001, 0x3f80_0000, 0xbf80_0000,
        0x7f7f_ffff, 0xff7f_ffff, 0x7fff_ffff, 0xffff_ffff, 0x0080_0000, 0x007f_ffff, 0x4000_0000,
    ];
    let mut cases = vec![];
    for a in &e32 {
        for b in &e32 {
            for c in &e32 {
                cases.push((*a, *b, *c));
            }
        }
    }
    cx.each("special values", &cases, |(a, b, c)| {
        contract!(TotalF32, f32, *a, *b, *c);
        let w = |x: u32| (x as u64) << 32 | if x & 1 == 1 { 1 } else { 0 };
        contract!(TotalF64, f64, w(*a), w(*b), w(*c));
    });
}
