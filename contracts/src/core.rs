//! Input sources, and the registry types.

/// Where the inputs of a harness come from.
pub trait Src {
    fn u8(&mut self) -> u8;
    fn u16(&mut self) -> u16;
    fn u32(&mut self) -> u32;
    fn u64(&mut self) -> u64;
    /// Only inputs that satisfy this are considered.
    fn assume(&mut self, b: bool);
    fn i8(&mut self) -> i8 {
        self.u8() as i8
    }
    fn i16(&mut self) -> i16 {
        self.u16() as i16
    }
    fn i32(&mut self) -> i32 {
        self.u32() as i32
    }
    fn i64(&mut self) -> i64 {
        self.u64() as i64
    }
    fn bool(&mut self) -> bool {
        self.u8() & 1 == 1
    }
    /// A value below `n`.
    fn below(&mut self, n: u8) -> u8 {
        let x = self.u8();
        self.assume(x < n);
        x
    }
}

#[cfg(all(kani, not(replay)))]
pub struct KaniSrc;
#[cfg(all(kani, not(replay)))]
impl Src for KaniSrc {
    fn u8(&mut self) -> u8 {
        kani::any()
    }
    fn u16(&mut self) -> u16 {
        kani::any()
    }
    fn u32(&mut self) -> u32 {
        kani::any()
    }
    fn u64(&mut self) -> u64 {
        kani::any()
    }
    fn assume(&mut self, b: bool) {
        kani::assume(b)
    }
}

/// Thrown (natively) when an input does not satisfy an assumption.
pub struct Skip;

/// xoshiro-like generator; the seed decides everything.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn u8(&mut self) -> u8 {
        match self.below(4) {
            0 => *self.pick(&[0, 1, 2, 3, 4, 5, 0x7f, 0x80, 0xbf, 0xc0, 0xed, 0xf4, 0xff]),
            _ => self.next() as u8,
        }
    }
    pub fn u16(&mut self) -> u16 {
        match self.below(4) {
            0 => *self.pick(&[0, 1, 127, 128, 255, 256, 32767, 32768, 65534, 65535]),
            1 => self.u8() as u16,
            _ => self.next() as u16,
        }
    }
    pub fn u32(&mut self) -> u32 {
        match self.below(4) {
            0 => *self.pick(&[0, 1, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x7f80_0000, 0xff80_0001, 0x10ffff]),
            1 => self.u16() as i16 as i32 as u32,
            2 => self.u8() as i8 as i32 as u32,
            _ => self.next() as u32,
        }
    }
    pub fn u64(&mut self) -> u64 {
        match self.below(4) {
            0 => *self.pick(&[
                0, 1, i64::MAX as u64, i64::MIN as u64, u64::MAX, 0x7ff0_0000_0000_0000,
                0xfff0_0000_0000_0001, 0x3ff0_0000_0000_0000, 0x8000_0000_0000_0001,
            ]),
            1 => self.u32() as i32 as i64 as u64,
            _ => self.next(),
        }
    }
}

/// Inputs outside of Kani: values from a tape first, then generated ones (none for a replay).
pub struct NatSrc {
    pub tape: std::collections::VecDeque<Vec<u8>>,
    pub rng: Option<Rng>,
    /// All values handed out.
    pub log: Vec<Vec<u8>>,
}
impl NatSrc {
    pub fn random(seed: u64) -> Self {
        NatSrc { tape: Default::default(), rng: Some(Rng::new(seed)), log: vec![] }
    }
    pub fn tape(t: Vec<Vec<u8>>) -> Self {
        NatSrc { tape: t.into(), rng: None, log: vec![] }
    }
    fn get(&mut self, n: usize, f: fn(&mut Rng) -> u64) -> u64 {
        let b = match self.tape.pop_front() {
            Some(mut b) => {
                b.resize(8, 0);
                u64::from_le_bytes(b.try_into().unwrap())
            }
            None => match &mut self.rng {
                Some(r) => f(r),
                None => 0,
            },
        };
        self.log.push(b.to_le_bytes()[..n].to_vec());
        b
    }
}
impl Src for NatSrc {
    fn u8(&mut self) -> u8 {
        self.get(1, |r| r.u8() as u64) as u8
    }
    fn u16(&mut self) -> u16 {
        self.get(2, |r| r.u16() as u64) as u16
    }
    fn u32(&mut self) -> u32 {
        self.get(4, |r| r.u32() as u64) as u32
    }
    fn u64(&mut self) -> u64 {
        self.get(8, |r| r.u64()) as u64
    }
    fn assume(&mut self, b: bool) {
        if !b {
            std::panic::panic_any(Skip)
        }
    }
    fn below(&mut self, n: u8) -> u8 {
        if self.rng.is_some() && self.tape.is_empty() {
            let x = self.rng.as_mut().unwrap().below(n as usize) as u8;
            self.log.push(vec![x]);
            return x;
        }
        let x = self.u8();
        self.assume(x < n);
        x
    }
}

/// A harness: its name, what Kani's answer means, and the harness itself.
pub struct Harness {
    pub module: &'static str,
    pub name: &'static str,
    /// `complete`, or the bound.
    pub scope: &'static str,
    /// The functions under contract.
    pub over: &'static str,
    pub tier: &'static str,
    pub run: fn(&mut NatSrc),
}

/// This has to be reachable (vacuity guard).
#[macro_export]
macro_rules! cover {
    ($e:expr) => {{
        #[cfg(all(kani, not(replay)))]
        kani::cover!($e);
    }};
}

/// Declares harnesses: `fn name(s) unwind 8, "quick", "complete", "functions" { body }`.
#[macro_export]
macro_rules! harnesses {
    ($(fn $name:ident($s:ident) unwind $u:literal, $tier:literal, $scope:literal, $over:literal $body:block)*) => {
        $(pub fn $name<S: $crate::core::Src>($s: &mut S) $body)*
        pub const HARNESSES: &[$crate::core::Harness] = &[
            $($crate::core::Harness { module: module_path!(), name: stringify!($name), scope: $scope, over: $over, tier: $tier, run: $name::<$crate::core::NatSrc> }),*
        ];
        #[cfg(all(kani, not(replay)))]
        mod k {
            $(
                #[kani::proof]
                #[kani::unwind($u)]
                #[kani::stub(<u16 as std::string::ToString>::to_string, $crate::core::to_string)]
                #[kani::stub(alloc::fmt::format, $crate::core::format)]
                fn $name() { super::$name(&mut $crate::core::KaniSrc) }
            )*
        }
    };
}

/// Stands in for the text of error messages, which no contract mentions.
#[cfg(all(kani, not(replay)))]
pub fn to_string<T: ?Sized + std::fmt::Display>(_: &T) -> String {
    String::new()
}
#[cfg(all(kani, not(replay)))]
pub fn format(_: std::fmt::Arguments<'_>) -> String {
    String::new()
}

/// A reader over a slice whose `read_exact` needs no loop for the usual widths.
pub struct Rd<'a> {
    pub b: &'a [u8],
    pub n: usize,
}
impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Rd { b, n: 0 }
    }
}
impl<'a> std::io::Read for Rd<'a> {
    fn read(&mut self, x: &mut [u8]) -> std::io::Result<usize> {
        let k = x.len().min(self.b.len() - self.n);
        // a reader may give less than it has
        #[cfg(not(kani))]
        let k = k.min(1 + self.n * 7 % 61);
        x[..k].copy_from_slice(&self.b[self.n..self.n + k]);
        self.n += k;
        Ok(k)
    }
    #[cfg(kani)]
    fn read_exact(&mut self, x: &mut [u8]) -> std::io::Result<()> {
        let k = x.len();
        if self.b.len() - self.n < k {
            self.n = self.b.len();
            return Err(std::io::ErrorKind::UnexpectedEof.into());
        }
        match k {
            1 => x[0] = self.b[self.n],
            2 => {
                x[0] = self.b[self.n];
                x[1] = self.b[self.n + 1];
            }
            _ => x.copy_from_slice(&self.b[self.n..self.n + k]),
        }
        self.n += k;
        Ok(())
    }
}

/// A writer into a fixed buffer.
pub struct Wr<const N: usize> {
    pub b: [u8; N],
    pub n: usize,
}
impl<const N: usize> Wr<N> {
    pub fn new() -> Self {
        Wr { b: [0; N], n: 0 }
    }
    pub fn is(&self, want: &[u8]) -> bool {
        if self.n != want.len() {
            return false;
        }
        let mut i = 0;
        while i < want.len() {
            if self.b[i] != want[i] {
                return false;
            }
            i += 1;
        }
        true
    }
}
impl<const N: usize> std::io::Write for Wr<N> {
    fn write(&mut self, x: &[u8]) -> std::io::Result<usize> {
        self.write_all(x)?;
        Ok(x.len())
    }
    fn write_all(&mut self, x: &[u8]) -> std::io::Result<()> {
        let k = x.len();
        if self.n + k > N {
            return Err(std::io::ErrorKind::WriteZero.into());
        }
        match k {
            1 => self.b[self.n] = x[0],
            2 => {
                self.b[self.n] = x[0];
                self.b[self.n + 1] = x[1];
            }
            _ => self.b[self.n..self.n + k].copy_from_slice(x),
        }
        self.n += k;
        Ok(())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
