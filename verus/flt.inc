/// A literal of a float, as f32 and as f64.
pub struct Flt { pub b32: u32, pub b64: u64 }
pub fn flt(b32: u32, b64: u64) -> (r: Flt) ensures r.b32 == b32, r.b64 == b64 { Flt { b32, b64 } }
pub trait OfFlt: Sized { spec fn of_spec(f: Flt) -> Self; fn of(f: Flt) -> (r: Self) ensures r == Self::of_spec(f); }
impl OfFlt for TotalF32 { open spec fn of_spec(f: Flt) -> Self { TotalF32 { bits: f.b32 } } fn of(f: Flt) -> Self { TotalF32 { bits: f.b32 } } }
impl OfFlt for TotalF64 { open spec fn of_spec(f: Flt) -> Self { TotalF64 { bits: f.b64 } } fn of(f: Flt) -> Self { TotalF64 { bits: f.b64 } } }
impl Flt { pub fn total<T: OfFlt>(self) -> (r: T) ensures r == T::of_spec(self) { T::of(self) } }
