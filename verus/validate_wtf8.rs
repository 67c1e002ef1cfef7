// C03, C04: validation accepts exactly well-formed WTF-8.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ assume usize has 64 bits
//@ assume slice::Iter, Copied and Enumerate give each element of the slice with its index, in order
//@ assume NonZeroU8::new gives None on 0 and Some otherwise (stand-in type)
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct NonZeroU8 { pub v: u8 }
impl NonZeroU8 { pub fn new(v: u8) -> (r: Option<NonZeroU8>) { if v == 0 { None } else { Some(NonZeroU8 { v }) } } }
//@ include walk.inc
//@ include wtf8_spec.inc
//@ item wtf8/src/lib.rs struct Wtf8Error
//@ end
//@ item wtf8/src/lib.rs fn validate_wtf8
//@   macros
//@   subst bytes.iter().copied().enumerate() => Walk::new(bytes)
//@   ret r
//@   spec
//@   | ensures r is Ok <==> wf(bytes@, 0, false)
//@   loop 0
//@   | invariant
//@   |     iter.ok(bytes@), tail@.start == 0x80, tail@.end == 0xBF, !tail@.exhausted, wf(bytes@, 0, false) == wf(bytes@, iter.pos as int, is_high_surrogate),
//@   |     is_high_surrogate ==> iter.pos >= 3,
//@   | ensures iter.pos >= bytes@.len()
//@   | decreases bytes@.len() - iter.pos
//@ end
//@ drop the type Wtf8String: its one field as here; the conversion of the error to itself by `?`
pub struct Wtf8String { pub bytes: Vec<u8> }
impl Wtf8String {
//@ item wtf8/src/lib.rs fn from_bytes_unchecked in impl Wtf8String
//@   ret r
//@   spec
//@   | ensures r.bytes == bytes
//@ end
//@ item wtf8/src/lib.rs fn from_bytes in impl Wtf8String
//@   ret r
//@   spec
//@   | ensures r is Ok <==> wf(bytes@, 0, false), r is Ok ==> r->Ok_0.bytes == bytes
//@ end
}
fn main() {}
}
