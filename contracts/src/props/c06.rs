//! C06: constant-pool entries have the specified binary form.
use crate::core::*;
use crate::spec::*;
use coffer::prelude::*;
use coffer::total_floats::*;
use std::mem::{forget, ManuallyDrop};

/// An entry of the kind `tag` with operands from `x`, its reference form, and its bytes.
fn entry(tag: u8, x: u64) -> (RawConstantEntry, ConstEntryRef<'static>, [u8; 9], usize) {
    use ConstEntryRef as E;
    use RawConstantEntry as R;
    let (a, b) = ((x >> 16) as u16, x as u16);
    let w = x as u32;
    let mut o = [tag, 0, 0, 0, 0, 0, 0, 0, 0];
    let n = match tag {
        5 | 6 => 8,
        3 | 4 | 9 | 10 | 11 | 12 | 17 | 18 => 4,
        15 => 3,
        _ => 2,
    };
    let v: u64 = match n {
        8 => x,
        4 => w as u64,
        3 => w as u64 & 0xFF_FFFF,
        _ => b as u64,
    };
    let mut i = 0;
    while i < n {
        o[1 + i] = (v >> (8 * (n - 1 - i))) as u8;
        i += 1;
    }
    let (r, e) = match tag {
        3 => (R::Int(w as i32), E::Int(w as i32)),
        4 => (R::Float(TotalF32(f32::from_bits(w))), E::Float(f32::from_bits(w))),
        5 => (R::Long(x as i64), E::Long(x as i64)),
        6 => (R::Double(TotalF64(f64::from_bits(x))), E::Double(f64::from_bits(x))),
        7 => (R::Class(b), E::Class(b)),
        8 => (R::String(b), E::String(b)),
        9 => (R::Field(a, b), E::Field(a, b)),
        10 => (R::Method(a, b), E::Method(a, b)),
        11 => (R::InterfaceMethod(a, b), E::InterfaceMethod(a, b)),
        12 => (R::NameAndType(a, b), E::NameAndType(a, b)),
        15 => (R::MethodHandle(a as u8, b), E::MethodHandle(a as u8, b)),
        16 => (R::MethodType(b), E::MethodType(b)),
        17 => (R::Dynamic(a, b), E::Dynamic(a, b)),
        18 => (R::InvokeDynamic(a, b), E::InvokeDynamic(a, b)),
        19 => (R::Module(b), E::Module(b)),
        _ => (R::Package(b), E::Package(b)),
    };
    (r, e, o, n + 1)
}
fn contract<S: Src>(s: &mut S, tag: u8) {
    let x = s.u64();
    let (r, e, b, n) = entry(tag, x);
    let r = ManuallyDrop::new(r);
    let mut w = Wr::<12>::new();
    let q = ReadWrite::write_to(&*r, &mut w);
    assert!(q.is_ok() && w.is(&b[..n]), "the tag and exactly the operands are written");
    forget(q);
    let mut w = Wr::<12>::new();
    let q = ReadWrite::write_to(&e, &mut w);
    assert!(q.is_ok() && w.is(&b[..n]), "the reference form writes the same");
    forget(q);
    let size = if tag == 5 || tag == 6 { 2 } else { 1 };
    assert!(r.size() == size && r.is_wide() == (size == 2), "8-byte numbers take two slots, all else one");
    let mut rd = Rd::new(&b);
    let q = ManuallyDrop::new(<RawConstantEntry as ReadWrite>::read_from(&mut rd));
    assert!(matches!(&*q, Ok(y) if *y == *r), "an equal entry is read");
    assert!(rd.n == n, "nothing more is consumed");
    // (that the empty input is an error is one concrete case, decided by running it)
    let mut short = 1;
    while short < n {
        let mut rd = Rd::new(&b[..short]);
        let q = ManuallyDrop::new(<RawConstantEntry as ReadWrite>::read_from(&mut rd));
        assert!(q.is_err(), "truncated operands are an error");
        short += 1;
    }
    crate::cover!(true);
}
crate::harnesses! {
    fn c06_int(s) unwind 12, "quick", "complete", "RawConstantEntry::{read_from,write_to}, ConstEntryRef::write_to (Int)" { contract(s, 3) }
    fn c06_float(s) unwind 12, "quick", "complete", "RawConstantEntry::{read_from,write_to}, ConstEntryRef::write_to (Float)" { contract(s, 4) }
    fn c06_long(s) unwind 12, "quick", "complete", "RawConstantEntry::{read_from,write_to}, ConstEntryRef::write_to (Long)" { contract(s, 5) }
    fn c06_double(s) unwind 12, "quick", "complete", "RawConstantEntry::{read_from,write_to}, ConstEntryRef::write_to (Double)" { contract(s, 6) }
    fn c06_class(s) unwind 12, "quick", "complete", "RawConstantEntry::{read_from,write_to}, ConstEntryRef::write_to (Class)" { contract(s, 7) }
    fn c06_string(s) unwind 12, "quick", "complete", "RawConstantEntry::{read_from,write_to}, ConstEntryRef::write_to (String)" { contract(s, 8) }
    fn c06_field(s) unwind 12, "quick", "complete", "RawConstantEntry::{read_from,write_to}, ConstEntryRef::write_to (Field)" { contract(s, 9) }
    fn c06_method(s) unwind 12, "quick", "complete", "RawConstantEntry::{read_from,write_to}, ConstEntryRef::write_to (Method)" { contract(s, 10) }
    fn c06_interface_method(s) unwind 12, "quick", "complete", "RawConstantEntry::{read_from,write_to}, ConstEntryRef::write_to (InterfaceMethod)" { contract(s, 11) }
    fn c06_name_and_type(s) unwind 12, "quick", "complete", "RawConstantEntry::{read_from,write_to}, ConstEntryRef::write_to (NameAndType)" { contract(s, 12) }
    fn c06_method_handle(s) unwind 12, "quick", "complete", "RawConstantEntry::{read_from,write_to}, ConstEntryRef::write_to (MethodHandle)" { contract(s, 15) }
    fn c06_method_type(s) unwind 12, "quick", "complete", "RawConstantEntry::{read_from,write_to}, ConstEntryRef::write_to (MethodType)" { contract(s, 16) }
    fn c06_dynamic(s) unwind 12, "quick", "complete", "RawConstantEntry::{read_from,write_to}, ConstEntryRef::write_to (Dynamic)" { contract(s, 17) }
    fn c06_invoke_dynamic(s) unwind 12, "quick", "complete", "RawConstantEntry::{read_from,write_to}, ConstEntryRef::write_to (InvokeDynamic)" { contract(s, 18) }
    fn c06_module(s) unwind 12, "quick", "complete", "RawConstantEntry::{read_from,write_to}, ConstEntryRef::write_to (Module)" { contract(s, 19) }
    fn c06_package(s) unwind 12, "quick", "complete", "RawConstantEntry::{read_from,write_to}, ConstEntryRef::write_to (Package)" { contract(s, 20) }
    fn c06_undefined(s) unwind 12, "quick", "complete", "RawConstantEntry::read_from (every tag that is not defined)" {
        let t = s.u8();
        s.assume(!matches!(t, 1 | 3..=12 | 15..=20));
        let b = [t, 0, 1, 2, 3, 4, 5, 6, 7];
        let mut rd = Rd::new(&b);
        let q = ManuallyDrop::new(<RawConstantEntry as ReadWrite>::read_from(&mut rd));
        assert!(q.is_err(), "an undefined tag is an error");
        crate::cover!(t == 2);
        crate::cover!(t == 21);
    }
}
#[cfg(not(kani))]
pub fn native(cx: &mut crate::native::Cx) {
    use crate::gen;
    cx.each("every tag, no operands", &(0..=255u8).collect::<Vec<_>>(), |t| {
        let r = <RawConstantEntry as ReadWrite>::read_from(&mut Rd::new(&[*t]));
        assert!(r.is_err(), "truncated operands are an error");
        if !matches!(t, 1 | 3..=12 | 15..=20) {
            let r = <RawConstantEntry as ReadWrite>::read_from(&mut Rd::new(&[*t, 0, 1, 0x61, 0, 0, 0, 0, 0, 0]));
            assert!(r.is_err(), "an undefined tag is an error");
        }
    });
    let n = cx.scale(20000, 500000);
    cx.random("UTF8 entries", n, |r| {
        let st = gen::wtf8(r, 24);
        crate::native::note(format!("{st:02x?}"));
        let m = mutf8(&units_of_wtf8(&st).unwrap());
        let mut want = vec![1, (m.len() >> 8) as u8, m.len() as u8];
        want.extend(&m);
        let e = RawConstantEntry::WTF8(cow(&st));
        let mut o = vec![];
        ReadWrite::write_to(&e, &mut o).unwrap();
        assert_eq!(o, want, "written form");
        let s = ws(&st);
        let mut o = vec![];
        ReadWrite::write_to(&ConstEntryRef::UTF8(StrRef(&s)), &mut o).unwrap();
        assert_eq!(o, want, "written form of the reference form");
        let k = r.below(want.len());
        assert!(<RawConstantEntry as ReadWrite>::read_from(&mut Rd::new(&want[..k])).is_err(), "truncated");
        let l = want.len();
        want.push(0x61);
        let mut rd = Rd::new(&want);
        let q = <RawConstantEntry as ReadWrite>::read_from(&mut rd).unwrap();
        assert_eq!(q, e);
        assert_eq!(rd.n, l, "bytes consumed");
    });
    cx.each("long strings", &[65535usize, 65534, 40000, 65536, 70000, 131072, 200000], |n| {
        let s = vec![b'x'; *n];
        let e = RawConstantEntry::WTF8(cow(&s));
        let mut o = vec![];
        let r = ReadWrite::write_to(&e, &mut o);
        let st = ws(&s);
        let mut o2 = vec![];
        let r2 = ReadWrite::write_to(&ConstEntryRef::UTF8(StrRef(&st)), &mut o2);
        if *n > 65535 {
            assert!(r.is_err() && r2.is_err(), "too long to be stored");
        } else {
            r.unwrap();
            r2.unwrap();
            assert!(o.len() == 3 + n && o == o2);
            assert_eq!(<RawConstantEntry as ReadWrite>::read_from(&mut Rd::new(&o)).unwrap(), e);
        }
    });
}
