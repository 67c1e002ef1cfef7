//! C23: method handles are accepted exactly when the rules allow.
use crate::core::*;
use coffer::prelude::*;
use std::convert::TryFrom;
use wtf_8::Wtf8Str;
use std::mem::{forget, ManuallyDrop};

pub fn kind(k: u8) -> Option<MethodHandleKind> {
    use MethodHandleKind::*;
    Some(match k {
        1 => GetField,
        2 => GetStatic,
        3 => PutField,
        4 => PutStatic,
        5 => InvokeVirtual,
        6 => InvokeStatic,
        7 => InvokeSpecial,
        8 => NewInvokeSpecial,
        9 => InvokeInterface,
        _ => return None,
    })
}
/// JVMS 4.4.8, and the rules documented on `check`.
pub fn allowed(k: u8, method: bool, name: &[u8]) -> bool {
    match k {
        1..=4 => !method,
        5 | 6 | 7 | 9 => method && name != b"<init>" && name != b"<clinit>",
        8 => method && name == b"<init>",
        _ => false,
    }
}
/// A descriptor that is none of the method kind.
fn ty(t: u8) -> Type {
    match t {
        0 => Type::Byte,
        1 => Type::Char,
        2 => Type::Double,
        3 => Type::Float,
        4 => Type::Int,
        5 => Type::Long,
        6 => Type::Boolean,
        7 => Type::Short,
        8 => Type::Ref(Cow::Borrowed(Wtf8Str::new("x"))),
        9 => Type::ArrayRef(1, Box::new(Type::Int)),
        _ => Type::Method { parameters: vec![], ret: None },
    }
}

fn check<S: Src>(s: &mut S, name: &'static [u8]) {
    let k = s.below(9) + 1;
    let t = s.below(11);
    let itfs = s.bool();
    let h = ManuallyDrop::new(MethodHandle {
        kind: kind(k).unwrap(),
        member: MemberRef {
            owner: Cow::Borrowed(Wtf8Str::new("o")),
            name: Cow::Borrowed(unsafe { wtf_8::Wtf8Str::from_bytes_unchecked(name) }),
            descriptor: ty(t),
            itfs,
        },
    });
    let r = h.check();
    assert!(r.is_ok() == allowed(k, t == 10, name), "accepted exactly when allowed");
    crate::cover!(r.is_ok());
    crate::cover!(r.is_err());
    forget(r);
}

crate::harnesses! {
    fn c23_kinds(s) unwind 4, "quick", "complete", "MethodHandleKind::{try_from,read_from,write_to}" {
        let x = s.u8();
        let want = kind(x);
        let r = MethodHandleKind::try_from(x);
        assert!(r.ok() == want, "kind numbers map to the specified kinds and no others");
        let b = [x, 7];
        let mut rd = Rd::new(&b);
        let r = MethodHandleKind::read_from(&mut rd);
        match want {
            Some(k) => {
                assert!(matches!(&r, Ok(y) if *y == k), "read as the specified kind");
                assert!(rd.n == 1, "one byte is consumed");
                let mut w = Wr::<4>::new();
                let q = k.write_to(&mut w);
                assert!(q.is_ok() && w.is(&[x]), "written as the specified number");
                forget(q);
                assert!(k as u8 == x, "has the specified number");
            }
            None => assert!(r.is_err(), "an undefined kind is an error"),
        }
        crate::cover!(want.is_none());
        forget(r);
    }
    fn c23_check_init(s) unwind 10, "quick", "complete for this name: every kind and every descriptor class", "MethodHandle::check" {
        check(s, b"<init>");
    }
    fn c23_check_clinit(s) unwind 10, "quick", "complete for this name: every kind and every descriptor class", "MethodHandle::check" {
        check(s, b"<clinit>");
    }
    fn c23_check_other(s) unwind 10, "quick", "bounded: every ASCII name of up to 8 bytes, every kind and every descriptor class", "MethodHandle::check" {
        let k = s.below(9) + 1;
        let t = s.below(11);
        let n = s.below(9) as usize;
        let mut b = [0u8; 8];
        let mut i = 0;
        while i < 8 {
            b[i] = s.u8() & 0x7F;
            i += 1;
        }
        let name: &[u8] = unsafe { std::slice::from_raw_parts(b.as_ptr(), n) };
        let h = ManuallyDrop::new(MethodHandle {
            kind: kind(k).unwrap(),
            member: MemberRef {
                owner: Cow::Borrowed(Wtf8Str::new("o")),
                name: Cow::Borrowed(unsafe { std::mem::transmute(wtf_8::Wtf8Str::from_bytes_unchecked(name)) }),
                descriptor: ty(t),
                itfs: false,
            },
        });
        let r = h.check();
        assert!(r.is_ok() == allowed(k, t == 10, name), "accepted exactly when allowed");
        crate::cover!(r.is_ok() && k == 8);
        forget(r);
    }
}
#[cfg(not(kani))]
pub fn native(cx: &mut crate::native::Cx) {
    use crate::spec::*;
    let names: Vec<&[u8]> = vec![
        b"<init>", b"<clinit>", b"", b"a", b"<init", b"init>", b"<Init>", b"<init> ", b"<clinit> ", b"clinit", b"<clinit", b"<>", b"<init>x", b"x<init>", b"\xc3\xa9", b"\xed\xa0\x80",
        b"<\xed\xa0\x80nit>",
    ];
    let mut cases = vec![];
    for k in 1..=9u8 {
        for n in &names {
            for t in 0..11u8 {
                for i in [false, true] {
                    cases.push((k, n.to_vec(), t, i));
                }
            }
        }
    }
    cx.each("check, and reading and writing a handle", &cases, |(k, n, t, i)| {
        let h = MethodHandle { kind: kind(*k).unwrap(), member: MemberRef { owner: cow(b"o"), name: cow(n), descriptor: ty(*t), itfs: *i && *t == 10 } };
        let ok = allowed(*k, *t == 10, n);
        assert_eq!(h.check().is_ok(), ok, "accepted exactly when allowed");
        let mut out = vec![];
        let mut p = RecPool::new(300);
        assert_eq!(h.write_to(&mut p, &mut out).is_ok(), ok, "written exactly when allowed");
        let spec = Toks::new().u8(*k).k(k_member(&h.member));
        let mut sp = SpecPool::new(5);
        let mut b = vec![];
        spec.build(&mut sp, &mut b);
        let r = MethodHandle::read_from(&mut sp, &mut Rd::new(&b));
        assert_eq!(r.is_ok(), ok, "read exactly when allowed");
        if ok {
            assert_eq!(r.unwrap(), h);
            spec.matches_all(&out, &p).unwrap();
        }
    });
    let n = cx.scale(3000, 100000);
    cx.random("any name", n, |r| {
        let mut n: Vec<u8> = r.pick(&names[..]).to_vec();
        for _ in 0..r.below(3) {
            let c = *r.pick(b"<>initcl x");
            match r.below(3) {
                0 => {
                    let k = r.below(n.len() + 1);
                    n.insert(k, c)
                }
                1 if !n.is_empty() => {
                    let k = r.below(n.len());
                    n.remove(k);
                }
                _ if !n.is_empty() => {
                    let k = r.below(n.len());
                    n[k] = c;
                }
                _ => {}
            }
        }
        if !wtf8_ok(&n) {
            n = b"<init>".to_vec();
        }
        let (k, t) = (r.below(9) as u8 + 1, r.below(11) as u8);
        crate::native::note(format!("{k} {n:?} {t}"));
        let h = MethodHandle { kind: kind(k).unwrap(), member: MemberRef { owner: cow(b"o"), name: cow(&n), descriptor: ty(t), itfs: false } };
        assert_eq!(h.check().is_ok(), allowed(k, t == 10, &n), "accepted exactly when allowed");
    });
}
