//! C11: generic signatures parse and print as exact inverses.
use crate::core::*;
use coffer::prelude::*;

pub const HARNESSES: &[Harness] = &[];

#[cfg(not(kani))]
pub fn native(cx: &mut crate::native::Cx) {
    use crate::gen::*;
    use crate::native::note;
    use crate::spec::*;
    use std::fmt::{Debug, Display};
    use std::str::FromStr;
    /// Accepted text prints back as itself, and is a prefix-free whole.
    fn text<T: FromStr + Display>(t: &str) -> bool {
        match T::from_str(t) {
            Ok(v) => {
                assert_eq!(v.to_string(), t, "the value parsed from this text");
                true
            }
            Err(_) => false,
        }
    }
    fn value<T: FromStr + Display + PartialEq + Debug + ConstantPoolReadWrite>(v: &T, want: &str)
    where
        T::Err: Debug,
    {
        note(format!("{v:?} {want:?}"));
        assert_eq!(v.to_string(), want, "printed form");
        let p = T::from_str(want).unwrap_or_else(|e| panic!("{want:?} is not parsed: {e:?}"));
        assert!(p == *v, "{want:?} parses as {p:?}");
        let t = Toks::new().k(Konst::Utf8(want.as_bytes().to_vec()));
        roundtrip(v, &t, 5, &[]);
    }
    fn damaged<T: FromStr + Display>(r: &mut Rng, s: &str) {
        let al = ['<', '>', ';', ':', '.', '/', '[', 'L', 'T', '*', '+', '-', '^', '(', ')', 'V', 'I', 'a', '\u{e9}', '\u{1f600}'];
        let mut c: Vec<char> = s.chars().collect();
        for _ in 0..1 + r.below(2) {
            let k = r.below(c.len() + 1);
            match r.below(5) {
                0 => c.insert(k, *r.pick(&al)),
                1 if k < c.len() => {
                    c.remove(k);
                }
                2 if k < c.len() => c[k] = *r.pick(&al),
                3 => c.truncate(k),
                _ => {
                    let e: Vec<char> = c[k..].to_vec();
                    c.extend(e);
                }
            }
        }
        let t: String = c.into_iter().collect();
        note(t.clone());
        text::<T>(&t);
        // what follows a whole signature is not ignored
        for x in ["x", ";", ">", "\0", " ", "I)", "<>", "V"] {
            let t = format!("{s}{x}");
            note(t.clone());
            text::<T>(&t);
        }
    }
    let n = cx.scale(25_000, 800_000);
    cx.random("class signatures", n, |r| {
        let v = class_signature(r);
        let s = s_class_signature(&v);
        value(&v, &s);
        damaged::<ClassSignature>(r, &s);
    });
    cx.random("method signatures", n, |r| {
        let v = method_signature(r);
        let s = s_method_signature(&v);
        value(&v, &s);
        damaged::<MethodSignature>(r, &s);
        for (k, _) in s.char_indices() {
            // a strict prefix is a method signature only where the throws clause or the return type can end
            let ok = text::<MethodSignature>(&s[..k]);
            let mut at_end = false;
            let mut o = String::new();
            let whole = MethodSignature { throws: vec![], ..v.clone() };
            o.push_str(&s_method_signature(&whole));
            if o.len() == k {
                at_end = true;
            }
            for t in &v.throws {
                s_throws(t, &mut o);
                if o.len() == k {
                    at_end = true;
                }
            }
            assert_eq!(ok, at_end, "the first {k} bytes of {s:?}");
        }
    });
    cx.random("type signatures", n, |r| {
        let v = type_sig(r, 3);
        let mut s = String::new();
        s_type(&v, &mut s);
        value(&v, &s);
        for (k, _) in s.char_indices() {
            assert!(TypeSignature::from_str(&s[..k]).is_err(), "the first {k} bytes of {s:?}");
        }
        damaged::<TypeSignature>(r, &s);
        let v = ref_sig(r, 3);
        let mut s = String::new();
        s_ref(&v, &mut s);
        value(&v, &s);
        let f: FieldSignature = s.parse().unwrap();
        value(&f, &s);
        for (k, _) in s.char_indices() {
            assert!(RefTypeSignature::from_str(&s[..k]).is_err(), "the first {k} bytes of {s:?}");
            assert!(FieldSignature::from_str(&s[..k]).is_err(), "the first {k} bytes of {s:?}");
        }
        damaged::<FieldSignature>(r, &s);
        damaged::<RefTypeSignature>(r, &s);
        let v = class_sig(r, 3);
        let mut s = String::new();
        s_class(&v, &mut s);
        value(&v, &s);
        damaged::<ClassTypeSignature>(r, &s);
        let v = simple_class(r, 3);
        let mut s = String::new();
        s_simple(&v, &mut s);
        value(&v, &s);
        damaged::<SimpleClassTypeSignature>(r, &s);
    });
    cx.random("parameters and throws", n, |r| {
        for v in type_params(r, 2) {
            let mut s = String::new();
            s_param(&v, &mut s);
            value(&v, &s);
            damaged::<TypeParameter>(r, &s);
        }
        for v in method_signature(r).throws {
            let mut s = String::new();
            s_throws(&v, &mut s);
            value(&v, &s);
            damaged::<Throws>(r, &s);
        }
    });
    let bad: Vec<&str> = vec![
        "", "L", "Lx", "Lx<", "Lx<>;", "Lx<*", "Lx<*>", "<>Lx;", "<T>Lx;", "<T:", "<T:>", "T", "Tx", "[", "[[", "(", "()", "()^", "()V^", "()V^I", "()VV", "(V)V", "<T:I>()V", "<>()V", "Lx<I>;", "Lx<V>;", "Lx<**", "Lx;;", "Lx;I", "Lx;Tx;", "Ia", "V",
        "\u{e9}", "\u{1f600}", "<\u{e9}", "Lx<\u{e9}>;", "()V^\u{e9}", "()\u{e9}", "[\u{e9}",
    ];
    cx.each("texts outside the grammar", &bad, |t| {
        assert!(ClassSignature::from_str(t).is_err(), "class signature");
        assert!(MethodSignature::from_str(t).is_err(), "method signature");
        if *t != "Ia" {
            assert!(FieldSignature::from_str(t).is_err(), "field signature");
        }
        assert!(TypeSignature::from_str(t).is_err(), "type signature");
    });
    cx.each("long lists", &[1usize, 2, 127, 128, 254, 255, 256, 257, 300, 511, 512, 513, 3000], |n| {
        for e in ["Lx;", "Tx;"] {
            assert!(text::<MethodSignature>(&format!("()V{}", format!("^{e}").repeat(*n))));
            assert!(text::<MethodSignature>(&format!("({})V", e.repeat(*n))));
            assert!(text::<MethodSignature>(&format!("<{}>()V", format!("A:{e}").repeat(*n))));
            assert!(text::<MethodSignature>(&format!("<A:{}>()V", format!(":{e}").repeat(*n))));
            assert!(text::<FieldSignature>(&format!("Lx<{}>;", e.repeat(*n))));
            assert!(text::<FieldSignature>(&format!("Lx<{}>;", "*".repeat(*n))));
            assert!(text::<FieldSignature>(&format!("Lx{};", format!(".y<{e}>").repeat(*n))));
            assert!(text::<FieldSignature>(&format!("L{}x;", "y/".repeat(*n))));
            assert!(text::<ClassSignature>(&"Lx;".repeat(*n)));
        }
    });
    let dims: Vec<usize> = (1..=300).chain([511, 512, 513, 4096, 65536 + 3]).collect();
    cx.each("dimensions", &dims, |d| {
        let a = "[".repeat(*d);
        for e in ["I", "Lx;", "Tx;"] {
            let s = format!("{a}{e}");
            let want = *d <= 255;
            assert_eq!(text::<TypeSignature>(&s), want);
            assert_eq!(text::<FieldSignature>(&s), want);
            assert_eq!(text::<MethodSignature>(&format!("({s})V")), want);
            assert_eq!(text::<MethodSignature>(&format!("(){s}")), want);
            assert_eq!(text::<ClassSignature>(&format!("Lx<{s}>;")), want);
        }
        assert!(!text::<TypeSignature>(&a));
    });
}
