//! C09: symbolic constants survive the constant pool unchanged.
use crate::core::*;
use coffer::prelude::*;

pub const HARNESSES: &[Harness] = &[];

#[cfg(not(kani))]
pub fn native(cx: &mut crate::native::Cx) {
    use crate::native::note;
    use crate::{gen, spec::*};
    #[derive(Debug, Clone)]
    enum V {
        C(Constant),
        Utf(Bs),
        Class(Bs),
        Package(Bs),
        Ind(u8, Bs),
        Nt(Bs, Type),
        M(MemberRef),
        H(MethodHandle),
        Dy(Dynamic),
        Or(OrDynamic<Constant>),
        I(i32),
        L(i64),
        F(u32),
        D(u64),
    }
    fn ins(c: &mut impl ConstantPoolWriter, v: &V) -> u16 {
        match v.clone() {
            V::C(x) => c.insert_constant(x),
            V::Utf(x) => c.insert_wtf8(cow(&x)),
            V::Class(x) => c.insert_class(cow(&x)),
            V::Package(x) => c.insert_package(cow(&x)),
            V::Ind(t, x) => c.insert_indirect_str(t, cow(&x)),
            V::Nt(n, t) => c.insert_nameandtype(cow(&n), cow(&descs(&t))),
            V::M(m) => c.insert_member(m),
            V::H(m) => c.insert_method_handle(m),
            V::Dy(d) => c.insert_dynamic(d),
            V::Or(d) => c.insert_ordynamic(d, |c, x| c.insert_constant(x)),
            V::I(i) => c.insert_int(i),
            V::L(i) => c.insert_long(i),
            V::F(i) => c.insert_float(f32::from_bits(i)),
            V::D(i) => c.insert_double(f64::from_bits(i)),
        }
    }
    fn konst(v: &V) -> Konst {
        match v.clone() {
            V::C(x) => k_const(&x),
            V::Utf(x) => Konst::Utf8(x),
            V::Class(x) | V::Ind(7, x) => Konst::Class(x),
            V::Package(x) | V::Ind(20, x) => Konst::Package(x),
            V::Ind(8, x) => Konst::Str(x),
            V::Ind(_, x) => Konst::Module(x),
            V::Nt(n, t) => Konst::NameType(n, descs(&t)),
            V::M(m) => k_member(&m),
            V::H(h) => k_handle(&h),
            V::Dy(d) => k_dyn(&d),
            V::Or(d) => k_or(&d),
            V::I(i) => Konst::Int(i),
            V::L(i) => Konst::Long(i),
            V::F(i) => Konst::Float(i),
            V::D(i) => Konst::Double(i),
        }
    }
    fn value(r: &mut Rng) -> V {
        match r.below(14) {
            0 | 1 => V::C(gen::constant(r)),
            2 => V::Utf(gen::wtf8(r, 6)),
            3 => V::Class(gen::wtf8(r, 6)),
            4 => V::Package(gen::wtf8(r, 6)),
            5 => V::Ind(*r.pick(&[7, 8, 19, 20]), gen::wtf8(r, 6)),
            6 => V::Nt(gen::wtf8(r, 4), gen::any_type(r)),
            7 => {
                let mut m = gen::member(r);
                // fields have no interface kind
                if !matches!(m.descriptor, Type::Method { .. }) {
                    m.itfs = r.chance(1, 4);
                }
                V::M(m)
            }
            8 => V::H(gen::handle(r)),
            9 => match gen::number(r) {
                Constant::I32(i) => V::I(i),
                Constant::I64(i) => V::L(i),
                Constant::F32(f) => V::F(f.0.to_bits()),
                Constant::F64(f) => V::D(f.0.to_bits()),
                _ => unreachable!(),
            },
            10 => {
                let m = r.chance(1, 2);
                V::Dy(gen::dynamic(r, 1, m))
            }
            11 => V::Or(gen::or_dynamic(r, 1)),
            _ => V::C(gen::constant(r)),
        }
    }
    /// Everything the reader says about an index is what the entries denote.
    fn ask(p: &mut (impl ConstantPoolReader + Sized), l: &dyn Lookup, i: u16, dynamics: bool) {
        let k = l.konst(i);
        let text = |x: Option<Cow<'static, wtf_8::Wtf8Str>>| x.map(|x| x.as_bytes().to_vec());
        assert_eq!(p.read_constant(i).as_ref().map(k_const), k.as_ref().and_then(const_k).as_ref().map(k_const), "read_constant({i})");
        assert_eq!(p.read_int(i), if let Some(Konst::Int(x)) = k { Some(x) } else { None }, "read_int({i})");
        assert_eq!(p.read_long(i), if let Some(Konst::Long(x)) = k { Some(x) } else { None }, "read_long({i})");
        assert_eq!(p.read_float(i).map(f32::to_bits), if let Some(Konst::Float(x)) = k { Some(x) } else { None }, "read_float({i})");
        assert_eq!(p.read_double(i).map(f64::to_bits), if let Some(Konst::Double(x)) = k { Some(x) } else { None }, "read_double({i})");
        assert_eq!(text(p.read_wtf8(i)), if let Some(Konst::Utf8(x)) = &k { Some(x.clone()) } else { None }, "read_wtf8({i})");
        assert_eq!(text(p.read_class(i)), if let Some(Konst::Class(x)) = &k { Some(x.clone()) } else { None }, "read_class({i})");
        for t in [7u8, 8, 19, 20, 0, 1, 16] {
            let w = match (&k, t) {
                (Some(Konst::Class(x)), 7) | (Some(Konst::Str(x)), 8) | (Some(Konst::Module(x)), 19) | (Some(Konst::Package(x)), 20) => Some(x.clone()),
                _ => None,
            };
            assert_eq!(text(p.read_indirect_str(t, i)), w, "read_indirect_str({t}, {i})");
        }
        let w = match &k {
            Some(Konst::NameType(n, t)) => parse_desc(t).map(|t| (n.clone(), t)),
            _ => None,
        };
        assert_eq!(p.read_nameandtype(i).map(|(n, t)| (n.as_bytes().to_vec(), t)), w, "read_nameandtype({i})");
        assert_eq!(p.read_member(i), k.as_ref().and_then(member_k), "read_member({i})");
        let w = match k.as_ref().and_then(const_k) {
            Some(Constant::MethodHandle(h)) => Some(h),
            _ => None,
        };
        assert_eq!(p.read_method_handle(i), w, "read_method_handle({i})");
        if dynamics {
            let d = k.as_ref().filter(|k| matches!(k, Konst::Dyn(..))).and_then(dyn_k);
            assert_eq!(p.read_dynamic(i), d, "read_dynamic({i})");
            let d = k.as_ref().filter(|k| matches!(k, Konst::Indy(..))).and_then(dyn_k);
            assert_eq!(p.read_invokedynamic(i), d, "read_invokedynamic({i})");
            let d = k.as_ref().and_then(or_k);
            assert_eq!(p.read_or_dynamic(i, |p, i| p.read_constant(i)), d, "read_or_dynamic({i})");
        }
    }
    let n = cx.scale(40_000, 1_000_000);
    cx.random("inserted and resolved", n, |r| {
        let mut w = RecPool::new(*r.pick(&[1, 1, 200, 5000, 60000]));
        let mut vc = VecCp::new();
        let v: Vec<V> = (0..1 + r.below(5)).map(|_| value(r)).collect();
        note(format!("{v:?}"));
        let mut at = vec![];
        for x in &v {
            at.push((ins(&mut w, x), ins(&mut vc, x)));
        }
        // the entries are of the specified kinds
        for (x, (i, _)) in v.iter().zip(&at) {
            assert_eq!(w.konst(*i), Some(konst(x)), "entry for {x:?}");
        }
        let mut o = vec![];
        ReadWrite::write_to(&vc, &mut o).unwrap();
        let (mut fp, _) = crate::classfile::parse_pool(&o).expect("the written pool is a pool");
        let mut m = <MapCp as ReadWrite>::read_from(&mut Rd::new(&o)).expect("a written pool is read");
        for i in 0..=fp.count.saturating_add(1) {
            ask(&mut m, &fp, i, false);
        }
        for (x, (_, j)) in v.iter().zip(&at) {
            if !matches!(x, V::Dy(_) | V::Or(OrDynamic::Dynamic(_))) {
                assert_eq!(fp.konst(*j), Some(konst(x)), "entry in the written pool for {x:?}");
            }
        }
    });
    // any entries at all: wrong kinds, dangling and out of range indices
    let n = cx.scale(40_000, 1_000_000);
    cx.random("arbitrary entries", n, |r| {
        let mut p = SpecPool::new(1);
        let texts = ["I", "()V", "(I)Lx;", "[[J", "", "x", "V", "(", "L;", "[", "II", "(V)V"];
        let k = 1 + r.below(16);
        let mut i = 1u16;
        for _ in 0..k {
            let mut ix = |r: &mut Rng| if r.chance(7, 8) { 1 + r.below(18) as u16 } else { r.u16() };
            use RawConstantEntry as R;
            let e = match r.below(16) {
                0 | 1 | 2 => R::WTF8(cow(r.pick(&texts).as_bytes())),
                3 => R::Int(r.u32() as i32),
                4 => R::Long(r.u64() as i64),
                5 => R::Double(f64::from_bits(r.u64()).into()),
                6 => R::Float(f32::from_bits(r.u32()).into()),
                7 => R::Class(ix(r)),
                8 => R::NameAndType(ix(r), ix(r)),
                9 => R::Field(ix(r), ix(r)),
                10 => R::Method(ix(r), ix(r)),
                11 => R::InterfaceMethod(ix(r), ix(r)),
                12 => R::MethodHandle(r.below(11) as u8, ix(r)),
                13 => R::MethodType(ix(r)),
                14 => {
                    if r.chance(1, 2) {
                        R::Module(ix(r))
                    } else {
                        R::Package(ix(r))
                    }
                }
                _ => R::String(ix(r)),
            };
            let w = super::c07::wide(&e);
            p.entries.insert(i, e);
            i += 1 + w as u16;
            p.next = i as u32;
        }
        let mut s: Vec<_> = p.entries.iter().collect();
        s.sort_by_key(|x| *x.0);
        note(format!("{s:?}"));
        let mut m = <MapCp as ReadWrite>::read_from(&mut Rd::new(&p.bytes())).expect("the pool is read");
        let l = p.clone();
        for j in 0..=i + 2 {
            ask(&mut m, &l, j, false);
            ask(&mut p, &l, j, true);
        }
    });
    // well-linked pools made by the specification, dynamics included
    let n = cx.scale(20_000, 500_000);
    cx.random("specified pools", n, |r| {
        let mut p = SpecPool::new(*r.pick(&[1, 7, 300, 60000]));
        let v: Vec<V> = (0..1 + r.below(4)).map(|_| value(r)).collect();
        note(format!("{v:?}"));
        for x in &v {
            p.add(&konst(x));
        }
        let l = p.clone();
        let mut all: Vec<u16> = l.entries.keys().copied().collect();
        all.sort();
        for j in all {
            ask(&mut p, &l, j, true);
            ask(&mut p, &l, j.wrapping_add(1), true);
        }
    });
}
