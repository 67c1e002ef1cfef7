//! Specifications, written from the JVM specification and the definition of WTF-8.
//! Nothing in here calls coffer's own encoders, decoders, parsers or printers.

/// The code points of generalized UTF-8: (code point, bytes used), or `None` if malformed here.
/// Surrogates are allowed; overlong forms and values over 10FFFF are not.
pub fn gen_utf8_next(b: &[u8]) -> Option<(u32, usize)> {
    let at = |i: usize| -> Option<u32> {
        if i < b.len() && b[i] & 0xC0 == 0x80 {
            Some((b[i] & 0x3F) as u32)
        } else {
            None
        }
    };
    if b.is_empty() {
        return None;
    }
    let f = b[0];
    if f < 0x80 {
        Some((f as u32, 1))
    } else if f & 0xE0 == 0xC0 {
        let c = ((f & 0x1F) as u32) << 6 | at(1)?;
        if c >= 0x80 {
            Some((c, 2))
        } else {
            None
        }
    } else if f & 0xF0 == 0xE0 {
        let c = ((f & 0x0F) as u32) << 12 | at(1)? << 6 | at(2)?;
        if c >= 0x800 {
            Some((c, 3))
        } else {
            None
        }
    } else if f & 0xF8 == 0xF0 {
        let c = ((f & 0x07) as u32) << 18 | at(1)? << 12 | at(2)? << 6 | at(3)?;
        if c >= 0x10000 && c <= 0x10FFFF {
            Some((c, 4))
        } else {
            None
        }
    } else {
        None
    }
}
pub fn is_high(c: u32) -> bool {
    c >= 0xD800 && c <= 0xDBFF
}
pub fn is_low(c: u32) -> bool {
    c >= 0xDC00 && c <= 0xDFFF
}
/// Well-formed WTF-8: generalized UTF-8 with no high surrogate directly before a low one.
pub fn wtf8_ok(b: &[u8]) -> bool {
    let mut i = 0;
    let mut high = false;
    while i < b.len() {
        match gen_utf8_next(&b[i..]) {
            None => return false,
            Some((c, n)) => {
                if high && is_low(c) {
                    return false;
                }
                high = is_high(c);
                i += n;
            }
        }
    }
    true
}

/// The generalized UTF-8 bytes of a code point.
pub fn gen_utf8(c: u32) -> ([u8; 4], usize) {
    let k = |s: u32| 0x80 | (c >> s & 0x3F) as u8;
    if c < 0x80 {
        ([c as u8, 0, 0, 0], 1)
    } else if c < 0x800 {
        ([0xC0 | (c >> 6) as u8, k(0), 0, 0], 2)
    } else if c < 0x10000 {
        ([0xE0 | (c >> 12) as u8, k(6), k(0), 0], 3)
    } else {
        ([0xF0 | (c >> 18) as u8, k(12), k(6), k(0)], 4)
    }
}

/// The Modified UTF-8 bytes of a UTF-16 unit (JVMS 4.4.7).
pub fn mutf8_unit(u: u16) -> ([u8; 3], usize) {
    if u >= 1 && u <= 0x7F {
        ([u as u8, 0, 0], 1)
    } else if u <= 0x7FF {
        ([0xC0 | (u >> 6) as u8, 0x80 | (u & 0x3F) as u8, 0], 2)
    } else {
        ([0xE0 | (u >> 12) as u8, 0x80 | (u >> 6 & 0x3F) as u8, 0x80 | (u & 0x3F) as u8], 3)
    }
}

#[cfg(not(kani))]
pub use heap::*;
#[cfg(not(kani))]
mod heap {
    use super::*;
    use coffer::prelude::*;
    use coffer::total_floats::*;
    use once_cell::sync::OnceCell;
    use std::collections::HashMap;
    use std::sync::Arc;
    use wtf_8::{Wtf8Str, Wtf8String};

    pub type Bs = Vec<u8>;

    pub fn cps_of_wtf8(b: &[u8]) -> Option<Vec<u32>> {
        let mut i = 0;
        let mut v = vec![];
        while i < b.len() {
            let (c, n) = gen_utf8_next(&b[i..])?;
            v.push(c);
            i += n;
        }
        Some(v)
    }
    pub fn units_of_cp(c: u32, out: &mut Vec<u16>) {
        if c >= 0x10000 {
            let c = c - 0x10000;
            out.push(0xD800 + (c >> 10) as u16);
            out.push(0xDC00 + (c & 0x3FF) as u16);
        } else {
            out.push(c as u16)
        }
    }
    pub fn units_of_wtf8(b: &[u8]) -> Option<Vec<u16>> {
        let mut v = vec![];
        for c in cps_of_wtf8(b)? {
            units_of_cp(c, &mut v);
        }
        Some(v)
    }
    /// The code points of a sequence of UTF-16 units: pairs are joined, the rest is as it is.
    pub fn cps_of_units(u: &[u16]) -> Vec<u32> {
        let mut v = vec![];
        let mut i = 0;
        while i < u.len() {
            let c = u[i] as u32;
            if is_high(c) && i + 1 < u.len() && is_low(u[i + 1] as u32) {
                v.push(0x10000 + ((c - 0xD800) << 10) + (u[i + 1] as u32 - 0xDC00));
                i += 2;
            } else {
                v.push(c);
                i += 1;
            }
        }
        v
    }
    pub fn wtf8_of_units(u: &[u16]) -> Bs {
        let mut v = vec![];
        for c in cps_of_units(u) {
            let (b, n) = gen_utf8(c);
            v.extend_from_slice(&b[..n]);
        }
        v
    }
    pub fn mutf8(u: &[u16]) -> Bs {
        let mut v = vec![];
        for u in u {
            let (b, n) = mutf8_unit(*u);
            v.extend_from_slice(&b[..n]);
        }
        v
    }
    /// What a byte sequence encodes: Modified UTF-8, and the standard forms of NUL and of
    /// supplementary characters.
    pub fn mutf8_dec(b: &[u8]) -> Option<Vec<u16>> {
        let mut v = vec![];
        let mut i = 0;
        while i < b.len() {
            if b[i] == 0xC0 && b.get(i + 1) == Some(&0x80) {
                v.push(0);
                i += 2;
            } else {
                let (c, n) = gen_utf8_next(&b[i..])?;
                units_of_cp(c, &mut v);
                i += n;
            }
        }
        Some(v)
    }
    pub fn ws(b: &[u8]) -> Wtf8String {
        assert!(wtf8_ok(b), "the check made a malformed string");
        unsafe { Wtf8String::from_bytes_unchecked(b.to_vec()) }
    }
    pub fn cow(b: &[u8]) -> Cow<'static, Wtf8Str> {
        Cow::Owned(ws(b))
    }

    // ---- descriptors (JVMS 4.3)

    pub fn desc(t: &Type, o: &mut Bs) {
        match t {
            Type::Byte => o.push(b'B'),
            Type::Char => o.push(b'C'),
            Type::Double => o.push(b'D'),
            Type::Float => o.push(b'F'),
            Type::Int => o.push(b'I'),
            Type::Long => o.push(b'J'),
            Type::Boolean => o.push(b'Z'),
            Type::Short => o.push(b'S'),
            Type::Ref(n) => {
                o.push(b'L');
                o.extend_from_slice(n.as_bytes());
                o.push(b';');
            }
            Type::ArrayRef(d, t) => {
                for _ in 0..*d {
                    o.push(b'[')
                }
                desc(t, o);
            }
            Type::Method { parameters, ret } => {
                o.push(b'(');
                for p in parameters {
                    desc(p, o)
                }
                o.push(b')');
                match ret {
                    Some(t) => desc(t, o),
                    None => o.push(b'V'),
                }
            }
        }
    }
    pub fn descs(t: &Type) -> Bs {
        let mut o = vec![];
        desc(t, &mut o);
        o
    }
    fn p_field(b: &[u8]) -> Option<(Type, &[u8])> {
        let (f, r) = b.split_first()?;
        Some((
            match f {
                b'B' => Type::Byte,
                b'C' => Type::Char,
                b'D' => Type::Double,
                b'F' => Type::Float,
                b'I' => Type::Int,
                b'J' => Type::Long,
                b'Z' => Type::Boolean,
                b'S' => Type::Short,
                b'L' => {
                    let e = r.iter().position(|c| *c == b';')?;
                    return Some((Type::Ref(cow(&r[..e])), &r[e + 1..]));
                }
                b'[' => {
                    let d = b.iter().take_while(|c| **c == b'[').count();
                    let (t, r) = p_field(&b[d..])?;
                    if d > 255 {
                        return None;
                    }
                    return Some((Type::ArrayRef(d as u8, Box::new(t)), r));
                }
                _ => return None,
            },
            r,
        ))
    }
    /// The descriptor that a text is, if it is one. The text must be well-formed WTF-8.
    pub fn parse_desc(b: &[u8]) -> Option<Type> {
        if b.first() == Some(&b'(') {
            let mut r = &b[1..];
            let mut parameters = vec![];
            while *r.first()? != b')' {
                let (t, n) = p_field(r)?;
                parameters.push(t);
                r = n;
            }
            r = &r[1..];
            if r == b"V" {
                return Some(Type::Method { parameters, ret: None });
            }
            let (t, r) = p_field(r)?;
            if !r.is_empty() {
                return None;
            }
            return Some(Type::Method { parameters, ret: Some(Box::new(t)) });
        }
        let (t, r) = p_field(b)?;
        r.is_empty().then(|| t)
    }

    // ---- constants (JVMS 4.4)

    #[derive(Clone, PartialEq, Eq, Debug, Hash)]
    pub enum Konst {
        Utf8(Bs),
        Int(i32),
        Float(u32),
        Long(i64),
        Double(u64),
        Class(Bs),
        Str(Bs),
        Module(Bs),
        Package(Bs),
        Field(Bs, Bs, Bs),
        Method(Bs, Bs, Bs),
        IMethod(Bs, Bs, Bs),
        NameType(Bs, Bs),
        Handle(u8, Box<Konst>),
        MType(Bs),
        Dyn(Box<Bsm>, Bs, Bs),
        Indy(Box<Bsm>, Bs, Bs),
    }
    #[derive(Clone, PartialEq, Eq, Debug, Hash)]
    pub struct Bsm {
        pub handle: Konst,
        pub args: Vec<Konst>,
    }
    pub fn k_utf(s: &Wtf8Str) -> Konst {
        Konst::Utf8(s.as_bytes().to_vec())
    }
    pub fn k_member(m: &MemberRef) -> Konst {
        let (o, n, d) = (m.owner.as_bytes().to_vec(), m.name.as_bytes().to_vec(), descs(&m.descriptor));
        match (&m.descriptor, m.itfs) {
            (Type::Method { .. }, false) => Konst::Method(o, n, d),
            (Type::Method { .. }, true) => Konst::IMethod(o, n, d),
            _ => Konst::Field(o, n, d),
        }
    }
    pub fn kind_no(k: MethodHandleKind) -> u8 {
        use MethodHandleKind::*;
        match k {
            GetField => 1,
            GetStatic => 2,
            PutField => 3,
            PutStatic => 4,
            InvokeVirtual => 5,
            InvokeStatic => 6,
            InvokeSpecial => 7,
            NewInvokeSpecial => 8,
            InvokeInterface => 9,
        }
    }
    pub fn no_kind(k: u8) -> Option<MethodHandleKind> {
        use MethodHandleKind::*;
        Some(match k {
            1 => GetField,
            2 => GetStatic,
            3 => PutField,
            4 => PutStatic,
            5 => InvokeVirtual,
            6 => InvokeStatic,
            7 => InvokeSpecial,
            8 => NewInvokeSpecial,
            9 => InvokeInterface,
            _ => return None,
        })
    }
    pub fn k_handle(h: &MethodHandle) -> Konst {
        Konst::Handle(kind_no(h.kind), Box::new(k_member(&h.member)))
    }
    pub fn k_const(c: &Constant) -> Konst {
        match c {
            Constant::I32(i) => Konst::Int(*i),
            Constant::F32(f) => Konst::Float(f.0.to_bits()),
            Constant::I64(i) => Konst::Long(*i),
            Constant::F64(f) => Konst::Double(f.0.to_bits()),
            Constant::String(s) => Konst::Str(s.as_bytes().to_vec()),
            Constant::Class(s) => Konst::Class(s.as_bytes().to_vec()),
            Constant::Member(m) => k_member(m),
            Constant::MethodType(t) => Konst::MType(descs(t)),
            Constant::MethodHandle(h) => k_handle(h),
        }
    }
    pub fn k_bsm(b: &BootstrapMethod) -> Bsm {
        Bsm { handle: k_handle(&b.handle), args: b.arguments.iter().map(k_or).collect() }
    }
    pub fn k_dyn(d: &Dynamic) -> Konst {
        let (b, n, t) = (Box::new(k_bsm(d.bsm.get().expect("dynamic without bootstrap method"))), d.name.as_bytes().to_vec(), descs(&d.descriptor));
        if matches!(d.descriptor, Type::Method { .. }) {
            Konst::Indy(b, n, t)
        } else {
            Konst::Dyn(b, n, t)
        }
    }
    pub fn k_or(c: &OrDynamic<Constant>) -> Konst {
        match c {
            OrDynamic::Dynamic(d) => k_dyn(d),
            OrDynamic::Static(c) => k_const(c),
        }
    }

    /// Back to coffer's values (the descriptor texts must be descriptors).
    pub fn member_k(k: &Konst) -> Option<MemberRef> {
        let (o, n, d, itfs) = match k {
            Konst::Field(o, n, d) | Konst::Method(o, n, d) => (o, n, d, false),
            Konst::IMethod(o, n, d) => (o, n, d, true),
            _ => return None,
        };
        Some(MemberRef { owner: cow(o), name: cow(n), descriptor: parse_desc(d)?, itfs })
    }
    pub fn const_k(k: &Konst) -> Option<Constant> {
        Some(match k {
            Konst::Int(i) => Constant::I32(*i),
            Konst::Float(b) => Constant::F32(TotalF32(f32::from_bits(*b))),
            Konst::Long(i) => Constant::I64(*i),
            Konst::Double(b) => Constant::F64(TotalF64(f64::from_bits(*b))),
            Konst::Class(s) => Constant::Class(cow(s)),
            Konst::Str(s) => Constant::String(cow(s)),
            Konst::MType(d) => Constant::MethodType(parse_desc(d)?),
            Konst::Handle(k, m) => Constant::MethodHandle(MethodHandle { kind: no_kind(*k)?, member: member_k(m)? }),
            Konst::Field(..) | Konst::Method(..) | Konst::IMethod(..) => Constant::Member(member_k(k)?),
            _ => return None,
        })
    }
    pub fn bsm_k(b: &Bsm) -> Option<BootstrapMethod> {
        Some(BootstrapMethod {
            handle: match const_k(&b.handle)? {
                Constant::MethodHandle(h) => h,
                _ => return None,
            },
            arguments: b.args.iter().map(or_k).collect::<Option<_>>()?,
        })
    }
    pub fn dyn_k(k: &Konst) -> Option<Dynamic> {
        match k {
            Konst::Dyn(b, n, t) | Konst::Indy(b, n, t) => Some(Dynamic::new(bsm_k(b)?, cow(n), parse_desc(t)?)),
            _ => None,
        }
    }
    pub fn or_k(k: &Konst) -> Option<OrDynamic<Constant>> {
        match k {
            Konst::Dyn(..) => Some(OrDynamic::Dynamic(dyn_k(k)?)),
            _ => Some(OrDynamic::Static(const_k(k)?)),
        }
    }

    // ---- pools

    /// Answers what an index of a pool denotes.
    pub trait Lookup {
        fn entry(&self, i: u16) -> Option<&RawConstantEntry>;
        fn bsm(&self, i: u16) -> Option<Bsm>;
        fn utf(&self, i: u16) -> Option<Bs> {
            match self.entry(i)? {
                RawConstantEntry::WTF8(s) => Some(s.as_bytes().to_vec()),
                _ => None,
            }
        }
        fn class(&self, i: u16) -> Option<Bs> {
            match self.entry(i)? {
                RawConstantEntry::Class(s) => self.utf(*s),
                _ => None,
            }
        }
        fn nt(&self, i: u16) -> Option<(Bs, Bs)> {
            match self.entry(i)? {
                RawConstantEntry::NameAndType(n, t) => Some((self.utf(*n)?, self.utf(*t)?)),
                _ => None,
            }
        }
        fn konst(&self, i: u16) -> Option<Konst> {
            use RawConstantEntry as R;
            Some(match self.entry(i)? {
                R::WTF8(s) => k_utf(s),
                R::Int(i) => Konst::Int(*i),
                R::Float(f) => Konst::Float(f.0.to_bits()),
                R::Long(i) => Konst::Long(*i),
                R::Double(f) => Konst::Double(f.0.to_bits()),
                R::Class(i) => Konst::Class(self.utf(*i)?),
                R::String(i) => Konst::Str(self.utf(*i)?),
                R::Module(i) => Konst::Module(self.utf(*i)?),
                R::Package(i) => Konst::Package(self.utf(*i)?),
                R::Field(c, n) => {
                    let (n, t) = self.nt(*n)?;
                    Konst::Field(self.class(*c)?, n, t)
                }
                R::Method(c, n) => {
                    let (n, t) = self.nt(*n)?;
                    Konst::Method(self.class(*c)?, n, t)
                }
                R::InterfaceMethod(c, n) => {
                    let (n, t) = self.nt(*n)?;
                    Konst::IMethod(self.class(*c)?, n, t)
                }
                R::NameAndType(n, t) => Konst::NameType(self.utf(*n)?, self.utf(*t)?),
                R::MethodHandle(k, m) => {
                    if !matches!(self.entry(*m)?, R::Field(..) | R::Method(..) | R::InterfaceMethod(..)) {
                        return None;
                    }
                    let m = self.konst(*m)?;
                    Konst::Handle(*k, Box::new(m))
                }
                R::MethodType(i) => Konst::MType(self.utf(*i)?),
                R::Dynamic(b, n) => {
                    let (n, t) = self.nt(*n)?;
                    Konst::Dyn(Box::new(self.bsm(*b)?), n, t)
                }
                R::InvokeDynamic(b, n) => {
                    let (n, t) = self.nt(*n)?;
                    Konst::Indy(Box::new(self.bsm(*b)?), n, t)
                }
            })
        }
    }

    /// A pool that records what is inserted.
    pub struct RecPool {
        pub at: HashMap<RawConstantEntry, u16>,
        pub entries: HashMap<u16, RawConstantEntry>,
        pub next: u32,
        pub bsms: Vec<BootstrapMethod>,
        pub catches: Vec<Catch>,
    }
    impl RecPool {
        /// Indices are handed out from `next`.
        pub fn new(next: u16) -> Self {
            RecPool { at: HashMap::new(), entries: HashMap::new(), next: next as u32, bsms: vec![], catches: vec![] }
        }
    }
    impl ConstantPoolWriter for RecPool {
        fn insert_raw(&mut self, v: RawConstantEntry) -> u16 {
            if let Some(i) = self.at.get(&v) {
                return *i;
            }
            let i = self.next;
            assert!(i < 65535, "the check's pool is full");
            self.next += if matches!(v, RawConstantEntry::Long(_) | RawConstantEntry::Double(_)) { 2 } else { 1 };
            self.at.insert(v.clone(), i as u16);
            self.entries.insert(i as u16, v);
            i as u16
        }
        fn insert_bsm(&mut self, b: BootstrapMethod) -> u16 {
            match self.bsms.iter().position(|x| *x == b) {
                Some(i) => i as u16,
                None => {
                    self.bsms.push(b);
                    self.bsms.len() as u16 - 1
                }
            }
        }
        fn label(&mut self, l: &Label) -> u16 {
            l.0 as u16
        }
        fn catch(&mut self, c: &Catch) -> Option<u16> {
            self.catches.iter().position(|x| x == c).map(|i| i as u16)
        }
    }
    impl Lookup for RecPool {
        fn entry(&self, i: u16) -> Option<&RawConstantEntry> {
            self.entries.get(&i)
        }
        fn bsm(&self, i: u16) -> Option<Bsm> {
            self.bsms.get(i as usize).map(k_bsm)
        }
    }

    /// A pool to read from, filled by the specification.
    #[derive(Clone)]
    pub struct SpecPool {
        pub at: HashMap<Konst, u16>,
        pub entries: HashMap<u16, RawConstantEntry>,
        pub next: u32,
        pub bsms: Vec<Bsm>,
        pub catches: Vec<Catch>,
        /// Bootstrap methods are given to their users only when `bootstrap_methods` is called.
        pub later: Vec<(u16, Arc<OnceCell<BootstrapMethod>>)>,
    }
    impl SpecPool {
        pub fn new(next: u16) -> Self {
            SpecPool { at: HashMap::new(), entries: HashMap::new(), next: next as u32, bsms: vec![], catches: vec![], later: vec![] }
        }
        fn alloc(&mut self, v: RawConstantEntry) -> u16 {
            let i = self.next;
            assert!(i < 65535, "the check's pool is full");
            self.next += if matches!(v, RawConstantEntry::Long(_) | RawConstantEntry::Double(_)) { 2 } else { 1 };
            self.entries.insert(i as u16, v);
            i as u16
        }
        pub fn add_bsm(&mut self, b: &Bsm) -> u16 {
            if let Some(i) = self.bsms.iter().position(|x| x == b) {
                return i as u16;
            }
            self.bsms.push(b.clone());
            self.bsms.len() as u16 - 1
        }
        pub fn add(&mut self, k: &Konst) -> u16 {
            use RawConstantEntry as R;
            if let Some(i) = self.at.get(k) {
                return *i;
            }
            let mut u = |s: &mut Self, b: &Bs| s.add(&Konst::Utf8(b.clone()));
            let r = match k {
                Konst::Utf8(b) => R::WTF8(cow(b)),
                Konst::Int(i) => R::Int(*i),
                Konst::Float(b) => R::Float(TotalF32(f32::from_bits(*b))),
                Konst::Long(i) => R::Long(*i),
                Konst::Double(b) => R::Double(TotalF64(f64::from_bits(*b))),
                Konst::Class(b) => R::Class(u(self, b)),
                Konst::Str(b) => R::String(u(self, b)),
                Konst::Module(b) => R::Module(u(self, b)),
                Konst::Package(b) => R::Package(u(self, b)),
                Konst::Field(c, n, t) => R::Field(self.add(&Konst::Class(c.clone())), self.add(&Konst::NameType(n.clone(), t.clone()))),
                Konst::Method(c, n, t) => R::Method(self.add(&Konst::Class(c.clone())), self.add(&Konst::NameType(n.clone(), t.clone()))),
                Konst::IMethod(c, n, t) => R::InterfaceMethod(self.add(&Konst::Class(c.clone())), self.add(&Konst::NameType(n.clone(), t.clone()))),
                Konst::NameType(n, t) => R::NameAndType(u(self, n), u(self, t)),
                Konst::Handle(k, m) => R::MethodHandle(*k, self.add(m)),
                Konst::MType(b) => R::MethodType(u(self, b)),
                Konst::Dyn(b, n, t) => R::Dynamic(self.add_bsm(b), self.add(&Konst::NameType(n.clone(), t.clone()))),
                Konst::Indy(b, n, t) => R::InvokeDynamic(self.add_bsm(b), self.add(&Konst::NameType(n.clone(), t.clone()))),
            };
            let i = self.alloc(r);
            self.at.insert(k.clone(), i);
            i
        }
        /// The pool as it stands in a class file. Slots in between are filled with integers.
        pub fn bytes(&self) -> Bs {
            let mut o = vec![];
            o.extend_from_slice(&(self.next as u16).to_be_bytes());
            let mut i = 1u16;
            while (i as u32) < self.next {
                match self.entries.get(&i) {
                    Some(e) => {
                        entry_bytes(e, &mut o);
                        i += if matches!(e, RawConstantEntry::Long(_) | RawConstantEntry::Double(_)) { 2 } else { 1 };
                    }
                    None => {
                        o.extend_from_slice(&[3, 0, 0, 0, 0]);
                        i += 1;
                    }
                }
            }
            o
        }
    }
    /// JVMS 4.4.
    pub fn entry_bytes(e: &RawConstantEntry, o: &mut Bs) {
        use RawConstantEntry as R;
        let mut w = |tag: u8, parts: &[&[u8]]| {
            o.push(tag);
            for p in parts {
                o.extend_from_slice(p)
            }
        };
        match e {
            R::WTF8(s) => {
                let m = mutf8(&units_of_wtf8(s.as_bytes()).unwrap());
                w(1, &[&(m.len() as u16).to_be_bytes(), &m])
            }
            R::Int(i) => w(3, &[&i.to_be_bytes()]),
            R::Float(f) => w(4, &[&f.0.to_bits().to_be_bytes()]),
            R::Long(i) => w(5, &[&i.to_be_bytes()]),
            R::Double(f) => w(6, &[&f.0.to_bits().to_be_bytes()]),
            R::Class(a) => w(7, &[&a.to_be_bytes()]),
            R::String(a) => w(8, &[&a.to_be_bytes()]),
            R::Field(a, b) => w(9, &[&a.to_be_bytes(), &b.to_be_bytes()]),
            R::Method(a, b) => w(10, &[&a.to_be_bytes(), &b.to_be_bytes()]),
            R::InterfaceMethod(a, b) => w(11, &[&a.to_be_bytes(), &b.to_be_bytes()]),
            R::NameAndType(a, b) => w(12, &[&a.to_be_bytes(), &b.to_be_bytes()]),
            R::MethodHandle(k, b) => w(15, &[&[*k], &b.to_be_bytes()]),
            R::MethodType(a) => w(16, &[&a.to_be_bytes()]),
            R::Dynamic(a, b) => w(17, &[&a.to_be_bytes(), &b.to_be_bytes()]),
            R::InvokeDynamic(a, b) => w(18, &[&a.to_be_bytes(), &b.to_be_bytes()]),
            R::Module(a) => w(19, &[&a.to_be_bytes()]),
            R::Package(a) => w(20, &[&a.to_be_bytes()]),
        }
    }
    impl ConstantPoolReader for SpecPool {
        fn read_raw(&mut self, i: u16) -> Option<RawConstantEntry> {
            self.entries.get(&i).cloned()
        }
        fn resolve_later(&mut self, i: u16, cell: Arc<OnceCell<BootstrapMethod>>) {
            if let Some(b) = self.bsms.get(i as usize).and_then(bsm_k) {
                let _ = cell.set(b);
            }
        }
        fn bootstrap_methods(&mut self, _: &[BootstrapMethod]) -> coffer::Result<()> {
            Ok(())
        }
        fn get_label(&mut self, i: u32) -> Label {
            Label(i)
        }
        fn get_catch(&mut self, i: u16) -> Option<Catch> {
            self.catches.get(i as usize).cloned()
        }
    }
    impl Lookup for SpecPool {
        fn entry(&self, i: u16) -> Option<&RawConstantEntry> {
            self.entries.get(&i)
        }
        fn bsm(&self, i: u16) -> Option<Bsm> {
            self.bsms.get(i as usize).cloned()
        }
    }

    // ---- token streams: what is written, with pool references resolved

    #[derive(Clone, Debug, PartialEq)]
    pub enum Tok {
        B(Bs),
        /// A two-byte index of this constant.
        K(Konst),
        /// These groups in any order.
        Any(Vec<Toks>),
        /// The length in four bytes of what follows, and that.
        Len(Toks),
        /// The length in four bytes of a Code attribute's body, and that.
        Code(Box<Code>),
    }
    #[derive(Clone, Debug, Default, PartialEq)]
    pub struct Toks(pub Vec<Tok>);
    impl Toks {
        pub fn new() -> Self {
            Toks(vec![])
        }
        pub fn b(mut self, b: &[u8]) -> Self {
            if let Some(Tok::B(x)) = self.0.last_mut() {
                x.extend_from_slice(b);
            } else {
                self.0.push(Tok::B(b.to_vec()));
            }
            self
        }
        pub fn u8(self, x: u8) -> Self {
            self.b(&[x])
        }
        pub fn u16(self, x: u16) -> Self {
            self.b(&x.to_be_bytes())
        }
        pub fn u32(self, x: u32) -> Self {
            self.b(&x.to_be_bytes())
        }
        pub fn k(mut self, k: Konst) -> Self {
            self.0.push(Tok::K(k));
            self
        }
        pub fn utf(self, s: &Wtf8Str) -> Self {
            self.k(k_utf(s))
        }
        pub fn class(self, s: &Wtf8Str) -> Self {
            self.k(Konst::Class(s.as_bytes().to_vec()))
        }
        pub fn opt(self, s: Option<Konst>) -> Self {
            match s {
                Some(k) => self.k(k),
                None => self.u16(0),
            }
        }
        pub fn then(mut self, t: Toks) -> Self {
            for x in t.0 {
                match x {
                    Tok::B(b) => self = self.b(&b),
                    x => self.0.push(x),
                }
            }
            self
        }
        pub fn any(mut self, v: Vec<Toks>) -> Self {
            self.0.push(Tok::Any(v));
            self
        }
        pub fn len(mut self, t: Toks) -> Self {
            self.0.push(Tok::Len(t));
            self
        }
        pub fn code(mut self, c: Code) -> Self {
            self.0.push(Tok::Code(Box::new(c)));
            self
        }
        pub fn vec16(mut self, v: Vec<Toks>) -> Self {
            self = self.u16(v.len() as u16);
            for t in v {
                self = self.then(t)
            }
            self
        }
        pub fn vec8(mut self, v: Vec<Toks>) -> Self {
            self = self.u8(v.len() as u8);
            for t in v {
                self = self.then(t)
            }
            self
        }
        pub fn attr(self, name: &str, body: Toks) -> Self {
            self.k(Konst::Utf8(name.as_bytes().to_vec())).len(body)
        }
        /// Builds the bytes, with a pool.
        fn constants(&self, o: &mut Vec<Konst>) {
            for t in &self.0 {
                match t {
                    Tok::K(k) => o.push(k.clone()),
                    Tok::Any(v) => v.iter().for_each(|t| t.constants(o)),
                    Tok::Len(t) => t.constants(o),
                    Tok::B(_) | Tok::Code(_) => {}
                }
            }
        }
        pub fn build(&self, p: &mut SpecPool, o: &mut Bs) {
            for t in &self.0 {
                match t {
                    Tok::B(b) => o.extend_from_slice(b),
                    Tok::K(k) => {
                        let i = p.add(k);
                        o.extend_from_slice(&i.to_be_bytes())
                    }
                    Tok::Any(v) => v.iter().for_each(|t| t.build(p, o)),
                    Tok::Code(c) => {
                        let i = crate::classfile::build_code(c, p, o.len() as u64);
                        o.extend_from_slice(&(i.len() as u32).to_be_bytes());
                        o.extend_from_slice(&i);
                    }
                    Tok::Len(t) => {
                        let mut i = vec![];
                        t.build(p, &mut i);
                        o.extend_from_slice(&(i.len() as u32).to_be_bytes());
                        o.extend_from_slice(&i);
                    }
                }
            }
        }
        /// Checks that bytes start with these tokens. Gives how many bytes they take.
        pub fn matches(&self, b: &[u8], p: &dyn Lookup) -> Result<usize, String> {
            let mut n = 0;
            for t in &self.0 {
                match t {
                    Tok::B(w) => {
                        if b.len() < n + w.len() || b[n..n + w.len()] != w[..] {
                            return Err(format!("at byte {n}: expected {w:02x?}, found {:02x?}", &b[n.min(b.len())..(n + w.len()).min(b.len())]));
                        }
                        n += w.len();
                    }
                    Tok::K(k) => {
                        if b.len() < n + 2 {
                            return Err(format!("at byte {n}: expected an index of {k:?}, found the end"));
                        }
                        let i = u16::from_be_bytes([b[n], b[n + 1]]);
                        let f = p.konst(i);
                        if f.as_ref() != Some(k) {
                            return Err(format!("at byte {n}: expected an index of {k:?}, found {i}, which is {f:?}"));
                        }
                        n += 2;
                    }
                    Tok::Any(v) => {
                        let mut left: Vec<&Toks> = v.iter().collect();
                        while !left.is_empty() {
                            let mut err = String::new();
                            let hit = left.iter().enumerate().find_map(|(i, t)| match t.matches(&b[n..], p) {
                                Ok(k) => Some((i, k)),
                                Err(e) => {
                                    err = e;
                                    None
                                }
                            });
                            match hit {
                                Some((i, k)) => {
                                    left.remove(i);
                                    n += k;
                                }
                                None => return Err(format!("at byte {n}: {} unordered groups left, none fits: {err}", left.len())),
                            }
                        }
                    }
                    Tok::Code(c) => {
                        if b.len() < n + 4 {
                            return Err(format!("at byte {n}: no length"));
                        }
                        let l = u32::from_be_bytes(b[n..n + 4].try_into().unwrap()) as usize;
                        n += 4;
                        if b.len() < n + l {
                            return Err(format!("at byte {n}: length {l} reaches past the end"));
                        }
                        crate::bytecode::check_code(c, &b[n..n + l], p).map_err(|e| format!("in the code at {n}: {e}"))?;
                        n += l;
                    }
                    Tok::Len(t) => {
                        if b.len() < n + 4 {
                            return Err(format!("at byte {n}: no length"));
                        }
                        let l = u32::from_be_bytes(b[n..n + 4].try_into().unwrap()) as usize;
                        n += 4;
                        if b.len() < n + l {
                            return Err(format!("at byte {n}: length {l} reaches past the end"));
                        }
                        let k = t.matches(&b[n..n + l], p).map_err(|e| format!("in the body at {n}: {e}"))?;
                        if k != l {
                            return Err(format!("at byte {n}: declared length {l}, but the body has {k} bytes"));
                        }
                        n += l;
                    }
                }
            }
            Ok(n)
        }
        pub fn matches_all(&self, b: &[u8], p: &dyn Lookup) -> Result<(), String> {
            let n = self.matches(b, p)?;
            if n == b.len() {
                Ok(())
            } else {
                Err(format!("{} bytes too many: {:02x?}", b.len() - n, &b[n..b.len().min(n + 40)]))
            }
        }
    }

    /// Contract of a type that is read and written with a pool: writing gives exactly the
    /// specified tokens, reading them gives the value back and consumes exactly them,
    /// and every shorter input is an error.
    pub fn roundtrip<T: ConstantPoolReadWrite + PartialEq + std::fmt::Debug>(v: &T, spec: &Toks, start: u16, catches: &[Catch]) {
        let mut p = RecPool::new(start);
        p.catches = catches.to_vec();
        let mut out = vec![];
        v.write_to(&mut p, &mut out).expect("writing failed");
        if let Err(e) = spec.matches_all(&out, &p) {
            panic!("written form of {v:?}: {e}");
        }
        let mut sp = SpecPool::new(if start == 1 { 1 } else { start.wrapping_add(7).max(1) });
        sp.catches = catches.to_vec();
        // a pool from its first index on, sometimes with the last constants first
        if start == 1 && out.len() % 2 == 1 {
            let mut k = vec![];
            spec.constants(&mut k);
            k.iter().rev().for_each(|k| {
                sp.add(k);
            });
        }
        let mut b = vec![];
        spec.build(&mut sp, &mut b);
        let n = b.len();
        b.extend_from_slice(&[0xAA, 0xBB, 0xCC]);
        let mut rd = crate::core::Rd::new(&b);
        let r = T::read_from(&mut sp.clone(), &mut rd).unwrap_or_else(|e| panic!("reading {v:?} failed: {e}"));
        assert!(r == *v, "wrote {v:?}, read {r:?}");
        assert_eq!(rd.n, n, "bytes consumed reading {v:?}");
        // every shorter input is an error
        let step = (n / 24).max(1);
        for k in (0..n).step_by(step) {
            let r = T::read_from(&mut sp.clone(), &mut crate::core::Rd::new(&b[..k]));
            assert!(r.is_err(), "reading only {k} of {n} bytes of {v:?} gave {r:?}");
        }
    }
}
