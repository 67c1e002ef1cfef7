//! The class file, written from JVMS chapter 4. Nothing in here calls coffer's readers or writers,
//! except for method parameters, whose content cannot be reached otherwise.
use crate::bytecode::*;
use crate::core::*;
use crate::spec::*;
use coffer::annotation::*;
use coffer::clazz::Class;
use coffer::prelude::*;
use std::collections::HashMap;
use wtf_8::Wtf8Str;

fn cl(s: &Wtf8Str) -> Toks {
    Toks::new().class(s)
}
fn modu(s: &Wtf8Str) -> Toks {
    Toks::new().k(Konst::Module(s.as_bytes().to_vec()))
}
fn pack(s: &Wtf8Str) -> Toks {
    Toks::new().k(Konst::Package(s.as_bytes().to_vec()))
}
fn text(s: String) -> Toks {
    Toks::new().k(Konst::Utf8(s.into_bytes()))
}
fn annots(v: &[Annotation]) -> Toks {
    Toks::new().vec16(v.iter().map(t_annotation).collect())
}
pub fn t_field_annot(a: &FieldTypeAnnotation) -> Toks {
    Toks::new().u8(0x13).then(t_path(&a.type_path)).then(t_elements(&a.annotation_type, &a.element_values))
}
pub fn t_method_annot(a: &MethodTypeAnnotation) -> Toks {
    t_method_target(&a.target).then(t_path(&a.type_path)).then(t_elements(&a.annotation_type, &a.element_values))
}
pub fn t_class_annot(a: &ClassTypeAnnotation) -> Toks {
    t_class_target(&a.target).then(t_path(&a.type_path)).then(t_elements(&a.annotation_type, &a.element_values))
}
fn raw(r: &RawAttribute) -> Toks {
    Toks::new().utf(&r.name).len(Toks::new().b(&r.inner))
}
pub fn t_field_attr(a: &FieldAttribute) -> Toks {
    use FieldAttribute as A;
    let t = Toks::new();
    match a {
        A::Deprecated => t.attr("Deprecated", Toks::new()),
        A::Synthetic => t.attr("Synthetic", Toks::new()),
        A::Signature(s) => t.attr("Signature", Toks::new().k(Konst::Utf8(crate::gen::sig_text_field(s)))),
        A::ConstantValue(c) => t.attr("ConstantValue", Toks::new().k(k_const(c))),
        A::RuntimeVisibleAnnotations(v) => t.attr("RuntimeVisibleAnnotations", annots(v)),
        A::RuntimeInvisibleAnnotations(v) => t.attr("RuntimeInvisibleAnnotations", annots(v)),
        A::RuntimeVisibleTypeAnnotations(v) => t.attr("RuntimeVisibleTypeAnnotations", Toks::new().vec16(v.iter().map(t_field_annot).collect())),
        A::RuntimeInvisibleTypeAnnotations(v) => t.attr("RuntimeInvisibleTypeAnnotations", Toks::new().vec16(v.iter().map(t_field_annot).collect())),
        A::Raw(r) => raw(r),
    }
}
/// What a method parameter says, as its own writer has it.
pub fn param_of(p: &MethodParameter) -> (Option<Bs>, u16) {
    let mut pool = RecPool::new(1);
    let mut o = vec![];
    <MethodParameter as ConstantPoolReadWrite>::write_to(p, &mut pool, &mut o).expect("a method parameter is written");
    assert_eq!(o.len(), 4, "a method parameter takes four bytes");
    let i = u16::from_be_bytes([o[0], o[1]]);
    let n = if i == 0 { None } else { Some(pool.utf(i).expect("the name of a method parameter is text")) };
    (n, u16::from_be_bytes([o[2], o[3]]))
}
pub fn t_method_attr(a: &MethodAttribute) -> Toks {
    use MethodAttribute as A;
    let t = Toks::new();
    let params = |v: &[ParameterAnnotations]| Toks::new().vec8(v.iter().map(|p| annots(p)).collect());
    match a {
        A::Code(c) => t.utf(Wtf8Str::new("Code")).code(c.clone()),
        A::Deprecated => t.attr("Deprecated", Toks::new()),
        A::Synthetic => t.attr("Synthetic", Toks::new()),
        A::Signature(s) => t.attr("Signature", text(crate::gen::s_method_signature(s))),
        A::RuntimeVisibleAnnotations(v) => t.attr("RuntimeVisibleAnnotations", annots(v)),
        A::RuntimeInvisibleAnnotations(v) => t.attr("RuntimeInvisibleAnnotations", annots(v)),
        A::RuntimeVisibleTypeAnnotations(v) => t.attr("RuntimeVisibleTypeAnnotations", Toks::new().vec16(v.iter().map(t_method_annot).collect())),
        A::RuntimeInvisibleTypeAnnotations(v) => t.attr("RuntimeInvisibleTypeAnnotations", Toks::new().vec16(v.iter().map(t_method_annot).collect())),
        A::RuntimeVisibleParameterAnnotations(v) => t.attr("RuntimeVisibleParameterAnnotations", params(v)),
        A::RuntimeInvisibleParameterAnnotations(v) => t.attr("RuntimeInvisibleParameterAnnotations", params(v)),
        A::Exceptions(v) => t.attr("Exceptions", Toks::new().vec16(v.iter().map(|s| cl(s)).collect())),
        A::AnnotationDefault(v) => t.attr("AnnotationDefault", t_value(v)),
        A::MethodParameters(v) => t.attr(
            "MethodParameters",
            Toks::new().vec8(
                v.iter()
                    .map(|p| {
                        let (n, f) = param_of(p);
                        Toks::new().opt(n.map(Konst::Utf8)).u16(f)
                    })
                    .collect(),
            ),
        ),
        A::Raw(r) => raw(r),
    }
}
pub fn t_module(m: &Module) -> Toks {
    let to = |v: &[Cow<'static, Wtf8Str>]| Toks::new().vec16(v.iter().map(|s| modu(s)).collect());
    modu(&m.name)
        .u16(m.flags.bits())
        .opt(m.version.as_deref().map(k_utf))
        .vec16(m.requires.iter().map(|q| modu(&q.module).u16(q.flags.bits()).opt(q.version.as_deref().map(k_utf))).collect())
        .vec16(m.exports.iter().map(|q| pack(&q.package).u16(q.flags.bits()).then(to(&q.to))).collect())
        .vec16(m.opens.iter().map(|q| pack(&q.package).u16(q.flags.bits()).then(to(&q.to))).collect())
        .vec16(m.uses.iter().map(|s| cl(s)).collect())
        .vec16(m.provides.iter().map(|q| cl(&q.class).vec16(q.with.iter().map(|s| cl(s)).collect())).collect())
}
pub fn t_bsm(b: &Bsm) -> Toks {
    Toks::new().k(b.handle.clone()).vec16(b.args.iter().map(|a| Toks::new().k(a.clone())).collect())
}
pub fn t_class_attr(a: &ClassAttribute) -> Toks {
    use ClassAttribute as A;
    let t = Toks::new();
    match a {
        A::Signature(s) => t.attr("Signature", text(crate::gen::s_class_signature(s))),
        A::Synthetic => t.attr("Synthetic", Toks::new()),
        A::Deprecated => t.attr("Deprecated", Toks::new()),
        A::SourceFile(s) => t.attr("SourceFile", Toks::new().utf(s)),
        A::InnerClasses(v) => t.attr(
            "InnerClasses",
            Toks::new().vec16(
                v.iter()
                    .map(|i| {
                        cl(&i.inner_fqname)
                            .opt(i.outer_fqname.as_ref().map(|s| Konst::Class(s.as_bytes().to_vec())))
                            .opt(i.inner_name.as_deref().map(k_utf))
                            .u16(i.inner_access.bits())
                    })
                    .collect(),
            ),
        ),
        A::EnclosingMethod(c, m) => t.attr("EnclosingMethod", cl(c).opt(m.as_ref().map(|(n, t)| Konst::NameType(n.as_bytes().to_vec(), descs(t))))),
        A::SourceDebugExtension(s) => t.attr("SourceDebugExtension", Toks::new().b(&mutf8(&units_of_wtf8(s.0.as_bytes()).unwrap()))),
        A::BootstrapMethods(v) => t.attr("BootstrapMethods", Toks::new().vec16(v.iter().map(|b| t_bsm(&k_bsm(b))).collect())),
        A::Module(m) => t.attr("Module", t_module(m)),
        A::ModulePackages(v) => t.attr("ModulePackages", Toks::new().vec16(v.iter().map(|s| pack(s)).collect())),
        A::ModuleMainClass(s) => t.attr("ModuleMainClass", cl(s)),
        A::NestHost(s) => t.attr("NestHost", cl(s)),
        A::NestMembers(v) => t.attr("NestMembers", Toks::new().vec16(v.iter().map(|s| cl(s)).collect())),
        A::RuntimeVisibleAnnotations(v) => t.attr("RuntimeVisibleAnnotations", annots(v)),
        A::RuntimeInvisibleAnnotations(v) => t.attr("RuntimeInvisibleAnnotations", annots(v)),
        A::RuntimeVisibleTypeAnnotations(v) => t.attr("RuntimeVisibleTypeAnnotations", Toks::new().vec16(v.iter().map(t_class_annot).collect())),
        A::RuntimeInvisibleTypeAnnotations(v) => t.attr("RuntimeInvisibleTypeAnnotations", Toks::new().vec16(v.iter().map(t_class_annot).collect())),
        A::Raw(r) => raw(r),
    }
}
pub fn t_field(f: &Field) -> Toks {
    Toks::new().u16(f.access.bits()).utf(&f.name).k(Konst::Utf8(descs(&f.descriptor))).vec16(f.attrs.iter().map(t_field_attr).collect())
}
pub fn t_method(f: &Method) -> Toks {
    Toks::new().u16(f.access.bits()).utf(&f.name).k(Konst::Utf8(descs(&f.descriptor))).vec16(f.attributes.iter().map(t_method_attr).collect())
}
/// All up to the attributes.
pub fn t_class_head(c: &Class) -> Toks {
    cl_head(c)
        .vec16(c.interfaces.iter().map(|s| cl(s)).collect())
        .vec16(c.fields.iter().map(t_field).collect())
        .vec16(c.methods.iter().map(t_method).collect())
}
fn cl_head(c: &Class) -> Toks {
    Toks::new().u16(c.access.bits()).class(&c.name).opt(c.super_name.as_ref().map(|s| Konst::Class(s.as_bytes().to_vec())))
}

// ---- reading

/// A pool as it stands in a file.
#[derive(Default)]
pub struct FilePool {
    pub count: u16,
    pub entries: HashMap<u16, RawConstantEntry>,
    /// The bodies of the bootstrap methods: handle, arguments.
    pub bsms: Vec<(u16, Vec<u16>)>,
}
/// JVMS 4.4 and 4.1: gives the pool and what it takes.
pub fn parse_pool(b: &[u8]) -> Option<(FilePool, usize)> {
    use RawConstantEntry as R;
    let mut c = Cur(b, 0);
    let mut p = FilePool { count: c.u16()?, ..Default::default() };
    let mut i = 1u32;
    while i < p.count as u32 {
        let e = match c.u8()? {
            1 => {
                let n = c.u16()?;
                R::WTF8(cow(&wtf8_of_units(&mutf8_dec(c.take(n as usize)?)?)))
            }
            3 => R::Int(c.u32()? as i32),
            4 => R::Float(f32::from_bits(c.u32()?).into()),
            t @ (5 | 6) => {
                let x = (c.u32()? as u64) << 32 | c.u32()? as u64;
                if t == 5 {
                    R::Long(x as i64)
                } else {
                    R::Double(f64::from_bits(x).into())
                }
            }
            7 => R::Class(c.u16()?),
            8 => R::String(c.u16()?),
            9 => R::Field(c.u16()?, c.u16()?),
            10 => R::Method(c.u16()?, c.u16()?),
            11 => R::InterfaceMethod(c.u16()?, c.u16()?),
            12 => R::NameAndType(c.u16()?, c.u16()?),
            15 => R::MethodHandle(c.u8()?, c.u16()?),
            16 => R::MethodType(c.u16()?),
            17 => R::Dynamic(c.u16()?, c.u16()?),
            18 => R::InvokeDynamic(c.u16()?, c.u16()?),
            19 => R::Module(c.u16()?),
            20 => R::Package(c.u16()?),
            _ => return None,
        };
        let wide = matches!(e, R::Long(_) | R::Double(_));
        p.entries.insert(i as u16, e);
        i += 1 + wide as u32;
    }
    if i > p.count as u32 && p.count > 0 {
        return None;
    }
    Some((p, c.1))
}
thread_local! { static DEPTH: std::cell::Cell<usize> = std::cell::Cell::new(0); }
impl Lookup for FilePool {
    fn entry(&self, i: u16) -> Option<&RawConstantEntry> {
        self.entries.get(&i)
    }
    fn bsm(&self, i: u16) -> Option<Bsm> {
        let d = DEPTH.with(|d| d.replace(d.get() + 1));
        let r = (|| {
            if d > 40 {
                return None;
            }
            let (h, a) = self.bsms.get(i as usize)?;
            Some(Bsm { handle: self.konst(*h)?, args: a.iter().map(|i| self.konst(*i)).collect::<Option<_>>()? })
        })();
        DEPTH.with(|x| x.set(d));
        r
    }
}
fn skip_attrs(c: &mut Cur) -> Option<()> {
    for _ in 0..c.u16()? {
        c.u16()?;
        let n = c.u32()?;
        c.take(n as usize)?;
    }
    Some(())
}
pub struct File<'a> {
    pub minor: u16,
    pub major: u16,
    pub pool: FilePool,
    /// From the access flags to the attributes.
    pub head: &'a [u8],
    /// Name and body, and the bytes of the whole attribute.
    pub attrs: Vec<(RawAttr, &'a [u8])>,
}
/// The whole input must be a class file.
pub fn parse_file(b: &[u8]) -> Option<File> {
    let mut c = Cur(b, 0);
    if c.u32()? != 0xCAFE_BABE {
        return None;
    }
    let (minor, major) = (c.u16()?, c.u16()?);
    let (mut pool, n) = parse_pool(&b[8..])?;
    c.1 += n;
    let start = c.1;
    c.take(6)?;
    let n = c.u16()?;
    c.take(2 * n as usize)?;
    for _ in 0..2 {
        for _ in 0..c.u16()? {
            c.take(6)?;
            skip_attrs(&mut c)?;
        }
    }
    let head = &b[start..c.1];
    let n = c.u16()?;
    let mut attrs = vec![];
    for _ in 0..n {
        let s = c.1;
        let name = pool.utf(c.u16()?)?;
        let l = c.u32()?;
        let body = c.take(l as usize)?.to_vec();
        attrs.push((RawAttr { name, body }, &b[s..c.1]));
    }
    if c.1 != b.len() {
        return None;
    }
    if let Some((a, _)) = attrs.iter().find(|a| a.0.name == b"BootstrapMethods") {
        let mut c = Cur(&a.body, 0);
        for _ in 0..c.u16()? {
            let h = c.u16()?;
            let n = c.u16()?;
            pool.bsms.push((h, (0..n).map(|_| c.u16()).collect::<Option<_>>()?));
        }
        if c.1 != a.body.len() {
            return None;
        }
    }
    Some(File { minor, major, pool, head, attrs })
}
fn no_of(v: &JavaVersion) -> u16 {
    v.major as u16
}
/// Decides whether a file means this class. `written`: the bootstrap methods of the class are
/// only the start of those in the file, which stand at the end.
pub fn check_file(c: &Class, b: &[u8], written: bool) -> Result<(), String> {
    let f = parse_file(b).ok_or("this is not a class file")?;
    if (f.minor, f.major) != (c.version.minor, no_of(&c.version)) {
        return Err(format!("version {}.{}", f.major, f.minor));
    }
    for (i, e) in &f.pool.entries {
        let dangling = |j: &u16| !f.pool.entries.contains_key(j);
        use RawConstantEntry as R;
        let bad = match e {
            R::Class(a) | R::String(a) | R::MethodType(a) | R::Module(a) | R::Package(a) | R::MethodHandle(_, a) => dangling(a),
            R::Field(a, b) | R::Method(a, b) | R::InterfaceMethod(a, b) | R::NameAndType(a, b) => dangling(a) || dangling(b),
            R::Dynamic(s, b) | R::InvokeDynamic(s, b) => dangling(b) || *s as usize >= f.pool.bsms.len(),
            _ => false,
        };
        if written && bad {
            return Err(format!("entry {i} ({e:?}) of the pool refers to nothing"));
        }
    }
    t_class_head(c).matches_all(f.head, &f.pool)?;
    let is_bsm = |a: &ClassAttribute| matches!(a, ClassAttribute::BootstrapMethods(_));
    let nb = f.attrs.iter().filter(|a| a.0.name == b"BootstrapMethods").count();
    if written {
        let given: Vec<Bsm> = c.attributes.iter().filter_map(|a| if let ClassAttribute::BootstrapMethods(v) = a { Some(v) } else { None }).flatten().map(k_bsm).collect();
        let found: Vec<Option<Bsm>> = (0..f.pool.bsms.len()).map(|i| f.pool.bsm(i as u16)).collect();
        if nb > 1 || (nb == 1 && f.attrs.last().unwrap().0.name != b"BootstrapMethods") {
            return Err("more than one table of bootstrap methods, or not at the end".into());
        }
        if nb == 0 && c.attributes.iter().any(is_bsm) {
            return Err("the table of bootstrap methods is missing".into());
        }
        if found.iter().any(|x| x.is_none()) {
            return Err("a bootstrap method does not resolve".into());
        }
        if found.len() < given.len() || given.iter().zip(&found).any(|(a, b)| Some(a) != b.as_ref()) {
            return Err(format!("bootstrap methods {found:?} do not start with {given:?}"));
        }
    }
    let mut it = f.attrs.iter().filter(|a| !written || a.0.name != b"BootstrapMethods");
    for a in c.attributes.iter().filter(|a| !written || !is_bsm(a)) {
        let (_, whole) = it.next().ok_or_else(|| format!("{a:?} is missing"))?;
        t_class_attr(a).matches_all(whole, &f.pool).map_err(|e| format!("{a:?}: {e}"))?;
    }
    if let Some(a) = it.next() {
        return Err(format!("attribute {:?} too many", String::from_utf8_lossy(&a.0.name)));
    }
    Ok(())
}
/// A class file for this class, as the specification builds one. The pool starts with fillers.
/// `opts`: the first slot, which attribute place the bootstrap methods take.
pub fn build_file(c: &Class, start: u16, bsm_at: usize) -> Bs {
    let mut p = SpecPool::new(start);
    let mut head = vec![];
    t_class_head(c).build(&mut p, &mut head);
    for a in &c.attributes {
        if let ClassAttribute::BootstrapMethods(v) = a {
            for b in v {
                p.add_bsm(&k_bsm(b));
            }
        }
    }
    let mut attrs: Vec<Bs> = vec![];
    let mut n = 0;
    for a in c.attributes.iter().filter(|a| !matches!(a, ClassAttribute::BootstrapMethods(_))) {
        let mut o = vec![];
        t_class_attr(a).build(&mut p, &mut o);
        attrs.push(o);
    }
    if !p.bsms.is_empty() || c.attributes.iter().any(|a| matches!(a, ClassAttribute::BootstrapMethods(_))) {
        let mut body = vec![];
        let mut i = 0;
        while i < p.bsms.len() {
            let b = p.bsms[i].clone();
            t_bsm(&b).build(&mut p, &mut body);
            i += 1;
        }
        let mut o = vec![];
        let mut t = (i as u16).to_be_bytes().to_vec();
        t.extend_from_slice(&body);
        Toks::new().attr("BootstrapMethods", Toks::new().b(&t)).build(&mut p, &mut o);
        let at = bsm_at.min(attrs.len());
        attrs.insert(at, o);
    }
    let mut o = vec![];
    o.extend_from_slice(&0xCAFE_BABEu32.to_be_bytes());
    o.extend_from_slice(&c.version.minor.to_be_bytes());
    o.extend_from_slice(&no_of(&c.version).to_be_bytes());
    o.extend_from_slice(&p.bytes());
    o.extend_from_slice(&head);
    o.extend_from_slice(&(attrs.len() as u16).to_be_bytes());
    attrs.iter().for_each(|a| o.extend_from_slice(a));
    o
}

// ---- building Code

/// The body of a Code attribute for this code. Jumps must be near. `form` varies the encodings.
pub fn build_code(c: &Code, p: &mut SpecPool, form: u64) -> Bs {
    let mut r = Rng::new(form);
    let mut label: HashMap<Label, u32> = HashMap::new();
    let mut k = 0;
    let mut lines = vec![];
    for i in &c.code {
        match i {
            Instruction::Label(l) => {
                label.insert(*l, k);
            }
            Instruction::LineNumber(n) => lines.push((k as usize, *n)),
            i => k += norm(i, &|_| Some(0)).unwrap().is_some() as u32,
        }
    }
    let asm: Vec<Asm> = c.code.iter().filter_map(|i| norm(i, &|l| label.get(l).copied()).unwrap()).map(|n| Asm { n, form: r.next() as u8 }).collect();
    let (code, pos) = assemble_all(&asm, p);
    let at = |l: &Label| pos[label[l] as usize] as u16;
    let mut t = Toks::new().u16(c.max_stack).u16(c.max_locals).u32(code.len() as u32).b(&code);
    t = t.vec16(
        c.catches
            .iter()
            .map(|c| Toks::new().u16(at(&c.start)).u16(at(&c.end)).u16(at(&c.handler)).opt(c.catch.as_ref().map(|s| Konst::Class(s.as_bytes().to_vec()))))
            .collect(),
    );
    let mut attrs: Vec<Toks> = vec![];
    let mut last: Vec<Toks> = vec![];
    for a in &c.attrs {
        match a {
            CodeAttribute::Raw(r) => attrs.push(raw(r)),
            CodeAttribute::VisibleTypeAnnotations(v) => attrs.push(Toks::new().attr("RuntimeVisibleTypeAnnotations", Toks::new().vec16(v.iter().map(|a| t_code_annot(a, &at, &c.catches)).collect()))),
            CodeAttribute::InvisibleTypeAnnotations(v) => attrs.push(Toks::new().attr("RuntimeInvisibleTypeAnnotations", Toks::new().vec16(v.iter().map(|a| t_code_annot(a, &at, &c.catches)).collect()))),
            CodeAttribute::LocalVariables(v) => {
                let row = |v: &LocalVariable, ty: Bs| Toks::new().u16(at(&v.start)).u16(at(&v.end) - at(&v.start)).utf(&v.name).k(Konst::Utf8(ty)).u16(v.index);
                let d: Vec<Toks> = v.iter().filter_map(|v| v.descriptor.as_ref().map(|d| row(v, descs(d)))).collect();
                let s: Vec<Toks> = v.iter().filter_map(|v| v.signature.as_ref().map(|d| row(v, crate::gen::sig_text_field(d)))).collect();
                if !d.is_empty() {
                    last.push(Toks::new().attr("LocalVariableTable", Toks::new().vec16(d)));
                }
                if !s.is_empty() {
                    last.push(Toks::new().attr("LocalVariableTypeTable", Toks::new().vec16(s)));
                }
            }
        }
    }
    if !lines.is_empty() {
        // in one or two tables, which need not be sorted
        let cut = r.below(lines.len() + 1);
        let mut parts = vec![lines[..cut].to_vec(), lines[cut..].to_vec()];
        if r.chance(1, 2) && !(cut > 0 && cut < lines.len() && lines[cut - 1].0 == lines[cut].0) {
            parts.swap(0, 1);
        }
        for v in parts {
            if !v.is_empty() {
                last.push(Toks::new().attr("LineNumberTable", Toks::new().vec16(v.iter().map(|(k, n)| Toks::new().u16(pos[*k] as u16).u16(*n)).collect())));
            }
        }
        if last.len() > 1 && r.chance(1, 2) {
            // the line number tables keep their order among themselves
            let l = last.len();
            let k = r.below(l);
            let part = last.split_off(k);
            if parts_ok(&part, &last) {
                last = part.into_iter().chain(last).collect();
            } else {
                last.extend(part);
            }
        }
    }
    for a in last {
        let at = if r.chance(1, 2) { attrs.len() } else { r.below(attrs.len() + 1) };
        let at = at.max(attrs.iter().rposition(|x| same_name(x, &a)).map_or(0, |i| i + 1));
        attrs.insert(at, a);
    }
    let mut o = vec![];
    t.vec16(attrs).build(p, &mut o);
    o
}
fn same_name(a: &Toks, b: &Toks) -> bool {
    a.0.first() == b.0.first()
}
fn parts_ok(a: &[Toks], b: &[Toks]) -> bool {
    !a.iter().any(|x| b.iter().any(|y| same_name(x, y)))
}
