// C21: module descriptions.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ assume usize has 64 bits
//@ include prw.inc
//@ include list.inc
//@ include cp.inc
//@ include cp_traits.inc
//@ include cprw.inc
//@ include helper_cp.inc
pub mod h { use super::*; pub use super::{Normal, Identity, Vec8, Vec16}; pub type Class = StringCp<7>; pub type String = StringCp<8>; pub type Module = StringCp<19>; pub type Package = StringCp<20>; }
//@ include flags.inc
flags!(RequireFlags);
impl ReadWrite for RequireFlags {
    open spec fn reads(s: Seq<u8>, i: int) -> Option<(Self, int)> { match u16::reads(s, i) { None => None, Some((n, j)) => Some((RequireFlags { bits: n & RequireFlags::mask() }, j)) } }
//@ item @expanded fn read_from in impl ReadWrite for RequireFlags
//@   subst T: Read => R: Read
//@   subst &mut T => &mut R
//@ end
//@ item @expanded fn write_to in impl ReadWrite for RequireFlags
//@   subst T: Write => W: Write
//@   subst &mut T => &mut W
//@ end
}
flags!(ModuleFlags);
impl ReadWrite for ModuleFlags {
    open spec fn reads(s: Seq<u8>, i: int) -> Option<(Self, int)> { match u16::reads(s, i) { None => None, Some((n, j)) => Some((ModuleFlags { bits: n & ModuleFlags::mask() }, j)) } }
//@ item @expanded fn read_from in impl ReadWrite for ModuleFlags
//@   subst T: Read => R: Read
//@   subst &mut T => &mut R
//@ end
//@ item @expanded fn write_to in impl ReadWrite for ModuleFlags
//@   subst T: Write => W: Write
//@   subst &mut T => &mut W
//@ end
}
flags!(ExOpFlags);
impl ReadWrite for ExOpFlags {
    open spec fn reads(s: Seq<u8>, i: int) -> Option<(Self, int)> { match u16::reads(s, i) { None => None, Some((n, j)) => Some((ExOpFlags { bits: n & ExOpFlags::mask() }, j)) } }
//@ item @expanded fn read_from in impl ReadWrite for ExOpFlags
//@   subst T: Read => R: Read
//@   subst &mut T => &mut R
//@ end
//@ item @expanded fn write_to in impl ReadWrite for ExOpFlags
//@   subst T: Write => W: Write
//@   subst &mut T => &mut W
//@ end
}
//@ item src/module.rs struct Require
//@   pub
//@   bare
//@   subst Cow<'static, Wtf8Str> => Str
//@ end
impl ConstantPoolReadWrite for Require {
    open spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(Self, int)> {
        match <h::Module as ConstantPoolReadWriteAs<Str>>::reads(p, s, i) { None => None, Some((module, j0)) => match <h::Normal as ConstantPoolReadWriteAs<RequireFlags>>::reads(p, s, j0) { None => None, Some((flags, j1)) => match <Option<Str> as ConstantPoolReadWrite>::reads(p, s, j1) { None => None, Some((version, j2)) => Some((Require { module, flags, version }, j2)) } } }
    }
    open spec fn good(&self) -> bool { true }
//@ item @expanded fn read_from in impl ConstantPoolReadWrite for Require
//@   derived
//@ end
//@ item @expanded fn write_to in impl ConstantPoolReadWrite for Require
//@   derived
//@ end
}
//@ item src/module.rs struct Export
//@   pub
//@   bare
//@   subst Cow<'static, Wtf8Str> => Str
//@ end
impl ConstantPoolReadWrite for Export {
    open spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(Self, int)> {
        match <h::Package as ConstantPoolReadWriteAs<Str>>::reads(p, s, i) { None => None, Some((package, j0)) => match <h::Normal as ConstantPoolReadWriteAs<ExOpFlags>>::reads(p, s, j0) { None => None, Some((flags, j1)) => match <h::Vec16<h::Module> as ConstantPoolReadWriteAs<Vec<Str>>>::reads(p, s, j1) { None => None, Some((to, j2)) => Some((Export { package, flags, to }, j2)) } } }
    }
    open spec fn good(&self) -> bool { <h::Vec16<h::Module> as ConstantPoolReadWriteAs<Vec<Str>>>::good(self.to) }
//@ item @expanded fn read_from in impl ConstantPoolReadWrite for Export
//@   derived
//@ end
//@ item @expanded fn write_to in impl ConstantPoolReadWrite for Export
//@   derived
//@ end
}
//@ item src/module.rs struct Open
//@   pub
//@   bare
//@   subst Cow<'static, Wtf8Str> => Str
//@ end
impl ConstantPoolReadWrite for Open {
    open spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(Self, int)> {
        match <h::Package as ConstantPoolReadWriteAs<Str>>::reads(p, s, i) { None => None, Some((package, j0)) => match <h::Normal as ConstantPoolReadWriteAs<ExOpFlags>>::reads(p, s, j0) { None => None, Some((flags, j1)) => match <h::Vec16<h::Module> as ConstantPoolReadWriteAs<Vec<Str>>>::reads(p, s, j1) { None => None, Some((to, j2)) => Some((Open { package, flags, to }, j2)) } } }
    }
    open spec fn good(&self) -> bool { <h::Vec16<h::Module> as ConstantPoolReadWriteAs<Vec<Str>>>::good(self.to) }
//@ item @expanded fn read_from in impl ConstantPoolReadWrite for Open
//@   derived
//@ end
//@ item @expanded fn write_to in impl ConstantPoolReadWrite for Open
//@   derived
//@ end
}
//@ item src/module.rs struct Provide
//@   pub
//@   bare
//@   subst Cow<'static, Wtf8Str> => Str
//@ end
impl ConstantPoolReadWrite for Provide {
    open spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(Self, int)> {
        match <h::Class as ConstantPoolReadWriteAs<Str>>::reads(p, s, i) { None => None, Some((class, j0)) => match <h::Vec16<h::Class> as ConstantPoolReadWriteAs<Vec<Str>>>::reads(p, s, j0) { None => None, Some((with, j1)) => Some((Provide { class, with }, j1)) } }
    }
    open spec fn good(&self) -> bool { <h::Vec16<h::Class> as ConstantPoolReadWriteAs<Vec<Str>>>::good(self.with) }
//@ item @expanded fn read_from in impl ConstantPoolReadWrite for Provide
//@   derived
//@ end
//@ item @expanded fn write_to in impl ConstantPoolReadWrite for Provide
//@   derived
//@ end
}
//@ item src/module.rs struct Module
//@   pub
//@   bare
//@   subst Cow<'static, Wtf8Str> => Str
//@ end
impl ConstantPoolReadWrite for Module {
    open spec fn reads(p: Pool, s: Seq<u8>, i: int) -> Option<(Self, int)> {
        match <h::Module as ConstantPoolReadWriteAs<Str>>::reads(p, s, i) { None => None, Some((name, j0)) => match <h::Normal as ConstantPoolReadWriteAs<ModuleFlags>>::reads(p, s, j0) { None => None, Some((flags, j1)) => match <Option<Str> as ConstantPoolReadWrite>::reads(p, s, j1) { None => None, Some((version, j2)) => match <h::Vec16<Identity> as ConstantPoolReadWriteAs<Vec<Require>>>::reads(p, s, j2) { None => None, Some((requires, j3)) => match <h::Vec16<Identity> as ConstantPoolReadWriteAs<Vec<Export>>>::reads(p, s, j3) { None => None, Some((exports, j4)) => match <h::Vec16<Identity> as ConstantPoolReadWriteAs<Vec<Open>>>::reads(p, s, j4) { None => None, Some((opens, j5)) => match <h::Vec16<h::Class> as ConstantPoolReadWriteAs<Vec<Str>>>::reads(p, s, j5) { None => None, Some((uses, j6)) => match <h::Vec16<Identity> as ConstantPoolReadWriteAs<Vec<Provide>>>::reads(p, s, j6) { None => None, Some((provides, j7)) => Some((Module { name, flags, version, requires, exports, opens, uses, provides }, j7)) } } } } } } } }
    }
    open spec fn good(&self) -> bool { <h::Vec16<Identity> as ConstantPoolReadWriteAs<Vec<Require>>>::good(self.requires) && <h::Vec16<Identity> as ConstantPoolReadWriteAs<Vec<Export>>>::good(self.exports) && <h::Vec16<Identity> as ConstantPoolReadWriteAs<Vec<Open>>>::good(self.opens) && <h::Vec16<h::Class> as ConstantPoolReadWriteAs<Vec<Str>>>::good(self.uses) && <h::Vec16<Identity> as ConstantPoolReadWriteAs<Vec<Provide>>>::good(self.provides) }
//@ item @expanded fn read_from in impl ConstantPoolReadWrite for Module
//@   derived
//@ end
//@ item @expanded fn write_to in impl ConstantPoolReadWrite for Module
//@   derived
//@ end
}
fn main() {}
}
