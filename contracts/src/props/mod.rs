//! The properties: their harnesses and their bounded stand-ins.
use crate::core::*;

pub struct Prop {
    pub id: &'static str,
    pub harnesses: &'static [Harness],
    #[cfg(not(kani))]
    pub native: fn(&mut crate::native::Cx),
}

macro_rules! props {
    ($($id:literal $m:ident),*) => {
        $(pub mod $m;)*
        pub fn props() -> Vec<Prop> {
            vec![$(Prop { id: $id, harnesses: $m::HARNESSES, #[cfg(not(kani))] native: $m::native }),*]
        }
    };
}
props!("C01" c01, "C02" c02, "C03" c03, "C04" c04, "C05" c05, "C06" c06, "C07" c07, "C08" c08, "C09" c09, "C10" c10, "C11" c11, "C12" c12, "C13" c13, "C14" c14, "C15" c15, "C16" c16, "C17" c17, "C18" c18, "C19" c19, "C20" c20, "C21" c21, "C24" c24, "C22" c22, "C23" c23);
