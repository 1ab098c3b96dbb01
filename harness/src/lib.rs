#![allow(clippy::all)]
pub mod sx;
#[allow(dead_code)]
pub mod util;
#[allow(dead_code)]
pub mod files;
#[allow(dead_code)]
pub mod aio;
#[cfg(any(feature = "c16", feature = "c28"))]
#[allow(dead_code)]
pub mod work;

macro_rules! mods {
    ($($m:ident $f:literal),* $(,)?) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        pub fn lookup(n: &str) -> Option<extern "C" fn()> {
            #[allow(unused_mut)]
            let mut all: Vec<(&str, extern "C" fn())> = vec![];
            $(#[cfg(feature = $f)] all.extend_from_slice($m::TABLE);)*
            all.iter().find(|x| x.0 == n).map(|x| x.1)
        }
    };
}
mods!(c34 "c34", c17 "c17", c18 "c18", c16 "c16", c28 "c28", c27 "c27", c23 "c23", c38 "c38", c37 "c37", c32 "c32", c15 "c15", c14 "c14", c01 "c01", c02 "c02", c03 "c03", c04 "c04", c05 "c05", c06 "c06", c07 "c07", c08 "c08", c09 "c09", c10 "c10", c11 "c11", c12 "c12", c13 "c13",
    c33 "c33", c35 "c35", c36 "c36", c31 "c31", c29 "c29", c30 "c30", c24 "c24", c25 "c25", c26 "c26", c19 "c19", c20 "c20", c21 "c21");
