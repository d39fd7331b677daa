//! Harnesses: each entry runs whasm on symbolic bytes and compares with the reference model.
#![allow(clippy::all)]
#![allow(dead_code)]

pub mod flat;
pub mod prim;
pub mod rt;
pub mod spec;
pub mod tr;
pub mod whole;

pub type Entry = extern "C" fn(u64, u64, u64, u64);

/// Declares entries `name(a, b, ..)` taking up to four integer parameters.
macro_rules! entries {
    ($($(#[$m:meta])* fn $name:ident($($a:ident),*) $body:block)*) => {
        $(
            $(#[$m])*
            #[no_mangle]
            #[allow(unused_variables)]
            pub extern "C" fn $name(a0: u64, a1: u64, a2: u64, a3: u64) {
                let args = [a0, a1, a2, a3];
                let mut _k = 0;
                $(let $a = args[_k]; _k += 1;)*
                let _ = (&args, _k);
                $body
            }
        )*
        #[cfg(feature = "native")]
        pub const TABLE: &[(&str, crate::Entry)] = &[$((stringify!($name), $name as crate::Entry)),*];
    };
}

macro_rules! groups {
    ($($m:ident $f:literal),* $(,)?) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        #[cfg(feature = "native")]
        pub fn find(name: &str) -> Option<Entry> {
            $(
                #[cfg(feature = $f)]
                for (n, e) in $m::TABLE {
                    if *n == name {
                        return Some(*e);
                    }
                }
            )*
            None
        }
    };
}

groups! {
    c01 "c01",
    c02 "c02",
    c03 "c03",
    c04 "c04",
    c05 "c05",
    c06 "c06",
    c07 "c07",
    c08 "c08",
    c09 "c09",
    c10 "c10",
    c11 "c11",
    c12 "c12",
    c13 "c13",
    c14 "c14",
    c15 "c15",
    c16 "c16",
    c17 "c17",
    c18 "c18",
    c19 "c19",
    c20 "c20",
    c21 "c21",
    c22 "c22",
    c23 "c23",
    st "st",
}
