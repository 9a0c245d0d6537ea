use crate::engine::*;
#[path = "../../../mc/src/props/c01.rs"]
pub mod c01;
#[path = "../../../mc/src/props/common.rs"]
#[macro_use]
pub mod common;
mod c21;
#[cfg(not(feature = "std"))]
mod c24;
#[path = "../../../mc/src/props/special.rs"]
pub mod special;
#[path = "../../../mc/src/props/large.rs"]
pub mod large;
macro_rules! more {
    ($cfg:meta: $($m:ident $f:expr),*) => {
        $(#[cfg($cfg)]
        #[path = $f]
        pub mod $m;)*
    };
}
more!(any(feature = "use_sse2", feature = "use_avx2", not(feature = "std")):
    c02 "../../../mc/src/props/c02.rs", c07 "../../../mc/src/props/c07.rs", c08 "../../../mc/src/props/c08.rs", c10 "../../../mc/src/props/c10.rs");
more!(not(feature = "std"):
    c04 "../../../mc/src/props/c04.rs", c05 "../../../mc/src/props/c05.rs", c06 "../../../mc/src/props/c06.rs", c09 "../../../mc/src/props/c09.rs",
    c11 "../../../mc/src/props/c11.rs", c12 "../../../mc/src/props/c12.rs", c13 "../../../mc/src/props/c13.rs", c14 "../../../mc/src/props/c14.rs",
    c15 "../../../mc/src/props/c15.rs", c16 "../../../mc/src/props/c16.rs", c17 "../../../mc/src/props/c17.rs", c22 "../../../mc/src/props/c22.rs",
    c23 "../../../mc/src/props/c23.rs");
pub fn plan(id: &str, t: Tier) -> Option<Plan> {
    Some(match id {
        "C21" => c21::plan(t),
        #[cfg(not(feature = "std"))]
        "C24" => c24::plan(t),
        _ => return None,
    })
}
