use crate::engine::*;
#[path = "../../../mc/src/props/c01.rs"]
pub mod c01;
#[path = "../../../mc/src/props/common.rs"]
#[macro_use]
pub mod common;
#[path = "../../../mc/src/props/special.rs"]
pub mod special;
#[path = "../../../mc/src/props/large.rs"]
pub mod large;
mod c19;
mod c20;
pub fn plan(id: &str, t: Tier) -> Option<Plan> {
    Some(match id {
        "C19" => c19::plan(t),
        "C20" => c20::plan(t),
        _ => return None,
    })
}
