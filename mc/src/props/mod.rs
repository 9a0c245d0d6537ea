use crate::engine::*;
#[macro_use]

pub mod common;
mod c01;
pub mod special;
pub mod large;
mod c02;
mod c05;

mod c06;
mod c12;
mod c13;
mod c14;
mod c15;
mod c22;
mod c23;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c16;
mod c03;
mod c04;
mod c17;
mod c18;
pub fn plan(id: &str, t: Tier) -> Option<Plan> {
    Some(match id {
        "C01" => c01::plan(t.up()),
        "C02" => c02::plan(t.up()),
        "C05" => c05::plan(t),
        "C06" => c06::plan(t),
        "C12" => c12::plan(t.up()),
        "C13" => c13::plan(t.up()),
        "C14" => c14::plan(t.up()),
        "C15" => c15::plan(t.up()),
        "C22" => c22::plan(t.up()),
        "C23" => c23::plan(t.up()),
        "C07" => c07::plan(t),
        "C08" => c08::plan(t),
        "C09" => c09::plan(t),
        "C10" => c10::plan(t),
        "C11" => c11::plan(t.up()),
        "C16" => c16::plan(t.up()),
        "C03" => c03::plan(t),
        "C04" => c04::plan(t.up()),
        "C17" => c17::plan(t),
        "C18" => c18::plan(t),
        _ => return None,
    })
}
