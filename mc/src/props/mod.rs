use crate::engine::{Scenario, Tier};

#[cfg(not(feature = "sched"))]
mod blocks;
#[cfg(not(feature = "sched"))]
mod c01;
#[cfg(not(feature = "sched"))]
mod c02;
#[cfg(not(feature = "sched"))]
mod c03;
#[cfg(not(feature = "sched"))]
mod c04;
#[cfg(not(feature = "sched"))]
mod c05;
#[cfg(not(feature = "sched"))]
mod c06;
#[cfg(not(feature = "sched"))]
mod c07;
#[cfg(not(feature = "sched"))]
mod c08;
#[cfg(not(feature = "sched"))]
mod c09;
#[cfg(not(feature = "sched"))]
mod c10;
#[cfg(not(feature = "sched"))]
mod c11;
#[cfg(not(feature = "sched"))]
mod c12;
#[cfg(not(feature = "sched"))]
mod c13;
#[cfg(not(feature = "sched"))]
mod c14;
#[cfg(not(feature = "sched"))]
mod c15;
#[cfg(not(feature = "sched"))]
mod c16;
#[cfg(not(feature = "sched"))]
mod c17;
#[cfg(not(feature = "sched"))]
mod c18;
mod c19;
pub mod keys;
mod ops;
mod sched;
pub mod threads;

pub const IDS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
    "C17", "C18", "C19",
];

pub fn scenarios(id: &str, t: Tier) -> Vec<Scenario> {
    #[cfg(not(feature = "sched"))]
    match id {
        "C01" => c01::scenarios(t),
        "C02" => c02::scenarios(t),
        "C03" => c03::scenarios(t),
        "C04" => c04::scenarios(t),
        "C05" => c05::scenarios(t),
        "C06" => c06::scenarios(t),
        "C07" => c07::scenarios(t),
        "C08" => c08::scenarios(t),
        "C09" => c09::scenarios(t),
        "C10" => c10::scenarios(t),
        "C11" => c11::scenarios(t),
        "C12" => c12::scenarios(t),
        "C13" => c13::scenarios(t),
        "C14" => c14::scenarios(t),
        "C15" => c15::scenarios(t),
        "C16" => c16::scenarios(t),
        "C17" => c17::scenarios(t),
        "C18" => c18::scenarios(t),
        "C19" => c19::scenarios(t),
        _ => vec![],
    }
    #[cfg(feature = "sched")]
    match id {
        "C19" => c19::scenarios(t),
        _ => vec![],
    }
}
