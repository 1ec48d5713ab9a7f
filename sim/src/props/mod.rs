use crate::report::Report;
use crate::util::Rng;
use serde_json::Value;

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;

pub struct Prop {
    pub id: &'static str,
    pub generate: fn(&mut Rng, bool) -> Value,
    pub run: fn(&Value, &mut Report),
    /// arrays of the scenario that may be reduced
    pub shrink: &'static [&'static str],
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    /// step at which a run counts as hanging: allocations, and live bytes
    pub budget: (u64, i64),
}

pub fn all() -> Vec<Prop> {
    vec![c01::PROP, c02::PROP, c03::PROP, c04::PROP, c05::PROP, c06::PROP, c07::PROP, c08::PROP, c09::PROP, c10::PROP, c11::PROP, c12::PROP, c13::PROP, c14::PROP]
}
