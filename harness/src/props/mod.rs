//! One module per property.
use crate::fw::Ctx;

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    /// How an evaluation is counted as non-trivial and distinct.
    pub rule: &'static str,
    /// Counters that must be non-zero for a pass to mean anything.
    pub required: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    pub run: fn(&mut Ctx),
}

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod pdbutil;

pub fn all() -> Vec<Prop> {
    vec![c01::prop(), c02::prop(), c03::prop(), c04::prop(), c05::prop(), c06::prop(), c07::prop(), c08::prop(), c09::prop(), c10::prop(), c11::prop(), c12::prop(), c13::prop(), c14::prop(), c15::prop(), c16::prop(), c17::prop(), c18::prop(), c19::prop(), c20::prop(), c21::prop(), c22::prop(), c23::prop(), c24::prop()]
}

pub fn find(id: &str) -> Option<Prop> {
    all().into_iter().find(|p| p.id == id)
}

/// Rounds of the quick tier, chosen for some 20 to 40 seconds on 8 cores.
/// `MON_ROUNDS` overrides it (for trying out changes of the checks themselves).
pub fn quick_rounds(id: &str) -> usize {
    if let Some(n) = std::env::var("MON_ROUNDS").ok().and_then(|v| v.parse().ok()) {
        return n;
    }
    match id {
        "C01" | "C03" => 12,
        "C04" => 6,
        "C05" => 24,
        "C06" | "C15" => 3,
        "C07" => 120,
        "C08" => 9,
        "C09" => 12,
        "C10" => 4,
        "C11" | "C17" => 40,
        "C12" => 80,
        "C13" => 4,
        "C16" => 40,
        "C19" => 100,
        "C21" => 20,
        "C22" => 15,
        "C23" => 4,
        "C24" => 10,
        "C20" => 2,
        _ => 1,
    }
}
