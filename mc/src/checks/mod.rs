use crate::alloc;
use crate::ctx::*;

pub mod common;
pub mod uni;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c02;
mod c01;
mod c20;
mod c19;

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub passes: fn(Tier) -> Vec<Pass>,
    pub run: fn(&mut Ctx),
}
pub fn find(id: &str) -> Option<Check> {
    Some(match id {
        "C03" => c03::check(),
        "C04" => c04::check(),
        "C05" => c05::check(),
        "C06" => c06::check(),
        "C07" => c07::check(),
        "C08" => c08::check(),
        "C09" => c09::check(),
        "C10" => c10::check(),
        "C11" => c11::check(),
        "C12" => c12::check(),
        "C13" => c13::check(),
        "C14" => c14::check(),
        "C15" => c15::check(),
        "C16" => c16::check(),
        "C17" => c17::check(),
        "C18" => c18::check(),
        "C02" => c02::check(),
        "C01" => c01::check(),
        "C20" => c20::check(),
        "C19" => c19::check(),
        _ => return None,
    })
}
/// native, and pretending to be a CPU without AVX2
pub fn simd_passes(_: Tier) -> Vec<Pass> {
    vec![Pass::new("native", Cpu::Native, 8), Pass::new("noavx2", Cpu::NoAvx2, 4)]
}
pub fn native_pass(_: Tier) -> Vec<Pass> {
    vec![Pass::new("native", Cpu::Native, 8)]
}
#[allow(dead_code)]
pub fn guard_passes(_: Tier) -> Vec<Pass> {
    vec![
        Pass::new("native", Cpu::Native, 8),
        Pass::new("guard-misaligned", Cpu::Native, 8).alloc(alloc::G_MISALIGN),
        Pass::new("guard-end-noavx2", Cpu::NoAvx2, 8).alloc(alloc::G_END),
    ]
}
