#[cfg(feature = "capi")]
mod capi;
mod common;
mod cells;
mod classify;
mod cluster;
mod collector;
mod events;
mod files;
mod formats;
mod run;
mod trees;
mod unweight;
use common::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].as_str();
    let seed: u64 = a[2].parse().unwrap();
    let thorough = a[3] == "thorough";
    let budget: f64 = a.get(4).map(|s| s.parse().unwrap()).unwrap_or(if thorough { 300. } else { 20. });
    let mut c = Ctx::new(seed, thorough, budget);
    let prop = prop.to_string();
    c.rounds(budget, 40, &|c| match prop.as_str() {
        "C01" => cells::c01(c),
        "C02" => cells::c02(c),
        "C03" => cells::c03(c),
        "C04" => trees::c04(c),
        "C05" => trees::c05(c),
        "C06" => events::c06(c),
        "C07" => events::c07(c),
        "C08" => events::c08(c),
        "C09" => unweight::c09(c),
        "C10" => trees::c10(c),
        "C11" => run::c11(c),
        "C12" => files::c12(c),
        "C13" => files::c13(c),
        "C14" => files::c14(c),
        "C15" => cluster::c15(c),
        "C16" => collector::c16(c),
        #[cfg(feature = "capi")]
        "C17" => capi::c17(c),
        "C19" => events::c19(c),
        "C20" => classify::c20(c),
        _ => panic!("unknown property {prop}"),
    });
    c.finish();
}
