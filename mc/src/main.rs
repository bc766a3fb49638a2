//! mc: bounded exhaustive exploration of dess. Usage: mc check <ID> | mc replay <file> | mc <helper>
mod p_adapt;
mod p_iso;
mod p_meta;
mod p_method;
mod p_serde;
mod p_step;
mod p_therm;
mod p_util;
mod p_walk;
mod p_wide;
mod refmodel;
mod systems;

use eng::engine;
use eng::engine::*;
use eng::{ensure, fail, scratch};

pub fn harnesses(id: &str, th: bool) -> Vec<Harness> {
    match id {
        "C01" => p_walk::c01(th),
        "C02" => p_walk::c02(th),
        "C03" => p_method::c03(th),
        "C04" => p_method::c04(th),
        "C05" => p_adapt::c05(th),
        "C06" => p_adapt::c06(th),
        "C11" => p_util::c11(th),
        "C20" => p_util::c20(th),
        "C09" => p_serde::c09(th),
        "C10" => p_serde::c10(th),
        "C19" => p_iso::c19(th),
        "C16" => p_therm::c16(th),
        "C17" => p_therm::c17(th),
        "C07" => p_walk::c07(th),
        "C08" => p_walk::c08(th),
        "C18" => p_walk::c18(th),
        "C24" => p_meta::c24(th),
        "C25" => p_meta::c25(th),
        "C26" => p_meta::c26(th),
        "C23" => p_walk::c23(th),
        _ => {
            eprintln!("no harness for {id}");
            std::process::exit(3)
        }
    }
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("step") {
        std::panic::set_hook(Box::new(|_| {}));
        std::process::exit(p_step::main());
    }
    eng::main(harnesses)
}
