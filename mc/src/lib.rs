//! The explorers as a library: the binary `mc` runs them, `sched/` reuses the call alphabet of C18.
pub mod adapt;
pub mod builder;
pub mod cats;
#[cfg(feature = "cost")]
pub mod cost;
pub mod cut;
pub mod engine;
pub mod errors;
pub mod history;
pub mod isets;
pub mod lex;
pub mod life;
pub mod memory;
pub mod model;
#[cfg(feature = "internals")]
pub mod prims;
pub mod queries;
pub mod quiet;
pub mod serve;
pub mod tables;

use engine::Suite;
use std::fmt::Write as _;
use std::sync::Arc;

pub fn suites(prop: &str, thorough: bool, data: &str) -> Vec<Suite> {
    let model = || Arc::new(model::Model::load(data));
    match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" => queries::query_suites(&model(), prop, thorough),
        "C06" => queries::bounds_suites(&model(), thorough),
        "C07" => tables::c07(&model()),
        "C08" => tables::c08(&model()),
        "C09" => isets::c09(&model(), thorough),
        "C10" => isets::c10(&model(), thorough),
        "C11" => cats::c11(thorough),
        "C12" => cats::c12(thorough),
        "C13" => cats::c13(thorough),
        "C14" => cats::c14(&model(), thorough),
        "C15" => tables::c15(&model()),
        "C16" => cats::c16(&model(), thorough),
        "C17" => builder::c17(&model(), thorough),
        "C18" => history::c18(thorough),
        "C29" => errors::c29(thorough),
        "C30" => cut::c30(thorough),
        "C32" => life::c32(thorough),
        "C33" => quiet::c33(thorough, data),
        #[cfg(feature = "cost")]
        "C35" => cost::c35(thorough),
        "C27" => memory::c27(thorough),
        #[cfg(feature = "internals")]
        "C23" => prims::c23(thorough),
        _ => {
            eprintln!("no explorer for {prop}");
            std::process::exit(2);
        }
    }
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (0x7F..0xA0).contains(&(c as u32)) => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub static OUT: std::sync::OnceLock<String> = std::sync::OnceLock::new();

pub fn report_hang_and_exit(suites: &[Suite], suite: usize, unit: u64) -> ! {
    let text = format!("{{\"result\":\"hang\",\"suite\":{},\"unit\":{unit}}}", json(&suites[suite].name));
    if let Some(p) = OUT.get() {
        let _ = std::fs::write(p, text);
    }
    std::process::exit(3);
}

