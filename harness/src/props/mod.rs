//! The properties

use crate::pbt::{CaseFn, CaseResult, Ctx};
use crate::runner::{Opts, Report, Special};

pub mod engine;
pub mod cost;
pub mod meta;
pub mod peg;
pub mod tree;

pub struct Prop {
    pub id: &'static str,
    /// how cases are made and when one counts as non-trivial
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub case: CaseFn,
    /// hand-written cases, among them one for each defect repaired
    pub fixed: &'static [(&'static str, fn(&mut Ctx) -> CaseResult)],
    pub special: Option<fn(&Opts, &mut Report) -> Special>,
    pub child: Option<fn(&[String]) -> i32>,
    pub assumptions: &'static [&'static str],
    /// CPU seconds one case may take
    pub cpu_secs: i64,
}

pub const NO_LR: &str = "rule sets without left recursion; nesting of expressions up to about 45 levels; cases on which the reference interpreter needs more than 30000 steps are not used";

pub static ALL: &[&Prop] = &[
    &engine::C01, &engine::C02, &engine::C03, &engine::C04, &engine::C05, &engine::C06, &engine::C07, &engine::C08, &meta::C09, &peg::C10, &peg::C11, &peg::C12, &peg::C13, &peg::C14, &tree::C15, &tree::C16, &tree::C17,
    &tree::C18, &tree::C19, &tree::C20, &meta::C21, &meta::C22, &meta::C23, &engine::C24, &peg::C25, &peg::C26, &peg::C27, &cost::C28,
];

pub fn find(id: &str) -> &'static Prop {
    match ALL.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no property {}", id);
            std::process::exit(2)
        }
    }
}
