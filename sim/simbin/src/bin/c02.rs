//! C02: Parallel writes.
#[path = "../cli.rs"]
mod cli;
#[macro_use]
#[path = "../types.rs"]
mod types;
#[path = "../common.rs"]
mod common;
#[path = "../model.rs"]
mod model;
#[path = "../par.rs"]
mod par;

fn main() {
    cli::run("C02", par::c02)
}
