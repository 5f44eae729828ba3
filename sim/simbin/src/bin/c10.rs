//! C10: Concurrent and nested conversions.
#[path = "../cli.rs"]
mod cli;
#[macro_use]
#[path = "../types.rs"]
mod types;
#[path = "../common.rs"]
mod common;
#[path = "../damage.rs"]
mod damage;
#[path = "../model.rs"]
mod model;
#[path = "../int.rs"]
mod int;

fn main() {
    cli::run("C10", int::c10)
}
