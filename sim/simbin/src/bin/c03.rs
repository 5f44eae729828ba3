//! C03: Histories of operations on one iterator.
#[path = "../cli.rs"]
mod cli;
#[macro_use]
#[path = "../types.rs"]
mod types;
#[path = "../common.rs"]
mod common;
#[path = "../model.rs"]
mod model;
#[path = "../iter.rs"]
mod iter;

fn main() {
    cli::run("C03", iter::c03)
}
