//! C11: Clouds at rest on a disk.
#[path = "../cli.rs"]
mod cli;
#[macro_use]
#[path = "../types.rs"]
mod types;
#[path = "../common.rs"]
mod common;
#[path = "../damage.rs"]
mod damage;
#[path = "../model.rs"]
mod model;
#[path = "../store.rs"]
mod store;

fn main() {
    cli::run("C11", store::c11)
}
