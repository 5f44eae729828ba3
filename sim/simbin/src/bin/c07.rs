//! C07: Fleets with mixed schemas.
#[path = "../cli.rs"]
mod cli;
#[macro_use]
#[path = "../types.rs"]
mod types;
#[path = "../common.rs"]
mod common;
#[path = "../damage.rs"]
mod damage;
#[path = "../model.rs"]
mod model;
#[path = "../msg.rs"]
mod msg;

fn main() {
    cli::run("C07", msg::c07)
}
