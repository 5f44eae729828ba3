//! C04: Clouds under way between nodes.
#[path = "../cli.rs"]
mod cli;
#[macro_use]
#[path = "../types.rs"]
mod types;
#[path = "../common.rs"]
mod common;
#[path = "../damage.rs"]
mod damage;
#[path = "../model.rs"]
mod model;
#[path = "../net.rs"]
mod net;

fn main() {
    cli::run("C04", net::c04)
}
