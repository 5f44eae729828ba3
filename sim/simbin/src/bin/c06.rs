//! C06: All read paths on the same message.
#[path = "../cli.rs"]
mod cli;
#[macro_use]
#[path = "../types.rs"]
mod types;
#[path = "../common.rs"]
mod common;
#[path = "../damage.rs"]
mod damage;
#[path = "../model.rs"]
mod model;
#[path = "../msg.rs"]
mod msg;

fn main() {
    cli::run("C06", msg::c06)
}
