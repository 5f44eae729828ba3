//! C09: Streams.
#[path = "../cli.rs"]
mod cli;
#[macro_use]
#[path = "../types.rs"]
mod types;
#[path = "../common.rs"]
mod common;
#[path = "../model.rs"]
mod model;
#[path = "../stream.rs"]
mod stream;

fn main() {
    cli::run("C09", stream::c09)
}
