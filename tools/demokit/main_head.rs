#![allow(dead_code, unused)]
mod abi;
mod bank;
mod build;
mod case;
mod exec;
mod model;
mod programs;
mod world;
fn main() {
    case::run();
    eprintln!("DEMO: ok");
}
