//! conform MODULE SEED REPORT.json FILE...
mod concrete;
mod contracts;
mod engine;
mod keys;
mod m;
mod run;
mod world;

fn main() {
    run::main(|module, seed| m::make(module, seed));
}
