//! daemon MODULE SEED REPORT.json FILE...   as harness/src/main.rs, for the worker daemon
#[path = "../../harness/src/engine.rs"]
mod engine;
mod m;
mod world;

#[path = "../../harness/src/run.rs"]
mod run;

fn main() {
    run::main(|module, seed| m::make(module, seed));
}
