pub mod assembly;
pub mod batching;
pub mod gateway;
pub mod multisig;
pub mod names;
pub mod nexus;
pub mod prover;
pub mod quorum;
pub mod registry;
pub mod rewards;
pub mod router;
pub mod system;
pub mod voting;
use crate::engine::Module;
pub fn make(name: &str, seed: u64) -> Box<dyn Module> {
    match name {
        "assembly" => Box::new(assembly::M::new(seed)),
        "router" => Box::new(router::M::new(seed)),
        "gateway" => Box::new(gateway::M::new(seed)),
        "voting" | "twins" | "collide" => Box::new(voting::M::new(seed)),
        "multisig" => Box::new(multisig::M::new(seed)),
        "rewards" => Box::new(rewards::M::new(seed)),
        "nexus" => Box::new(nexus::M::new(seed)),
        "batching" => Box::new(batching::M),
        "quorum" | "weights" => Box::new(quorum::M::new(seed)),
        "names" => Box::new(names::M::new(seed)),
        "prover" => Box::new(prover::M::new(seed)),
        "system" => Box::new(system::M::new(seed)),
        "registry" => Box::new(registry::M::new(seed)),
        _ => panic!("unknown module {name}"),
    }
}

/// The strings in a list.
pub fn strings(v: &serde_json::Value) -> Vec<String> {
    v.as_array().map_or(vec![], |a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect())
}
