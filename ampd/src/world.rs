//! The daemon cannot be copied: a world is the requests that led to it, performed again when it is returned to.
use serde_json::Value;
use sim::Sim;

#[derive(Clone)]
pub struct Snapshot {
    path: Vec<Value>,
}

pub struct World {
    pub cfg: Value,
    pub path: Vec<Value>,
    /// what the daemon's stub clients talk to, and the parts of the daemon that are running
    pub sim: Sim,
    pub live: Option<Box<dyn std::any::Any>>,
}

impl World {
    pub fn new(cfg: &Value) -> Self {
        World { cfg: cfg.clone(), path: vec![], sim: Sim::default(), live: None }
    }

    pub fn snapshot(&self) -> Snapshot {
        Snapshot { path: self.path.clone() }
    }

    pub fn restore(&mut self, s: &Snapshot) {
        if self.path != s.path {
            self.path = s.path.clone();
            self.live = None;
        }
    }
}
