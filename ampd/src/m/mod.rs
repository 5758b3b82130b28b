

mod daemon;
mod queue;
mod sender;
mod witness;

use serde_json::Value;

use crate::engine::Module;
use crate::world::World;

pub fn make(name: &str, seed: u64) -> Box<dyn Module> {
    match name {
        "daemon" => Box::new(Reexecuted(daemon::Daemon { seed })),
        "queue" => Box::new(Reexecuted(queue::Queue { seed })),
        "sender" => Box::new(Reexecuted(sender::Sender { seed })),
        "witness" => Box::new(Reexecuted(witness::Witness { seed })),
        _ => panic!("module {name}"),
    }
}

pub fn runtime(_: u64) -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().expect("runtime")
}

/// A part of the daemon under test, whose world the thread's `sim` holds while it runs.
pub trait Part {
    type Live: 'static;
    fn start(&self, cfg: &Value) -> Self::Live;
    fn exec(&self, live: &mut Self::Live, q: &Value) -> Value;
    fn observe(&self, live: &mut Self::Live) -> Value;
}

pub struct Reexecuted<P>(P);

impl<P: Part> Reexecuted<P> {
    fn with<T>(&self, w: &mut World, f: impl FnOnce(&P, &mut P::Live) -> T) -> T {
        if w.live.is_none() {
            sim::with(|s| *s = Default::default());
            let mut live = self.0.start(&w.cfg);
            for q in &w.path {
                self.0.exec(&mut live, q);
            }
            w.live = Some(Box::new(live));
        } else {
            sim::with(|s| std::mem::swap(s, &mut w.sim));
        }
        let mut live = w.live.take().expect("live").downcast::<P::Live>().expect("live");
        let out = f(&self.0, &mut live);
        w.live = Some(live);
        sim::with(|s| std::mem::swap(s, &mut w.sim));
        out
    }
}

impl<P: Part> Module for Reexecuted<P> {
    fn build(&mut self, cfg: &Value) -> World {
        World::new(cfg)
    }

    fn exec(&mut self, w: &mut World, q: &Value) -> Result<Value, String> {
        let out = self.with(w, |p, live| p.exec(live, q));
        w.path.push(q.clone());
        Ok(out)
    }

    fn observe(&mut self, w: &mut World, _: &Value) -> Value {
        self.with(w, |p, live| p.observe(live))
    }
}
