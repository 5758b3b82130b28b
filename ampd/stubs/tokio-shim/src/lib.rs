//! tokio, except that only the harness raises signals, each within its own thread.
pub use tokio::*;

/// Gives others that many turns.
pub async fn turns(n: u64) {
    for _ in 0..n {
        task::yield_now().await;
    }
}

pub mod signal {
    use std::cell::RefCell;
    use std::rc::Rc;
    use std::sync::Arc;

    use tokio::sync::Notify;

    thread_local! {
        static WAITING: Rc<RefCell<Vec<(i32, Arc<Notify>)>>> = Default::default();
    }

    /// Delivers a signal to the receivers of this thread.
    pub fn raise(number: i32) {
        WAITING.with(|w| {
            for (n, x) in w.borrow().iter() {
                if *n == number {
                    x.notify_one();
                }
            }
        })
    }

    pub fn forget() {
        WAITING.with(|w| w.borrow_mut().clear());
    }

    pub mod unix {
        use super::*;

        #[derive(Clone, Copy)]
        pub struct SignalKind(i32);

        impl SignalKind {
            pub const fn interrupt() -> Self {
                SignalKind(2)
            }
            pub const fn terminate() -> Self {
                SignalKind(15)
            }
        }

        pub struct Signal(Arc<Notify>);

        impl Signal {
            pub async fn recv(&mut self) -> Option<()> {
                self.0.notified().await;
                Some(())
            }
        }

        pub fn signal(kind: SignalKind) -> std::io::Result<Signal> {
            let n = Arc::new(Notify::new());
            WAITING.with(|w| w.borrow_mut().push((kind.0, n.clone())));
            Ok(Signal(n))
        }
    }
}
