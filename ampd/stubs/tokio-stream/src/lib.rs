//! What the daemon uses of tokio-stream, to the same effect.
use std::pin::Pin;
use std::task::{Context, Poll};

pub use futures::Stream;

pub trait StreamExt: Stream {
    fn next(&mut self) -> futures::stream::Next<'_, Self>
    where
        Self: Unpin,
    {
        futures::StreamExt::next(self)
    }

    fn map<T, F: FnMut(Self::Item) -> T>(self, f: F) -> futures::stream::Map<Self, F>
    where
        Self: Sized,
    {
        futures::StreamExt::map(self, f)
    }

    fn skip_while<F: FnMut(&Self::Item) -> bool>(self, f: F) -> SkipWhile<Self, F>
    where
        Self: Sized,
    {
        SkipWhile { inner: Box::pin(self), f: Some(f) }
    }
}

impl<S: Stream + ?Sized> StreamExt for S {}

pub struct SkipWhile<S, F> {
    inner: Pin<Box<S>>,
    f: Option<F>,
}

impl<S, F> Unpin for SkipWhile<S, F> {}

impl<S: Stream, F: FnMut(&S::Item) -> bool> Stream for SkipWhile<S, F> {
    type Item = S::Item;

    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
        loop {
            match self.inner.as_mut().poll_next(cx) {
                Poll::Ready(Some(x)) => {
                    if !self.f.as_mut().map_or(false, |f| f(&x)) {
                        self.f = None;
                        return Poll::Ready(Some(x));
                    }
                }
                other => return other,
            }
        }
    }
}

pub struct StreamMap<K, V> {
    all: Vec<(K, V)>,
}

impl<K: Clone + PartialEq + Unpin, V: Stream + Unpin> StreamMap<K, V> {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        StreamMap { all: vec![] }
    }

    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        let old = self.all.iter().position(|x| x.0 == k).map(|i| self.all.swap_remove(i).1);
        self.all.push((k, v));
        old
    }
}

impl<K: Clone + PartialEq + Unpin, V: Stream + Unpin> Stream for StreamMap<K, V> {
    type Item = (K, V::Item);

    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let mut i = 0;
        while i < self.all.len() {
            match Pin::new(&mut self.all[i].1).poll_next(cx) {
                Poll::Ready(Some(x)) => return Poll::Ready(Some((self.all[i].0.clone(), x))),
                Poll::Ready(None) => {
                    self.all.swap_remove(i);
                }
                Poll::Pending => i += 1,
            }
        }
        if self.all.is_empty() { Poll::Ready(None) } else { Poll::Pending }
    }
}

pub mod wrappers {
    use super::*;
    use tokio::sync::{broadcast, mpsc};

    pub mod errors {
        use std::fmt;

        #[derive(Debug, PartialEq, Eq, Clone)]
        pub enum BroadcastStreamRecvError {
            Lagged(u64),
        }

        impl fmt::Display for BroadcastStreamRecvError {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                match self {
                    Self::Lagged(n) => write!(f, "channel lagged by {n}"),
                }
            }
        }

        impl std::error::Error for BroadcastStreamRecvError {}
    }

    pub struct ReceiverStream<T>(mpsc::Receiver<T>);

    impl<T> ReceiverStream<T> {
        pub fn new(rx: mpsc::Receiver<T>) -> Self {
            Self(rx)
        }
    }

    impl<T> Stream for ReceiverStream<T> {
        type Item = T;

        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
            self.0.poll_recv(cx)
        }
    }

    type Received<T> = (Result<T, broadcast::error::RecvError>, broadcast::Receiver<T>);

    pub struct BroadcastStream<T>(Pin<Box<dyn std::future::Future<Output = Received<T>> + Send>>);

    async fn receive<T: Clone>(mut rx: broadcast::Receiver<T>) -> Received<T> {
        (rx.recv().await, rx)
    }

    impl<T: 'static + Clone + Send> BroadcastStream<T> {
        pub fn new(rx: broadcast::Receiver<T>) -> Self {
            Self(Box::pin(receive(rx)))
        }
    }

    impl<T: 'static + Clone + Send> Stream for BroadcastStream<T> {
        type Item = Result<T, errors::BroadcastStreamRecvError>;

        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
            let (res, rx) = match self.0.as_mut().poll(cx) {
                Poll::Ready(x) => x,
                Poll::Pending => return Poll::Pending,
            };
            self.0 = Box::pin(receive(rx));
            Poll::Ready(match res {
                Ok(x) => Some(Ok(x)),
                Err(broadcast::error::RecvError::Closed) => None,
                Err(broadcast::error::RecvError::Lagged(n)) => Some(Err(errors::BroadcastStreamRecvError::Lagged(n))),
            })
        }
    }
}
