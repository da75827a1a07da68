//! Stand-in for futures-timer: the same `Delay`, driven by tokio's clock so that the
//! conformance driver can run the code under virtual time.
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::Duration;

pub struct Delay(Pin<Box<tokio::time::Sleep>>);

impl Delay {
    pub fn new(dur: Duration) -> Self {
        Delay(Box::pin(tokio::time::sleep(dur)))
    }
    pub fn reset(&mut self, dur: Duration) {
        *self = Delay::new(dur);
    }
}

impl Future for Delay {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        self.0.as_mut().poll(cx)
    }
}
