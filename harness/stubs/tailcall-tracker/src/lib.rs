//! Offline stand-in for /repo/tailcall-tracker (needs posthog-rs, a git dependency):
//! the usage tracker never sends anything.
#[derive(Default)]
pub struct Tracker;
#[derive(Debug, Clone)]
pub enum EventKind {
    Ping,
    Command(String),
}
impl Tracker {
    pub async fn init_ping(&'static self, _: tokio::time::Duration) {}
    pub async fn dispatch(&'static self, _: EventKind) -> Result<(), std::convert::Infallible> {
        Ok(())
    }
}
