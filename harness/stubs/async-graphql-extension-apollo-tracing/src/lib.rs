//! Offline stand-in (the real crate's build script downloads a .proto file): an
//! extension that does nothing.
use std::sync::Arc;

use async_graphql::extensions::{Extension, ExtensionFactory};

pub struct ApolloTracing;
impl ApolloTracing {
    pub fn new(_: String, _: String, _: String, _: String, _: String) -> Self {
        Self
    }
}
struct Nop;
impl Extension for Nop {}
impl ExtensionFactory for ApolloTracing {
    fn create(&self) -> Arc<dyn Extension> {
        Arc::new(Nop)
    }
}
