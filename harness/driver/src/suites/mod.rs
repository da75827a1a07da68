use crate::Suite;

mod auth;
mod batching;
mod caches;
mod config;
mod dedupe;
mod gateway;
mod jsonops;
mod links;
mod loader;
mod pure;

pub fn find(name: &str) -> Option<Suite> {
    Some(match name {
        "dedupe" => dedupe::run,
        "dedupe_mt" => dedupe::run_mt,
        "loader" => loader::run,
        "links" => links::run,
        "gateway" => gateway::run,
        "json" => jsonops::run,
        "identity" => batching::identity,
        "distribute" => batching::distribute,
        "merged" => batching::merged,
        "auth" => auth::run,
        "mustache" => pure::mustache,
        "scalars" => pure::scalars,
        "tryfold" => pure::tryfold,
        "discriminate" => pure::discriminate,
        "merge" => pure::merge,
        "config" => config::run,
        "ttl" => caches::ttl,
        "http_store" => caches::store,
        _ => return None,
    })
}
