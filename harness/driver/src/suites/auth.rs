//! Combinations of authentication providers.
//! case: {tree, providers: {name: {htpasswd} | {jwks, issuer, audiences, optional_kid}}, headers: [[..] per request]}
//! observation: per request "ok" | "missing" | "parse" | "invalid"
use std::collections::HashSet;

use serde_json::{json, Value};
use tailcall::core::blueprint::{Auth, Basic, Jwt, Provider};
use tailcall::core::http::RequestContext;
use tailcall::core::verif::auth::{verify, AuthVerifier, Error, Verification};

use crate::world::{paused, World};

fn provider(v: &Value) -> Provider {
    if let Some(h) = v["htpasswd"].as_str() {
        return Provider::Basic(Basic { htpasswd: h.to_string() });
    }
    let audiences: HashSet<String> = serde_json::from_value(v["audiences"].clone()).unwrap();
    Provider::Jwt(Jwt {
        issuer: v["issuer"].as_str().map(|s| s.to_string()),
        audiences,
        optional_kid: v["optional_kid"] == true,
        jwks: serde_json::from_value(v["jwks"].clone()).unwrap(),
    })
}

fn tree(t: &Value, ps: &Value) -> Auth {
    match t[0].as_str().unwrap() {
        "p" => Auth::Provider(provider(&ps[t[1].as_str().unwrap()])),
        "and" => tree(&t[1], ps).and(tree(&t[2], ps)),
        _ => tree(&t[1], ps).or(tree(&t[2], ps)),
    }
}

pub fn run(case: &Value) -> Value {
    paused().block_on(async {
        let world = World::new(case);
        let verifier = AuthVerifier::from(tree(&case["tree"], &case["providers"]));
        let mut out = vec![];
        for hs in case["headers"].as_array().unwrap() {
            let mut map = http::HeaderMap::new();
            for kv in hs.as_array().unwrap() {
                map.append(
                    kv[0].as_str().unwrap().parse::<http::HeaderName>().unwrap(),
                    kv[1].as_str().unwrap().parse().unwrap(),
                );
            }
            let ctx = RequestContext::new(world.runtime.clone()).allowed_headers(map);
            out.push(match verify(&verifier, &ctx).await {
                Verification::Succeed => "ok",
                Verification::Fail(Error::Missing) => "missing",
                Verification::Fail(Error::Parse(_)) => "parse",
                Verification::Fail(Error::Invalid) => "invalid",
            });
        }
        json!(out)
    })
}
