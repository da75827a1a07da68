//! Offline stand-in for twistedfall/htpasswd-verify (a git dependency that is not
//! available in this sandbox). Same API as the fork tailcall uses; it understands the
//! `{SHA}` and plain-text schemes only, which is all the harness needs.
use std::collections::HashMap;
use std::marker::PhantomData;

use base64::Engine;
use sha1::{Digest, Sha1};

pub struct Htpasswd<'a> {
    users: HashMap<String, String>,
    _p: PhantomData<&'a ()>,
}

impl Htpasswd<'static> {
    pub fn new_owned(bytes: &str) -> Self {
        let mut users = HashMap::new();
        for line in bytes.lines() {
            let line = line.trim();
            if let Some((u, p)) = line.split_once(':') {
                users.insert(u.to_string(), p.to_string());
            }
        }
        Self { users, _p: PhantomData }
    }
}

impl Htpasswd<'_> {
    pub fn check(&self, username: impl AsRef<str>, password: impl AsRef<str>) -> bool {
        match self.users.get(username.as_ref()) {
            None => false,
            Some(h) => match h.strip_prefix("{SHA}") {
                Some(b) => {
                    let d = Sha1::digest(password.as_ref().as_bytes());
                    base64::engine::general_purpose::STANDARD.encode(d) == b
                }
                None => h == password.as_ref(),
            },
        }
    }
}
