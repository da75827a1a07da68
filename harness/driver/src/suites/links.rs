//! P31: a configuration read with everything it links to.
//! case: {files, entry, env, rules}; observation: {err} | {config, ext: {..}, reads, calls, blueprint: null | message}
use serde_json::{json, Value};
use tailcall::core::blueprint::Blueprint;

use super::{config, gateway};
use crate::world::{paused, World};

pub fn run(case: &Value) -> Value {
    paused().block_on(async {
        let world = World::new(case);
        let read = gateway::read(&world, case).await;
        let reads = std::mem::take(&mut *world.file.reads.lock().unwrap());
        let calls: Vec<Value> = world.upstream.log.lock().unwrap().iter().map(|c| c["url"].clone()).collect();
        match read {
            Err(e) => json!({"err": format!("{e:#}"), "reads": reads, "calls": calls}),
            Ok(m) => {
                let x = m.extensions();
                json!({
                    "config": config::dump(&m),
                    "ext": {
                        "protos": x.grpc_file_descriptors.iter().map(|(k, f)| json!([k, f.package(), f.message_type.iter().map(|m| m.name().to_string()).collect::<Vec<_>>()])).collect::<Vec<_>>(),
                        "script": x.script,
                        "certs": x.cert.iter().map(|c| c.to_vec()).collect::<Vec<_>>(),
                        "keys": x.keys.iter().map(|k| format!("{:?}", k.clone().into_inner().secret_der())).collect::<Vec<_>>(),
                        "operations": x.endpoint_set.get_endpoints().iter().map(|e| json!([e.get_method(), e.get_path().as_str()])).collect::<Vec<_>>(),
                        "htpasswd": x.htpasswd.iter().map(|h| json!([h.id, h.content])).collect::<Vec<_>>(),
                        "jwks": x.jwks.iter().map(|h| json!([h.id, h.content])).collect::<Vec<_>>(),
                    },
                    "reads": reads,
                    "calls": calls,
                    "blueprint": Blueprint::try_from(&m).err().map(|e| e.to_string()),
                })
            }
        }
    })
}
