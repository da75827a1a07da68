//! The simulated outside of a gateway: upstream HTTP, files, environment, scripts.
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use hyper::body::Bytes;
use serde_json::{json, Value};
use tailcall::core::cache::InMemoryCache;
use tailcall::core::http::Response;
use tailcall::core::runtime::TargetRuntime;
use tailcall::core::worker::{Command, Event, WorkerRequest, WorkerResponse};
use tailcall::core::{EnvIO, FileIO, HttpIO, WorkerIO};

/// Rules answering upstream calls, first match wins:
/// {m?, url (with or without query), body?, status?, headers?: [[k,v]], json|text|bytes|error|echo|filter|gql, delay?}
#[derive(Default)]
pub struct Upstream {
    pub rules: Mutex<Vec<Value>>,
    pub log: Mutex<Vec<Value>>,
}

pub fn header_pairs(h: &http::HeaderMap) -> Value {
    let mut v: Vec<(String, String)> = h
        .iter()
        .map(|(k, v)| (k.to_string(), String::from_utf8_lossy(v.as_bytes()).to_string()))
        .collect();
    v.sort();
    json!(v)
}

fn filter(rule: &Value, url: &url::Url, body: &str) -> Value {
    let param = rule["param"].as_str().unwrap();
    let ids: Vec<String> = if body.is_empty() {
        url.query_pairs().filter(|(k, _)| k == param).map(|(_, v)| v.to_string()).collect()
    } else {
        let b: Value = serde_json::from_str(body).unwrap_or(Value::Null);
        let list = b.as_array().cloned().unwrap_or(vec![b]);
        list.iter().map(|e| text(&e[param])).collect()
    };
    let data = rule["data"].as_array().unwrap();
    let key = rule["path"].as_str().unwrap();
    Value::Array(data.iter().filter(|d| ids.contains(&text(&d[key]))).cloned().collect())
}

fn text(v: &Value) -> String {
    match v {
        Value::String(s) => s.clone(),
        v => v.to_string(),
    }
}

impl Upstream {
    async fn answer(&self, request: reqwest::Request) -> anyhow::Result<Response<Bytes>> {
        let url = request.url().clone();
        let body = request
            .body()
            .and_then(|b| b.as_bytes())
            .map(|b| String::from_utf8_lossy(b).to_string())
            .unwrap_or_default();
        let mut bare = url.clone();
        bare.set_query(None);
        let call = json!({"m": request.method().as_str(), "url": url.as_str(), "h": header_pairs(request.headers()),
                          "body": body, "hasbody": request.body().is_some()});
        let mut entry = call.clone();
        if request.headers().get("content-type").map(|v| v == "application/grpc").unwrap_or(false) {
            entry["bin"] = json!(request.body().and_then(|b| b.as_bytes()));
        }
        self.log.lock().unwrap().push(entry);
        let rules = self.rules.lock().unwrap().clone();
        let rule = rules.into_iter().find(|r| {
            let u = r["url"].as_str().unwrap_or("*");
            (u == "*" || u == url.as_str() || u == bare.as_str())
                && r["m"].as_str().map(|m| m == request.method().as_str()).unwrap_or(true)
                && r["body"].as_str().map(|b| b == body).unwrap_or(true)
        });
        let Some(rule) = rule else {
            let mut r = Response::empty();
            r.status = reqwest::StatusCode::NOT_FOUND;
            r.body = Bytes::from(json!({"nomatch": url.as_str()}).to_string());
            return Ok(r);
        };
        if let Some(d) = rule["delay"].as_u64() {
            tokio::time::sleep(Duration::from_millis(d)).await;
        }
        if let Some(e) = rule["error"].as_str() {
            return Err(anyhow::anyhow!(e.to_string()));
        }
        let mut r = Response::empty();
        r.status = reqwest::StatusCode::from_u16(rule["status"].as_u64().unwrap_or(200) as u16)?;
        for kv in rule["headers"].as_array().unwrap_or(&vec![]) {
            r.headers.append(
                kv[0].as_str().unwrap().parse::<http::HeaderName>()?,
                http::HeaderValue::from_bytes(kv[1].as_str().unwrap().as_bytes())?,
            );
        }
        if let Some(l) = rule["bytes"].as_array() {
            r.body = Bytes::from(l.iter().map(|b| b.as_u64().unwrap() as u8).collect::<Vec<u8>>());
            return Ok(r);
        }
        r.body = Bytes::from(if let Some(t) = rule["text"].as_str() {
            t.to_string()
        } else if rule["echo"] == true {
            call.to_string()
        } else if !rule["echo"].is_null() {
            return Ok(echo(&rule, &call, &url, r));
        } else if !rule["filter"].is_null() {
            filter(&rule["filter"], &url, &body).to_string()
        } else if !rule["gql"].is_null() {
            let one = |b: &Value| {
                rule["gql"].get(b["query"].as_str().unwrap_or("?")).cloned().unwrap_or(
                    json!({"errors": [{"message": format!("unknown query {}", b["query"])}]}),
                )
            };
            match serde_json::from_str::<Value>(&body).unwrap_or(Value::Null) {
                Value::Array(l) => Value::Array(l.iter().map(one).collect()).to_string(),
                b => one(&b).to_string(),
            }
        } else {
            rule["json"].to_string()
        });
        Ok(r)
    }
}

/// the call itself as the answer: {echo: "list" | "gql" | "grpc", gen}
fn echo(rule: &Value, call: &Value, url: &url::Url, mut r: Response<Bytes>) -> Response<Bytes> {
    let mut call = call.clone();
    call["gen"] = rule["gen"].clone();
    r.body = match rule["echo"].as_str().unwrap() {
        "list" => {
            let l: Vec<Value> = url
                .query_pairs()
                .map(|(_, v)| json!({"id": v, "call": call}))
                .collect();
            Bytes::from(json!(l).to_string())
        }
        "gql" => {
            let x = json!({"n": call, "m": call});
            Bytes::from(json!({"data": {"u": x, "w": x}}).to_string())
        }
        "grpc" => {
            let text = call.to_string();
            // a message whose first field is the text
            let mut msg = vec![0x0a];
            let mut n = text.len();
            while n >= 0x80 {
                msg.push((n & 0x7f) as u8 | 0x80);
                n >>= 7;
            }
            msg.push(n as u8);
            msg.extend(text.as_bytes());
            let mut all = vec![0u8];
            all.extend((msg.len() as u32).to_be_bytes());
            all.extend(msg);
            Bytes::from(all)
        }
        _ => Bytes::from(call.to_string()),
    };
    r
}

pub struct MockHttp(pub Arc<Upstream>);
#[async_trait::async_trait]
impl HttpIO for MockHttp {
    async fn execute(&self, request: reqwest::Request) -> anyhow::Result<Response<Bytes>> {
        self.0.answer(request).await
    }
}

pub struct MockEnv(pub HashMap<String, String>);
impl EnvIO for MockEnv {
    fn get(&self, key: &str) -> Option<Cow<'_, str>> {
        self.0.get(key).map(|v| Cow::Borrowed(v.as_str()))
    }
}

pub struct MockFile {
    pub files: HashMap<String, String>,
    pub reads: Mutex<Vec<String>>,
}
#[async_trait::async_trait]
impl FileIO for MockFile {
    async fn write<'a>(&'a self, _: &'a str, _: &'a [u8]) -> anyhow::Result<()> {
        anyhow::bail!("read only")
    }
    async fn read<'a>(&'a self, path: &'a str) -> anyhow::Result<String> {
        self.reads.lock().unwrap().push(path.to_string());
        self.files.get(path).cloned().ok_or(anyhow::anyhow!("no such file {path}"))
    }
}

/// A script answering by function name: {name: {"req": patch}|{"res": body}|null}
pub struct MockWorker(pub Value, pub Mutex<Vec<Value>>);
#[async_trait::async_trait]
impl WorkerIO<async_graphql::Value, async_graphql::Value> for MockWorker {
    async fn call(
        &self,
        name: &str,
        input: async_graphql::Value,
    ) -> Result<Option<async_graphql::Value>, tailcall::core::worker::Error> {
        let j = input.clone().into_json().unwrap();
        self.1.lock().unwrap().push(json!([name, j]));
        let p = &self.0[name];
        if p.is_null() {
            return Ok(None);
        }
        if let Some(e) = p["error"].as_str() {
            return Err(tailcall::core::worker::Error::CLI(e.to_string()));
        }
        let out = if p["id"] == true { j } else { json!({"js": name, "in": j}) };
        Ok(Some(async_graphql::Value::from_json(out).unwrap()))
    }
}

/// Request hooks by name: {name: {"none": true} | {"keep": true} | {"edit": {m?, url?, path?, h?: [[k, v]], body?}}
/// | {"respond": {status, h: [[k, v]], body}} | {"error": text}}
pub struct MockCmd(pub Value, pub Mutex<Vec<Value>>);

fn command(p: &Value, input: Event) -> anyhow::Result<Option<Command>> {
    let Event::Request(req) = input else { anyhow::bail!("no request") };
    if p.is_null() || p["none"] == true {
        return Ok(None);
    }
    if let Some(e) = p["error"].as_str() {
        anyhow::bail!(e.to_string());
    }
    if p["respond"].is_object() {
        let s = &p["respond"];
        let mut r = Response { body: s["body"].as_str().unwrap_or("").to_string(), ..Default::default() };
        r.status = reqwest::StatusCode::from_u16(s["status"].as_u64().unwrap_or(200) as u16)?;
        for kv in s["h"].as_array().unwrap_or(&vec![]) {
            r.headers.append(
                kv[0].as_str().unwrap().parse::<http::HeaderName>()?,
                http::HeaderValue::from_bytes(kv[1].as_str().unwrap().as_bytes())?,
            );
        }
        return Ok(Some(Command::Response(WorkerResponse(r))));
    }
    let mut req: reqwest::Request = req.into();
    let e = &p["edit"];
    if let Some(m) = e["m"].as_str() {
        *req.method_mut() = m.parse()?;
    }
    if let Some(u) = e["url"].as_str() {
        *req.url_mut() = u.parse()?;
    }
    if let Some(u) = e["path"].as_str() {
        req.url_mut().set_path(u);
    }
    for kv in e["h"].as_array().unwrap_or(&vec![]) {
        req.headers_mut().insert(kv[0].as_str().unwrap().parse::<http::HeaderName>()?, kv[1].as_str().unwrap().parse()?);
    }
    if let Some(b) = e["body"].as_str() {
        req.body_mut().replace(b.to_string().into());
    }
    Ok(Some(Command::Request(WorkerRequest(req))))
}
#[async_trait::async_trait]
impl WorkerIO<Event, Command> for MockCmd {
    async fn call(&self, name: &str, input: Event) -> Result<Option<Command>, tailcall::core::worker::Error> {
        if let Event::Request(r) = &input {
            self.1.lock().unwrap().push(json!({"hook": name, "m": r.method(), "uri": serde_json::to_value(r.uri()).unwrap(),
                "h": r.headers().ok(), "body": r.body()}));
        }
        command(&self.0[name], input).map_err(|e| tailcall::core::worker::Error::CLI(e.to_string()))
    }
}

pub struct World {
    pub upstream: Arc<Upstream>,
    pub file: Arc<MockFile>,
    pub worker: Arc<MockWorker>,
    pub cmd: Arc<MockCmd>,
    pub runtime: TargetRuntime,
}

fn strings(v: &Value) -> HashMap<String, String> {
    v.as_object()
        .map(|o| o.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect())
        .unwrap_or_default()
}

impl World {
    /// case: {files, env, rules, js, cmd} or a real script in place of js and cmd: {script}
    pub fn new(case: &Value) -> World {
        let upstream = Arc::new(Upstream::default());
        *upstream.rules.lock().unwrap() = case["rules"].as_array().cloned().unwrap_or_default();
        let file = Arc::new(MockFile { files: strings(&case["files"]), reads: Default::default() });
        let worker = Arc::new(MockWorker(case["js"].clone(), Default::default()));
        let cmd = Arc::new(MockCmd(case["cmd"].clone(), Default::default()));
        let script = case["script"].as_str().map(|s| tailcall::core::blueprint::Script { source: s.to_string(), timeout: None });
        let http = Arc::new(MockHttp(upstream.clone()));
        let runtime = TargetRuntime {
            http: http.clone(),
            http2_only: http,
            env: Arc::new(MockEnv(strings(&case["env"]))),
            file: file.clone(),
            cache: Arc::new(InMemoryCache::default()),
            extensions: Arc::new(vec![]),
            cmd_worker: match script.clone() {
                Some(s) => Some(tailcall::cli::javascript::init_worker_io(s)),
                None if case["cmd"].is_object() => Some(cmd.clone()),
                None => None,
            },
            worker: match script {
                Some(s) => Some(tailcall::cli::javascript::init_worker_io(s)),
                None if case["js"].is_object() => Some(worker.clone()),
                None => None,
            },
        };
        World { upstream, file, worker, cmd, runtime }
    }
}

pub fn paused() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .unwrap()
}

#[allow(dead_code)]
pub fn sorted(m: &BTreeMap<String, String>) -> Value {
    json!(m)
}
