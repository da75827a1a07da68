//! Tagged values of spec/JsonVal.tla <-> JSON.
use serde_json::{json, Map, Value};

pub fn to_json(t: &Value) -> Value {
    let s = || t[1].as_str().unwrap();
    match t[0].as_str().unwrap() {
        "n" => Value::Null,
        "b" => Value::Bool(s() == "true"),
        "i" | "f" => serde_json::from_str(s()).unwrap(),
        "s" => Value::String(s().to_string()),
        "a" => Value::Array(t[1].as_array().unwrap().iter().map(to_json).collect()),
        "o" => Value::Object(
            t[1].as_array()
                .unwrap()
                .iter()
                .map(|kv| (kv[0].as_str().unwrap().to_string(), to_json(&kv[1])))
                .collect::<Map<_, _>>(),
        ),
        x => panic!("bad tag {x}"),
    }
}

pub fn from_json(v: &Value) -> Value {
    match v {
        Value::Null => json!(["n"]),
        Value::Bool(b) => json!(["b", b.to_string()]),
        Value::Number(n) if n.is_f64() => json!(["f", n.to_string()]),
        Value::Number(n) => json!(["i", n.to_string()]),
        Value::String(s) => json!(["s", s]),
        Value::Array(a) => json!(["a", a.iter().map(from_json).collect::<Vec<_>>()]),
        Value::Object(o) => {
            json!(["o", o.iter().map(|(k, v)| json!([k, from_json(v)])).collect::<Vec<_>>()])
        }
    }
}
