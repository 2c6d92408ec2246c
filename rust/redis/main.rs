//! Executes scenarios against the module: one JSON line in, one JSON line out on descriptor 3.
use redis_module::server::{self, Item};
use redis_module::RedisValue;
use rtbot_rs::cxx_bindings::ffi;
use rtbot_rs::pipelines_registry::PIPELINES_REGISTRY;
use serde_json::{json, Map, Value};
use std::io::{BufRead, Write};
use std::os::fd::FromRawFd;

fn shown(v: &RedisValue) -> Value {
    match v {
        RedisValue::SimpleString(s) | RedisValue::BulkString(s) => json!(s),
        RedisValue::SimpleStringStatic(s) => json!(s),
        RedisValue::Integer(i) => json!(i),
        RedisValue::Float(f) => json!(f),
        RedisValue::Array(a) => json!(a.iter().map(shown).collect::<Vec<Value>>()),
        RedisValue::Null => Value::Null,
        other => json!(format!("{:?}", other)),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        eprintln!("{}", i);
        std::process::exit(101);
    }));
    server::load(redis_rtbot::the_module());
    let mut out = unsafe { std::fs::File::from_raw_fd(3) };
    for line in std::io::stdin().lock().lines() {
        let scenario: Value = serde_json::from_str(&line.unwrap()).unwrap();
        ffi::reset();
        server::reset();
        *PIPELINES_REGISTRY.write().unwrap() = None;
        let mut answers = Vec::new();
        for s in scenario.as_array().unwrap() {
            let words: Vec<&str> = s.as_array().unwrap().iter().map(|w| w.as_str().unwrap()).collect();
            let mut a = match server::execute(words[0], &words[1..], false) {
                Ok(v) => json!({ "ok": shown(&v) }),
                Err(e) => json!({ "error": e.to_string() }),
            };
            let mut db = Map::new();
            for (k, item) in server::content() {
                db.insert(
                    k,
                    match item {
                        Item::Text(t) => json!({ "text": t }),
                        Item::Json(t) => json!({ "json": t }),
                        Item::Series(s) => json!(s.samples.iter().map(|(t, v)| json!([t, v.to_bits()])).collect::<Vec<Value>>()),
                    },
                );
            }
            a["db"] = Value::Object(db);
            a["published"] = json!(server::published());
            a["errors"] = json!(server::errors());
            a["live"] = json!(ffi::live());
            answers.push(a);
        }
        let mut text = serde_json::to_string(&answers).unwrap();
        text.push('\n');
        out.write_all(text.as_bytes()).unwrap();
    }
}
