//! Executes scenarios against the registry: one JSON line in, one JSON line out on descriptor 3.
use rtbot_rs::cxx_bindings::ffi;
use rtbot_rs::pipelines_registry::PipelinesRegistry;
use serde_json::{json, Map, Value};
use std::io::{BufRead, Write};
use std::os::fd::FromRawFd;
use std::sync::{Arc, Barrier};

fn step(s: &Value, all: &[PipelinesRegistry]) -> Value {
    let r = &all[s["r"].as_u64().unwrap() as usize];
    let text = |k: &str| s[k].as_str().unwrap().to_string();
    let told = |x: Result<String, rtbot_rs::pipelines_registry::PipelineError>| match x {
        Ok(t) => json!({ "ok": t }),
        Err(e) => json!({"error": e.to_string()}),
    };
    match s["do"].as_str().unwrap() {
        "create" => told(r.create(&text("program"), &text("in"), &text("out"))),
        "delete" => told(r.delete(&text("in"), &text("out"))),
        "clear" => told(r.delete_by_input_key(&text("in"))),
        "receive" => {
            let values: Vec<f64> = s["values"].as_array().unwrap().iter().map(|v| f64::from_bits(v.as_u64().unwrap())).collect();
            match r.receive(&text("in"), s["time"].as_u64().unwrap(), values) {
                Err(e) => json!({"error": e.to_string()}),
                Ok(m) => {
                    let mut o = Map::new();
                    for (k, list) in m {
                        let list: Vec<Value> = list
                            .iter()
                            .map(|x| json!([x.timestamp, x.values.iter().map(|v| v.to_bits()).collect::<Vec<u64>>()]))
                            .collect();
                        o.insert(k, json!(list));
                    }
                    json!({ "ok": o })
                }
            }
        }
        _ => unreachable!(),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        eprintln!("{}", i);
        std::process::exit(101);
    }));
    let mut out = unsafe { std::fs::File::from_raw_fd(3) };
    for line in std::io::stdin().lock().lines() {
        let scenario: Value = serde_json::from_str(&line.unwrap()).unwrap();
        ffi::reset();
        let all: Arc<Vec<PipelinesRegistry>> =
            Arc::new((0..scenario["registries"].as_u64().unwrap()).map(|_| PipelinesRegistry::new()).collect());
        let mut answers = Vec::new();
        for s in scenario["steps"].as_array().unwrap() {
            let mut a = match s["threads"].as_array() {
                None => step(s, &all),
                Some(threads) => {
                    let gate = Arc::new(Barrier::new(threads.len()));
                    let running: Vec<_> = threads
                        .iter()
                        .map(|t| {
                            let (t, all, gate) = (t.clone(), all.clone(), gate.clone());
                            std::thread::spawn(move || {
                                gate.wait();
                                t.as_array().unwrap().iter().map(|s| step(s, &all)).collect::<Vec<Value>>()
                            })
                        })
                        .collect();
                    json!({"threads": running.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()})
                }
            };
            a["log"] = json!(ffi::taken());
            a["live"] = json!(ffi::live());
            answers.push(a);
        }
        let mut text = serde_json::to_string(&answers).unwrap();
        text.push('\n');
        out.write_all(text.as_bytes()).unwrap();
    }
}
