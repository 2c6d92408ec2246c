//! Stand-in for the bridge to the native engine: records the calls and runs programs of a simple kind.
pub mod ffi {
    use serde_json::{json, Value};
    use std::collections::BTreeMap;
    use std::sync::Mutex;

    #[derive(Debug)]
    pub struct RtBotMessage {
        pub timestamp: u64,
        pub values: Vec<f64>,
    }

    struct Pipeline {
        gain: f64,
        every: u64,
        burst: u64,
        lag: u64,
        seen: u64,
        sum: f64,
    }

    static PIPELINES: Mutex<BTreeMap<String, Pipeline>> = Mutex::new(BTreeMap::new());
    static LOG: Mutex<Vec<Value>> = Mutex::new(Vec::new());

    pub fn reset() {
        PIPELINES.lock().unwrap().clear();
        LOG.lock().unwrap().clear();
    }
    pub fn taken() -> Vec<Value> {
        std::mem::take(&mut *LOG.lock().unwrap())
    }
    pub fn live() -> Vec<String> {
        PIPELINES.lock().unwrap().keys().cloned().collect()
    }

    pub fn create_pipeline(id: String, program: String) -> String {
        LOG.lock().unwrap().push(json!(["create", id, program]));
        let def: Value = match serde_json::from_str(&program) {
            Ok(v) => v,
            Err(_) => return "the program is no json".to_string(),
        };
        if let Some(reason) = def["refuse"].as_str() {
            return reason.to_string();
        }
        let mut all = PIPELINES.lock().unwrap();
        if all.contains_key(&id) {
            return "the id is taken".to_string();
        }
        all.insert(
            id,
            Pipeline {
                gain: def["gain"].as_f64().unwrap_or(1.0),
                every: def["every"].as_u64().unwrap_or(1).max(1),
                burst: def["burst"].as_u64().unwrap_or(1),
                lag: def["lag"].as_u64().unwrap_or(0),
                seen: 0,
                sum: 0.0,
            },
        );
        String::new()
    }

    pub fn delete_pipeline(id: String) -> String {
        LOG.lock().unwrap().push(json!(["delete", id]));
        match PIPELINES.lock().unwrap().remove(&id) {
            Some(_) => String::new(),
            None => "there is no such pipeline".to_string(),
        }
    }

    pub fn receive_message_in_pipeline(id: String, message: RtBotMessage) -> Vec<RtBotMessage> {
        let bits: Vec<u64> = message.values.iter().map(|v| v.to_bits()).collect();
        LOG.lock().unwrap().push(json!(["receive", id, message.timestamp, bits]));
        let mut all = PIPELINES.lock().unwrap();
        let p = match all.get_mut(&id) {
            Some(p) => p,
            None => return Vec::new(),
        };
        p.seen += 1;
        for v in &message.values {
            p.sum += *v;
        }
        if p.seen % p.every != 0 {
            return Vec::new();
        }
        (0..p.burst)
            .map(|i| RtBotMessage {
                timestamp: message.timestamp.saturating_sub(p.lag + i),
                values: vec![p.sum * p.gain, p.seen as f64],
            })
            .collect()
    }
}
