//! Stand-in for jsonpath-rust 0.2: the root, members and elements; find() gives the matches, or null if there is none.
use serde_json::Value;

pub struct JsonPathFinder {
    json: Value,
    path: Vec<Step>,
}

enum Step {
    Member(String),
    Element(usize),
}

fn parse(path: &str) -> Result<Vec<Step>, String> {
    let bad = || format!("cannot parse the path {}", path);
    let mut r = vec![];
    let mut s = path.strip_prefix('$').ok_or_else(bad)?;
    while !s.is_empty() {
        if let Some(t) = s.strip_prefix("['") {
            let e = t.find("']").ok_or_else(bad)?;
            r.push(Step::Member(t[..e].to_string()));
            s = &t[e + 2..];
        } else if let Some(t) = s.strip_prefix('[') {
            let e = t.find(']').ok_or_else(bad)?;
            r.push(Step::Element(t[..e].parse().map_err(|_| bad())?));
            s = &t[e + 1..];
        } else if let Some(t) = s.strip_prefix('.') {
            let e = t.find(['.', '[']).unwrap_or(t.len());
            if e == 0 {
                return Err(bad());
            }
            r.push(Step::Member(t[..e].to_string()));
            s = &t[e..];
        } else {
            return Err(bad());
        }
    }
    Ok(r)
}

impl JsonPathFinder {
    pub fn from_str(json: &str, path: &str) -> Result<Self, String> {
        Ok(JsonPathFinder { json: serde_json::from_str(json).map_err(|e| e.to_string())?, path: parse(path)? })
    }
    pub fn find(&self) -> Value {
        let mut v = &self.json;
        for s in &self.path {
            let n = match s {
                Step::Member(k) => v.as_object().and_then(|o| o.get(k)),
                Step::Element(i) => v.as_array().and_then(|a| a.get(*i)),
            };
            match n {
                Some(x) => v = x,
                None => return Value::Null,
            }
        }
        Value::Array(vec![v.clone()])
    }
}
