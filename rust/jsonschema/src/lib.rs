//! Stand-in for the jsonschema crate: the keywords of draft 7 a program schema may use.
use serde_json::Value;
use std::fmt;

#[derive(Debug, Clone)]
pub struct ValidationError {
    what: String,
    pub instance_path: String,
}
impl fmt::Display for ValidationError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.what)
    }
}
impl std::error::Error for ValidationError {}

pub type ErrorIterator = Box<dyn Iterator<Item = ValidationError>>;

#[derive(Debug)]
pub struct JSONSchema {
    schema: Value,
}

fn kind(v: &Value, name: &str) -> bool {
    match name {
        "object" => v.is_object(),
        "array" => v.is_array(),
        "string" => v.is_string(),
        "boolean" => v.is_boolean(),
        "null" => v.is_null(),
        "number" => v.is_number(),
        "integer" => v.is_i64() || v.is_u64() || v.as_f64().map_or(false, |d| d.fract() == 0.0),
        _ => false,
    }
}

fn check(s: &Value, v: &Value, path: &str, out: &mut Vec<ValidationError>) {
    let mut bad = |what: String| {
        out.push(ValidationError { what, instance_path: path.to_string() });
    };
    let s = match s {
        Value::Bool(true) => return,
        Value::Bool(false) => return bad(format!("{} is not allowed", v)),
        Value::Object(s) => s,
        _ => return,
    };
    match &s.get("type") {
        Some(Value::String(t)) if !kind(v, t) => bad(format!("{} is not of type {}", v, t)),
        Some(Value::Array(ts)) if !ts.iter().any(|t| kind(v, t.as_str().unwrap_or(""))) => bad(format!("{} is of no type of {:?}", v, ts)),
        _ => {}
    }
    if let Some(Value::Array(e)) = s.get("enum") {
        if !e.contains(v) {
            bad(format!("{} is not one of {:?}", v, e));
        }
    }
    if let Some(c) = s.get("const") {
        if c != v {
            bad(format!("{} is not {}", v, c));
        }
    }
    if let Some(n) = v.as_f64() {
        for (k, ok) in [
            ("minimum", (|a, b| a >= b) as fn(f64, f64) -> bool),
            ("maximum", |a, b| a <= b),
            ("exclusiveMinimum", |a, b| a > b),
            ("exclusiveMaximum", |a, b| a < b),
        ] {
            if let Some(m) = s.get(k).and_then(|m| m.as_f64()) {
                if !ok(n, m) {
                    bad(format!("{} breaks {} {}", v, k, m));
                }
            }
        }
    }
    let size = |k: &str| s.get(k).and_then(|m| m.as_u64()).map(|m| m as usize);
    if let Some(t) = v.as_str() {
        let n = t.chars().count();
        if size("minLength").map_or(false, |m| n < m) || size("maxLength").map_or(false, |m| n > m) {
            bad(format!("{} has the wrong length", v));
        }
    }
    if let Some(a) = v.as_array() {
        if size("minItems").map_or(false, |m| a.len() < m) || size("maxItems").map_or(false, |m| a.len() > m) {
            bad(format!("{} has the wrong number of items", v));
        }
    }
    if let (Some(Value::Array(r)), Some(o)) = (s.get("required"), v.as_object()) {
        for k in r {
            if !o.contains_key(k.as_str().unwrap_or("")) {
                bad(format!("{} is a required property", k));
            }
        }
    }
    for (word, any) in [("allOf", 0), ("anyOf", 1), ("oneOf", 2)] {
        if let Some(Value::Array(all)) = s.get(word) {
            let fit = all
                .iter()
                .filter(|x| {
                    let mut e = Vec::new();
                    check(x, v, path, &mut e);
                    e.is_empty()
                })
                .count();
            if (any == 0 && fit != all.len()) || (any == 1 && fit == 0) || (any == 2 && fit != 1) {
                bad(format!("{} does not fit {}", v, word));
            }
        }
    }
    if let Some(n) = s.get("not") {
        let mut e = Vec::new();
        check(n, v, path, &mut e);
        if e.is_empty() {
            bad(format!("{} is not allowed", v));
        }
    }
    if let Some(o) = v.as_object() {
        let known = s.get("properties").and_then(|p| p.as_object());
        for (k, x) in o {
            let at = format!("{}/{}", path, k);
            if let Some(p) = known.and_then(|p| p.get(k)) {
                check(p, x, &at, out);
            } else if let Some(p) = s.get("additionalProperties") {
                if p == &Value::Bool(false) {
                    out.push(ValidationError { what: format!("unexpected property {}", k), instance_path: path.to_string() });
                } else {
                    check(p, x, &at, out);
                }
            }
        }
    }
    if let (Some(i), Some(a)) = (s.get("items"), v.as_array()) {
        for (n, x) in a.iter().enumerate() {
            check(i, x, &format!("{}/{}", path, n), out);
        }
    }
}

impl JSONSchema {
    pub fn compile(schema: &Value) -> Result<Self, ValidationError> {
        Ok(Self { schema: schema.clone() })
    }
    pub fn options() -> CompilationOptions {
        CompilationOptions
    }
    pub fn validate(&self, v: &Value) -> Result<(), ErrorIterator> {
        let mut out = Vec::new();
        check(&self.schema, v, "", &mut out);
        if out.is_empty() {
            Ok(())
        } else {
            Err(Box::new(out.into_iter()))
        }
    }
    pub fn is_valid(&self, v: &Value) -> bool {
        self.validate(v).is_ok()
    }
}

pub struct CompilationOptions;
impl CompilationOptions {
    pub fn compile(&self, schema: &Value) -> Result<JSONSchema, ValidationError> {
        JSONSchema::compile(schema)
    }
}
