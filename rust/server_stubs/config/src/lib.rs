//! Stand-in for the config crate: TOML files, a later one overrides an earlier one key by key.
use serde::de::DeserializeOwned;
use serde_json::Value;
use std::path::PathBuf;

#[derive(Debug)]
pub struct ConfigError(pub String);
impl std::fmt::Display for ConfigError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for ConfigError {}

pub struct File(PathBuf);
impl From<PathBuf> for File {
    fn from(p: PathBuf) -> Self {
        File(p)
    }
}

pub struct Builder(Vec<File>);
pub struct Config(Value);

impl Config {
    pub fn builder() -> Builder {
        Builder(vec![])
    }
    pub fn try_deserialize<T: DeserializeOwned>(self) -> Result<T, ConfigError> {
        serde_json::from_value(self.0).map_err(|e| ConfigError(e.to_string()))
    }
}

fn merge(into: &mut Value, from: Value) {
    match (into, from) {
        (Value::Object(a), Value::Object(b)) => {
            for (k, v) in b {
                merge(a.entry(k).or_insert(Value::Null), v);
            }
        }
        (a, b) => *a = b,
    }
}

impl Builder {
    pub fn add_source(mut self, files: Vec<File>) -> Self {
        self.0.extend(files);
        self
    }
    pub fn build(self) -> Result<Config, ConfigError> {
        let mut all = Value::Object(Default::default());
        let files = world::files();
        for f in self.0 {
            let text = files.get(f.0.to_str().unwrap()).ok_or(ConfigError("no such file".into()))?;
            let v: Value = toml::from_str(text).map_err(|e| ConfigError(e.to_string()))?;
            merge(&mut all, v);
        }
        Ok(Config(all))
    }
}
