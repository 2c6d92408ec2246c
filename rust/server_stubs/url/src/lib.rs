//! Stand-in for the url crate.
pub struct Url(pub String);
impl Url {
    pub fn parse(s: &str) -> Result<Url, String> {
        if s.contains("://") { Ok(Url(s.to_string())) } else { Err(format!("relative URL without a base: {}", s)) }
    }
    pub fn as_str(&self) -> &str {
        &self.0
    }
}
