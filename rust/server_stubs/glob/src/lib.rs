//! Stand-in for the glob crate over the files of the scenario: "dir/*".
use std::path::PathBuf;

#[derive(Debug)]
pub struct PatternError;
#[derive(Debug)]
pub struct GlobError;

pub fn glob(pattern: &str) -> Result<std::vec::IntoIter<Result<PathBuf, GlobError>>, PatternError> {
    let dir = pattern.strip_suffix('*').ok_or(PatternError)?;
    let mut v: Vec<String> = world::files().into_keys().filter(|p| p.strip_prefix(dir).map_or(false, |r| !r.contains('/'))).collect();
    v.sort();
    Ok(v.into_iter().map(|p| Ok(PathBuf::from(p))).collect::<Vec<_>>().into_iter())
}
