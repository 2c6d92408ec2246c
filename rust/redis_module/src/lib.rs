//! Stand-in for the redis-module crate: the types a module is written with, on top of a small server in memory.
use std::fmt;

pub mod server;

#[derive(Debug)]
pub enum RedisError {
    WrongArity,
    WrongType,
    Str(&'static str),
    String(String),
}
impl RedisError {
    pub fn nonexistent_key() -> Self {
        RedisError::Str("ERR could not perform this operation on a key that doesn't exist")
    }
    pub fn short_read() -> Self {
        RedisError::Str("ERR short read or OOM loading DB")
    }
}
impl fmt::Display for RedisError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            RedisError::WrongArity => write!(f, "wrong number of arguments"),
            RedisError::WrongType => write!(f, "WRONGTYPE Operation against a key holding the wrong kind of value"),
            RedisError::Str(s) => write!(f, "{}", s),
            RedisError::String(s) => write!(f, "{}", s),
        }
    }
}
impl<T: std::error::Error> From<T> for RedisError {
    fn from(e: T) -> Self {
        RedisError::String(format!("ERR {}", e))
    }
}

#[derive(Debug, PartialEq, Clone)]
pub enum RedisValue {
    SimpleStringStatic(&'static str),
    SimpleString(String),
    BulkString(String),
    BulkRedisString(RedisString),
    StringBuffer(Vec<u8>),
    Integer(i64),
    Float(f64),
    Array(Vec<RedisValue>),
    Null,
    NoReply,
}
pub const REDIS_OK: RedisResult = Ok(RedisValue::SimpleStringStatic("OK"));
pub type RedisResult = Result<RedisValue, RedisError>;

impl From<()> for RedisValue {
    fn from(_: ()) -> Self {
        RedisValue::Null
    }
}
impl From<i64> for RedisValue {
    fn from(v: i64) -> Self {
        RedisValue::Integer(v)
    }
}
impl From<usize> for RedisValue {
    fn from(v: usize) -> Self {
        RedisValue::Integer(v as i64)
    }
}
impl From<f64> for RedisValue {
    fn from(v: f64) -> Self {
        RedisValue::Float(v)
    }
}
impl From<String> for RedisValue {
    fn from(v: String) -> Self {
        RedisValue::BulkString(v)
    }
}
impl From<&String> for RedisValue {
    fn from(v: &String) -> Self {
        RedisValue::BulkString(v.clone())
    }
}
impl From<&str> for RedisValue {
    fn from(v: &str) -> Self {
        RedisValue::BulkString(v.to_string())
    }
}
impl From<Vec<u8>> for RedisValue {
    fn from(v: Vec<u8>) -> Self {
        RedisValue::StringBuffer(v)
    }
}
impl<T: Into<RedisValue>> From<Option<T>> for RedisValue {
    fn from(v: Option<T>) -> Self {
        v.map_or(RedisValue::Null, |x| x.into())
    }
}
impl<T: Into<RedisValue>> From<Vec<T>> for RedisValue {
    fn from(v: Vec<T>) -> Self {
        RedisValue::Array(v.into_iter().map(|x| x.into()).collect())
    }
}

pub mod raw {
    pub enum RedisModuleCtx {}
}
pub use raw::RedisModuleCtx;

#[derive(Debug, PartialEq, Eq, Clone, PartialOrd, Ord, Hash)]
pub struct RedisString {
    inner: Vec<u8>,
}
impl RedisString {
    pub fn create<T: Into<Vec<u8>>>(_ctx: *mut RedisModuleCtx, s: T) -> Self {
        Self { inner: s.into() }
    }
    pub fn try_as_str(&self) -> Result<&str, RedisError> {
        std::str::from_utf8(&self.inner).map_err(|_| RedisError::Str("Couldn't parse as UTF-8 string"))
    }
    pub fn as_slice(&self) -> &[u8] {
        &self.inner
    }
    pub fn to_string_lossy(&self) -> String {
        String::from_utf8_lossy(&self.inner).into_owned()
    }
    pub fn len(&self) -> usize {
        self.inner.len()
    }
    pub fn is_empty(&self) -> bool {
        self.inner.is_empty()
    }
    pub fn parse_integer(&self) -> Result<i64, RedisError> {
        self.try_as_str()?.parse().map_err(|_| RedisError::Str("Couldn't parse as integer"))
    }
    pub fn parse_float(&self) -> Result<f64, RedisError> {
        self.try_as_str()?.parse().map_err(|_| RedisError::Str("Couldn't parse as float"))
    }
}
impl fmt::Display for RedisString {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.to_string_lossy())
    }
}
impl From<RedisString> for String {
    fn from(s: RedisString) -> String {
        s.to_string_lossy()
    }
}
impl From<RedisString> for RedisValue {
    fn from(s: RedisString) -> RedisValue {
        RedisValue::BulkRedisString(s)
    }
}

pub trait NextArg {
    fn next_arg(&mut self) -> Result<RedisString, RedisError>;
    fn next_string(&mut self) -> Result<String, RedisError> {
        Ok(self.next_arg()?.to_string_lossy())
    }
    fn next_i64(&mut self) -> Result<i64, RedisError> {
        self.next_arg()?.parse_integer()
    }
    fn next_f64(&mut self) -> Result<f64, RedisError> {
        self.next_arg()?.parse_float()
    }
    fn done(&mut self) -> Result<(), RedisError>;
}
impl<T: Iterator<Item = RedisString>> NextArg for T {
    fn next_arg(&mut self) -> Result<RedisString, RedisError> {
        self.next().ok_or(RedisError::WrongArity)
    }
    fn done(&mut self) -> Result<(), RedisError> {
        self.next().map_or(Ok(()), |_| Err(RedisError::WrongArity))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct NotifyEvent {
    pub bits: i32,
}

pub struct Context {
    pub ctx: *mut RedisModuleCtx,
}
impl Context {
    pub fn new(ctx: *mut RedisModuleCtx) -> Self {
        Self { ctx }
    }
    pub fn dummy() -> Self {
        Self { ctx: std::ptr::null_mut() }
    }
    pub fn call(&self, command: &str, args: &[&str]) -> RedisResult {
        server::execute(command, args, true)
    }
    pub fn create_string<T: Into<Vec<u8>>>(&self, s: T) -> RedisString {
        RedisString::create(self.ctx, s)
    }
    pub fn log_debug(&self, m: &str) {
        server::log("debug", m);
    }
    pub fn log_verbose(&self, m: &str) {
        server::log("verbose", m);
    }
    pub fn log_notice(&self, m: &str) {
        server::log("notice", m);
    }
    pub fn log_warning(&self, m: &str) {
        server::log("warning", m);
    }
    pub fn replicate_verbatim(&self) {}
    pub fn auto_memory(&self) {}
}

#[macro_export]
macro_rules! redis_module {
    (
        name: $name:expr,
        version: $version:expr,
        data_types: [$($type:ident),* $(,)*],
        $(init: $init:ident,)* $(,)*
        $(deinit: $deinit:ident,)* $(,)*
        commands: [$([$cname:expr, $chandler:expr, $cflags:expr, $first:expr, $last:expr, $step:expr]),* $(,)*] $(,)*
        $(event_handlers: [$([$(@$event:ident)+ : $ehandler:expr]),* $(,)*] $(,)*)?
    ) => {
        pub fn the_module() -> $crate::server::Module {
            let mut m = $crate::server::Module { commands: Vec::new(), handlers: Vec::new() };
            $( m.commands.push(($cname, $chandler)); )*
            $($( m.handlers.push((&[$(stringify!($event)),+], $ehandler)); )*)?
            m
        }
    };
}
