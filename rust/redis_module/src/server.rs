//! A server in memory: documents, time series, strings, published messages, and the commands and handlers of one module.
use crate::{Context, NotifyEvent, RedisError, RedisResult, RedisString, RedisValue};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;

pub struct Module {
    pub commands: Vec<(&'static str, fn(&Context, Vec<RedisString>) -> RedisResult)>,
    pub handlers: Vec<(&'static [&'static str], fn(&Context, NotifyEvent, &str, &str) -> RedisResult)>,
}

#[derive(Clone)]
pub struct Series {
    pub last_wins: bool,
    pub samples: BTreeMap<u64, f64>,
}
#[derive(Clone)]
pub enum Item {
    Text(String),
    Json(String),
    Series(Series),
}

thread_local! {
    static DB: RefCell<BTreeMap<String, Item>> = RefCell::new(BTreeMap::new());
    static PUBLISHED: RefCell<Vec<(String, String)>> = RefCell::new(Vec::new());
    static ERRORS: RefCell<Vec<String>> = RefCell::new(Vec::new());
    static MODULE: RefCell<Option<Module>> = RefCell::new(None);
    static NOTIFYING: Cell<bool> = Cell::new(false);
}

pub fn load(m: Module) {
    MODULE.with(|x| *x.borrow_mut() = Some(m));
}
pub fn reset() {
    DB.with(|d| d.borrow_mut().clear());
    PUBLISHED.with(|p| p.borrow_mut().clear());
    ERRORS.with(|p| p.borrow_mut().clear());
}
pub fn content() -> BTreeMap<String, Item> {
    DB.with(|d| d.borrow().clone())
}
pub fn published() -> Vec<(String, String)> {
    PUBLISHED.with(|p| std::mem::take(&mut *p.borrow_mut()))
}
/// What the handlers of the module returned as an error.
pub fn errors() -> Vec<String> {
    ERRORS.with(|p| std::mem::take(&mut *p.borrow_mut()))
}
pub fn log(level: &str, message: &str) {
    eprintln!("{}: {}", level, message);
}

fn notify(event: &str, class: &str, key: &str) {
    // a handler is not told about what it does itself
    if NOTIFYING.with(|n| n.replace(true)) {
        return;
    }
    let handlers: Vec<_> = MODULE.with(|m| m.borrow().as_ref().map_or(Vec::new(), |m| m.handlers.clone()));
    for (classes, h) in handlers {
        if classes.iter().any(|c| *c == "ALL" || *c == class) {
            if let Err(e) = h(&Context::dummy(), NotifyEvent { bits: 0 }, event, key) {
                ERRORS.with(|x| x.borrow_mut().push(e.to_string()));
            }
        }
    }
    NOTIFYING.with(|n| n.set(false));
}

fn series<T>(key: &str, f: impl FnOnce(&mut Series) -> Result<T, RedisError>) -> Result<T, RedisError> {
    DB.with(|d| match d.borrow_mut().get_mut(key) {
        Some(Item::Series(s)) => f(s),
        Some(_) => Err(RedisError::WrongType),
        None => Err(RedisError::Str("ERR TSDB: the key does not exist")),
    })
}
fn time(s: &str) -> Result<u64, RedisError> {
    match s.parse::<i64>() {
        Ok(t) if t >= 0 => Ok(t as u64),
        _ => Err(RedisError::Str("ERR TSDB: invalid timestamp, must be a nonnegative integer")),
    }
}
fn sample(t: u64, v: f64) -> RedisValue {
    RedisValue::Array(vec![RedisValue::Integer(t as i64), RedisValue::SimpleString(format!("{}", v))])
}
fn policy(args: &[&str]) -> bool {
    args.windows(2).any(|w| (w[0].eq_ignore_ascii_case("DUPLICATE_POLICY") || w[0].eq_ignore_ascii_case("ON_DUPLICATE")) && w[1].eq_ignore_ascii_case("LAST"))
}
fn ok() -> RedisResult {
    Ok(RedisValue::SimpleString("OK".to_string()))
}

pub fn execute(command: &str, args: &[&str], _from_module: bool) -> RedisResult {
    let name = command.to_ascii_lowercase();
    let own = MODULE.with(|m| m.borrow().as_ref().and_then(|m| m.commands.iter().find(|c| c.0.eq_ignore_ascii_case(&name)).map(|c| c.1)));
    if let Some(f) = own {
        let c = Context::dummy();
        let mut all = vec![RedisString::create(c.ctx, command)];
        all.extend(args.iter().map(|a| RedisString::create(c.ctx, *a)));
        return match f(&c, all)? {
            // a reply that travels through the protocol
            RedisValue::SimpleStringStatic(s) => Ok(RedisValue::SimpleString(s.to_string())),
            RedisValue::BulkString(s) => Ok(RedisValue::SimpleString(s)),
            RedisValue::BulkRedisString(s) => Ok(RedisValue::SimpleString(s.to_string_lossy())),
            RedisValue::StringBuffer(s) => Ok(RedisValue::SimpleString(String::from_utf8_lossy(&s).into_owned())),
            v => Ok(v),
        };
    }
    let arity = |n: usize| if args.len() < n { Err(RedisError::WrongArity) } else { Ok(()) };
    match name.as_str() {
        "set" => {
            arity(2)?;
            DB.with(|d| d.borrow_mut().insert(args[0].to_string(), Item::Text(args[1].to_string())));
            notify("set", "STRING", args[0]);
            ok()
        }
        "json.set" => {
            arity(3)?;
            DB.with(|d| d.borrow_mut().insert(args[0].to_string(), Item::Json(args[2].to_string())));
            notify("json.set", "MODULE", args[0]);
            ok()
        }
        "json.get" => {
            arity(1)?;
            DB.with(|d| match d.borrow().get(args[0]) {
                None => Ok(RedisValue::Null),
                Some(Item::Json(t)) => Ok(RedisValue::SimpleString(t.clone())),
                Some(_) => Err(RedisError::Str("Existing key has wrong Redis type")),
            })
        }
        "exists" => {
            let n = DB.with(|d| args.iter().filter(|k| d.borrow().contains_key(**k)).count());
            Ok(RedisValue::Integer(n as i64))
        }
        "del" | "unlink" => {
            arity(1)?;
            let mut n = 0;
            for k in args {
                if DB.with(|d| d.borrow_mut().remove(*k)).is_some() {
                    n += 1;
                    notify("del", "GENERIC", k);
                }
            }
            Ok(RedisValue::Integer(n))
        }
        "publish" => {
            arity(2)?;
            PUBLISHED.with(|p| p.borrow_mut().push((args[0].to_string(), args[1].to_string())));
            Ok(RedisValue::Integer(0))
        }
        "ts.create" => {
            arity(1)?;
            DB.with(|d| {
                let mut d = d.borrow_mut();
                if d.contains_key(args[0]) {
                    return Err(RedisError::Str("ERR TSDB: key already exists"));
                }
                d.insert(args[0].to_string(), Item::Series(Series { last_wins: policy(&args[1..]), samples: BTreeMap::new() }));
                Ok(())
            })?;
            notify("ts.create", "MODULE", args[0]);
            ok()
        }
        "ts.add" => {
            arity(3)?;
            let t = time(args[1])?;
            let v = args[2].parse::<f64>().map_err(|_| RedisError::Str("ERR TSDB: invalid value"))?;
            DB.with(|d| {
                d.borrow_mut().entry(args[0].to_string()).or_insert(Item::Series(Series { last_wins: policy(&args[3..]), samples: BTreeMap::new() }));
            });
            let over = policy(&args[3..]);
            series(args[0], |s| {
                if s.samples.contains_key(&t) && !s.last_wins && !over {
                    return Err(RedisError::Str("ERR TSDB: Error at upsert, update is not supported when DUPLICATE_POLICY is set to BLOCK mode"));
                }
                s.samples.insert(t, v);
                Ok(())
            })?;
            notify("ts.add", "MODULE", args[0]);
            Ok(RedisValue::Integer(t as i64))
        }
        "ts.get" => {
            arity(1)?;
            series(args[0], |s| Ok(s.samples.iter().next_back().map_or(RedisValue::Array(vec![]), |(t, v)| sample(*t, *v))))
        }
        "ts.range" | "ts.revrange" => {
            arity(3)?;
            let bound = |s: &str, open: u64| if s == "-" || s == "+" { Ok(open) } else { time(s) };
            let (a, b) = (bound(args[1], 0)?, bound(args[2], u64::MAX)?);
            series(args[0], |s| {
                let mut all: Vec<RedisValue> = if a > b { vec![] } else { s.samples.range(a..=b).map(|(t, v)| sample(*t, *v)).collect() };
                if name == "ts.revrange" {
                    all.reverse();
                }
                if let Some(i) = args.iter().position(|x| x.eq_ignore_ascii_case("COUNT")) {
                    all.truncate(args.get(i + 1).and_then(|n| n.parse().ok()).unwrap_or(usize::MAX));
                }
                Ok(RedisValue::Array(all))
            })
        }
        _ => Err(RedisError::String(format!("ERR unknown command '{}'", command))),
    }
}
