//! What surrounds the server: its files, the redis server, the input websocket. Before main() runs, this process reads
//! one scenario per line and forks for each; the server of the scenario then runs in the child.
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};
use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender};

static SCENARIO: OnceLock<Value> = OnceLock::new();
static ANSWER: OnceLock<i32> = OnceLock::new();
static ACTIVITY: AtomicU64 = AtomicU64::new(0);

#[derive(Default)]
pub struct State {
    pub events: Vec<Value>,
    pub fail: u64,
    subscribers: Vec<(String, UnboundedSender<String>)>,
    input: Option<UnboundedSender<Result<Value, String>>>,
    pub gone: HashMap<u64, bool>,
    pub slow: HashMap<u64, Vec<std::task::Waker>>,
}

static STATE: OnceLock<Mutex<State>> = OnceLock::new();

pub fn state<R>(f: impl FnOnce(&mut State) -> R) -> R {
    ACTIVITY.fetch_add(1, Ordering::SeqCst);
    f(&mut STATE.get_or_init(Default::default).lock().unwrap_or_else(|e| e.into_inner()))
}

pub fn record(e: Value) {
    state(|s| s.events.push(e));
}

pub fn files() -> BTreeMap<String, String> {
    let v = &SCENARIO.get().unwrap()["files"];
    v.as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect()
}

pub fn steps() -> Vec<Value> {
    SCENARIO.get().unwrap()["steps"].as_array().unwrap().clone()
}

pub fn answer(v: &Value) -> ! {
    let t = v.to_string();
    let mut b = t.as_bytes();
    while !b.is_empty() {
        let n = unsafe { libc::write(*ANSWER.get().unwrap(), b.as_ptr() as *const libc::c_void, b.len()) };
        if n <= 0 {
            break;
        }
        b = &b[n as usize..];
    }
    unsafe { libc::_exit(0) }
}

/// until nothing has happened for a while: there is one worker, it runs whatever is ready before it comes back here
pub async fn quiet() {
    let mut last = ACTIVITY.load(Ordering::SeqCst);
    let mut calm = 0;
    while calm < 60 {
        tokio::task::yield_now().await;
        let now = ACTIVITY.load(Ordering::SeqCst);
        calm = if now == last { calm + 1 } else { 0 };
        last = now;
    }
}

/// the redis server
pub fn redis(name: &str, args: &[String]) -> Result<(), String> {
    let refused = state(|s| {
        let refused = s.fail > 0 && name == "TS.ADD";
        if refused {
            s.fail -= 1;
        }
        s.events.push(json!({"redis": name, "args": args, "refused": refused}));
        refused
    });
    if refused { Err("TSDB: the server is busy".into()) } else { Ok(()) }
}

pub fn subscribe(channel: &str) -> UnboundedReceiver<String> {
    let (tx, rx) = unbounded_channel();
    state(|s| {
        s.events.push(json!({"subscribe": channel}));
        s.subscribers.push((channel.to_string(), tx));
    });
    rx
}

pub fn publish(channel: &str, payload: &str) {
    state(|s| {
        for (c, tx) in &s.subscribers {
            if c == channel {
                let _ = tx.send(payload.to_string());
            }
        }
    });
}

/// the channel the server listens to, if it does
pub fn channel() -> Option<String> {
    state(|s| s.subscribers.first().map(|x| x.0.clone()))
}

pub fn connect(url: &str) -> UnboundedReceiver<Result<Value, String>> {
    let (tx, rx) = unbounded_channel();
    state(|s| {
        s.events.push(json!({"input": url}));
        s.input = Some(tx);
    });
    rx
}

pub fn input(m: Result<Value, String>) {
    state(|s| {
        if let Some(tx) = &s.input {
            let _ = tx.send(m);
        }
    });
}

pub fn end_input() {
    state(|s| s.input = None);
}

extern "C" fn before_main() {
    unsafe {
        // one worker: what is ready runs in the order in which it became ready
        libc::setenv(c"TOKIO_WORKER_THREADS".as_ptr(), c"1".as_ptr(), 1);
        libc::setenv(c"RUST_BACKTRACE".as_ptr(), c"0".as_ptr(), 1);
        loop {
            let mut line = String::new();
            if std::io::stdin().read_line(&mut line).unwrap_or(0) == 0 {
                libc::_exit(0);
            }
            let mut p = [0i32; 2];
            if libc::pipe(p.as_mut_ptr()) != 0 {
                libc::_exit(3);
            }
            let pid = libc::fork();
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::close(p[0]);
                libc::alarm(15);
                let _ = SCENARIO.set(serde_json::from_str(&line).unwrap());
                let _ = ANSWER.set(p[1]);
                return;
            }
            libc::close(p[1]);
            let mut all: Vec<u8> = vec![];
            let mut buf = [0u8; 65536];
            loop {
                let n = libc::read(p[0], buf.as_mut_ptr() as *mut libc::c_void, buf.len());
                if n <= 0 {
                    break;
                }
                all.extend_from_slice(&buf[..n as usize]);
            }
            libc::close(p[0]);
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
            if all.is_empty() {
                let how = if libc::WIFSIGNALED(st) { format!("signal {}", libc::WTERMSIG(st)) } else { format!("code {}", libc::WEXITSTATUS(st)) };
                all = json!({"died": how}).to_string().into_bytes();
            }
            all.push(b'\n');
            let mut b = &all[..];
            while !b.is_empty() {
                let n = libc::write(3, b.as_ptr() as *const libc::c_void, b.len());
                if n <= 0 {
                    libc::_exit(0);
                }
                b = &b[n as usize..];
            }
        }
    }
}

#[used]
#[link_section = ".init_array"]
static BEFORE_MAIN: extern "C" fn() = before_main;
