//! Stand-in for the part of warp the server uses. Serving means running the scenario.
use std::any::Any;
use std::future::Future;
use std::pin::Pin;

#[derive(Debug)]
pub struct Error(pub String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}

pub mod http {
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct StatusCode(pub u16);
    impl StatusCode {
        pub const OK: StatusCode = StatusCode(200);
        pub const SWITCHING_PROTOCOLS: StatusCode = StatusCode(101);
        pub const BAD_REQUEST: StatusCode = StatusCode(400);
        pub const UNAUTHORIZED: StatusCode = StatusCode(401);
        pub const NOT_FOUND: StatusCode = StatusCode(404);
        pub const METHOD_NOT_ALLOWED: StatusCode = StatusCode(405);
        pub const INTERNAL_SERVER_ERROR: StatusCode = StatusCode(500);
    }
}
use http::StatusCode;

pub mod reject {
    use super::Any;
    #[derive(Debug)]
    pub struct MethodNotAllowed;
    #[derive(Debug)]
    pub struct Rejection(pub Option<Box<dyn Any + Send + Sync>>);
    impl Rejection {
        pub fn is_not_found(&self) -> bool {
            self.0.is_none()
        }
        pub fn find<T: 'static>(&self) -> Option<&T> {
            self.0.as_ref().and_then(|b| b.downcast_ref::<T>())
        }
    }
    pub fn not_found() -> Rejection {
        Rejection(None)
    }
}
pub use reject::Rejection;

pub type Upgrade = Pin<Box<dyn Future<Output = ()> + Send>>;
pub struct Response {
    pub code: StatusCode,
    pub body: String,
    pub upgrade: Option<Upgrade>,
}

pub mod reply {
    use super::*;
    pub trait Reply: Send {
        fn into_response(self) -> Response;
    }
    impl Reply for String {
        fn into_response(self) -> Response {
            Response { code: StatusCode::OK, body: self, upgrade: None }
        }
    }
    impl Reply for Response {
        fn into_response(self) -> Response {
            self
        }
    }
    pub struct Json(String);
    pub fn json<T: serde::Serialize>(t: &T) -> Json {
        Json(serde_json::to_string(t).unwrap())
    }
    impl Reply for Json {
        fn into_response(self) -> Response {
            self.0.into_response()
        }
    }
    pub struct WithStatus<R>(R, StatusCode);
    pub fn with_status<R: Reply>(r: R, code: StatusCode) -> WithStatus<R> {
        WithStatus(r, code)
    }
    impl<R: Reply> Reply for WithStatus<R> {
        fn into_response(self) -> Response {
            Response { code: self.1, ..self.0.into_response() }
        }
    }
}
pub use reply::Reply;

pub struct Request {
    segments: Vec<String>,
    at: usize,
    client: Option<u64>,
}

pub trait Func<A>: Send + Sync {
    type Output;
    fn call(&self, a: A) -> Self::Output;
}
impl<R, F: Fn() -> R + Send + Sync> Func<()> for F {
    type Output = R;
    fn call(&self, _: ()) -> R {
        self()
    }
}
impl<A, R, F: Fn(A) -> R + Send + Sync> Func<(A,)> for F {
    type Output = R;
    fn call(&self, a: (A,)) -> R {
        self(a.0)
    }
}
impl<A, B, R, F: Fn(A, B) -> R + Send + Sync> Func<(A, B)> for F {
    type Output = R;
    fn call(&self, a: (A, B)) -> R {
        self(a.0, a.1)
    }
}

pub trait Combine<B> {
    type Output;
    fn combine(self, b: B) -> Self::Output;
}
impl Combine<()> for () {
    type Output = ();
    fn combine(self, _: ()) {}
}
impl<A> Combine<(A,)> for () {
    type Output = (A,);
    fn combine(self, b: (A,)) -> (A,) {
        b
    }
}
impl<A> Combine<()> for (A,) {
    type Output = (A,);
    fn combine(self, _: ()) -> (A,) {
        self
    }
}
impl<A, B> Combine<(B,)> for (A,) {
    type Output = (A, B);
    fn combine(self, b: (B,)) -> (A, B) {
        (self.0, b.0)
    }
}

pub trait Filter: Send + Sync + Sized {
    type Extract;
    fn filter(&self, r: &mut Request) -> Result<Self::Extract, Rejection>;
    fn map<F: Func<Self::Extract>>(self, f: F) -> Map<Self, F> {
        Map(self, f)
    }
    fn and<B: Filter>(self, b: B) -> And<Self, B> {
        And(self, b)
    }
    fn or<B: Filter>(self, b: B) -> Or<Self, B> {
        Or(self, b)
    }
    fn with(self, _: Cors) -> Self {
        self
    }
    fn recover<F>(self, f: F) -> Recover<Self, F> {
        Recover(self, f)
    }
}
pub struct Map<A, F>(A, F);
impl<A: Filter, F: Func<A::Extract>> Filter for Map<A, F> {
    type Extract = (F::Output,);
    fn filter(&self, r: &mut Request) -> Result<Self::Extract, Rejection> {
        Ok((self.1.call(self.0.filter(r)?),))
    }
}
pub struct And<A, B>(A, B);
impl<A: Filter, B: Filter> Filter for And<A, B>
where
    A::Extract: Combine<B::Extract>,
{
    type Extract = <A::Extract as Combine<B::Extract>>::Output;
    fn filter(&self, r: &mut Request) -> Result<Self::Extract, Rejection> {
        let a = self.0.filter(r)?;
        Ok(a.combine(self.1.filter(r)?))
    }
}
pub struct Or<A, B>(A, B);
impl<A: Filter<Extract = (X,)>, B: Filter<Extract = (Y,)>, X: Reply, Y: Reply> Filter for Or<A, B> {
    type Extract = (Response,);
    fn filter(&self, r: &mut Request) -> Result<Self::Extract, Rejection> {
        let at = r.at;
        match self.0.filter(r) {
            Ok(x) => Ok((x.0.into_response(),)),
            Err(_) => {
                r.at = at;
                self.1.filter(r).map(|y| (y.0.into_response(),))
            }
        }
    }
}
pub struct Recover<A, F>(A, F);

pub struct Path(&'static str);
pub fn path(p: &'static str) -> Path {
    Path(p)
}
impl Filter for Path {
    type Extract = ();
    fn filter(&self, r: &mut Request) -> Result<(), Rejection> {
        if r.segments.get(r.at).map(|s| s.as_str()) == Some(self.0) {
            r.at += 1;
            Ok(())
        } else {
            Err(reject::not_found())
        }
    }
}
pub struct AnyFilter;
pub fn any() -> AnyFilter {
    AnyFilter
}
impl Filter for AnyFilter {
    type Extract = ();
    fn filter(&self, _: &mut Request) -> Result<(), Rejection> {
        Ok(())
    }
}
#[derive(Clone)]
pub struct Cors;
pub fn cors() -> Cors {
    Cors
}
impl Cors {
    pub fn allow_any_origin(self) -> Self {
        self
    }
}

pub mod filters {
    pub mod body {
        #[derive(Debug)]
        pub struct BodyDeserializeError;
    }
    pub mod ws {
        pub use crate::wsock::{Message, WebSocket, Ws};
    }
}
pub mod ws {
    pub use crate::wsock::{Message, WebSocket, Ws};
}
#[derive(Debug)]
pub struct MissingHeader;
pub struct WsFilter;
pub fn ws() -> WsFilter {
    WsFilter
}
impl Filter for WsFilter {
    type Extract = (wsock::Ws,);
    fn filter(&self, r: &mut Request) -> Result<Self::Extract, Rejection> {
        match r.client {
            Some(c) => Ok((wsock::Ws(c),)),
            None => Err(Rejection(Some(Box::new(MissingHeader)))),
        }
    }
}

mod wsock {
    use super::*;
    use futures_util::{Sink, Stream};
    use serde_json::json;
    use std::task::{Context, Poll};
    pub struct Ws(pub u64);
    impl Ws {
        pub fn on_upgrade<F, U>(self, f: F) -> Response
        where
            F: FnOnce(WebSocket) -> U + Send + 'static,
            U: Future<Output = ()> + Send + 'static,
        {
            let id = self.0;
            Response { code: StatusCode::SWITCHING_PROTOCOLS, body: String::new(), upgrade: Some(Box::pin(async move { f(WebSocket(id)).await })) }
        }
    }
    #[derive(Debug, Clone)]
    pub struct Message(String);
    impl Message {
        pub fn text<S: Into<String>>(s: S) -> Message {
            Message(s.into())
        }
    }
    pub struct WebSocket(u64);
    impl Stream for WebSocket {
        type Item = Result<Message, Error>;
        fn poll_next(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Self::Item>> {
            Poll::Pending
        }
    }
    impl Sink<Message> for WebSocket {
        type Error = Error;
        fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
            world::state(|s| {
                if s.gone.contains_key(&self.0) {
                    return Poll::Ready(Err(Error("Connection closed normally".into())));
                }
                match s.slow.get_mut(&self.0) {
                    Some(w) => {
                        w.push(cx.waker().clone());
                        Poll::Pending
                    }
                    None => Poll::Ready(Ok(())),
                }
            })
        }
        fn start_send(self: Pin<&mut Self>, m: Message) -> Result<(), Error> {
            world::record(json!({"client": self.0, "text": m.0}));
            Ok(())
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Error>> {
            Poll::Ready(Ok(()))
        }
        fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Error>> {
            Poll::Ready(Ok(()))
        }
    }
}

pub struct Server<F>(F);
pub fn serve<F>(f: F) -> Server<F> {
    Server(f)
}

impl<A, F, U, X, E> Server<Recover<A, F>>
where
    A: Filter<Extract = (X,)> + 'static,
    X: Reply,
    F: Fn(Rejection) -> U + Send + Sync + 'static,
    U: Future<Output = Result<E, std::convert::Infallible>> + Send,
    E: Reply,
{
    async fn one(routes: &Recover<A, F>, path: &str, client: Option<u64>) -> Response {
        let mut r = Request { segments: path.split('/').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(), at: 0, client };
        let got = routes.0.filter(&mut r);
        match got {
            Ok(x) => x.0.into_response(),
            Err(e) => routes.1(e).await.unwrap().into_response(),
        }
    }

    pub async fn run(self, addr: std::net::SocketAddr) {
        let _ = tokio::spawn(async move { Self::scenario(self.0, addr).await }).await;
    }

    async fn scenario(routes: Recover<A, F>, addr: std::net::SocketAddr) {
        use serde_json::{json, Value};
        world::quiet().await;
        let mut all: Vec<Value> = vec![json!({"port": addr.port(), "events": world::state(|s| std::mem::take(&mut s.events))})];
        for step in world::steps() {
            let mut replies: Vec<Value> = vec![];
            for e in step.as_array().unwrap() {
                if e["text"].is_string() || e["binary"].is_string() || e["ping"].is_boolean() {
                    world::input(Ok(e.clone()));
                } else if e["broken"].is_boolean() {
                    world::input(Err("Connection reset without closing handshake".into()));
                } else if e["end"].is_boolean() {
                    world::end_input();
                } else if let Some(p) = e["publish"].as_str() {
                    match e["elsewhere"].as_str() {
                        Some(c) => world::publish(c, p),
                        None => {
                            if let Some(c) = world::channel() {
                                world::publish(&c, p)
                            }
                        }
                    }
                } else if let Some(n) = e["fail"].as_u64() {
                    world::state(|s| s.fail = n);
                } else if let Some(n) = e["leave"].as_u64() {
                    world::state(|s| {
                        s.gone.insert(n, true);
                        for w in s.slow.remove(&n).unwrap_or_default() {
                            w.wake();
                        }
                    });
                } else if let Some(n) = e["slow"].as_u64() {
                    world::state(|s| {
                        s.slow.entry(n).or_default();
                    });
                } else if let Some(n) = e["awake"].as_u64() {
                    world::state(|s| {
                        for w in s.slow.remove(&n).unwrap_or_default() {
                            w.wake();
                        }
                    });
                } else if let Some(p) = e["get"].as_str() {
                    let r = Self::one(&routes, p, e["client"].as_u64()).await;
                    replies.push(json!({"code": r.code.0, "body": r.body}));
                    if let Some(u) = r.upgrade {
                        tokio::spawn(u);
                    }
                }
            }
            world::quiet().await;
            all.push(json!({"replies": replies, "events": world::state(|s| std::mem::take(&mut s.events))}));
        }
        world::answer(&json!({"steps": all}));
    }
}
