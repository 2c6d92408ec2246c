//! Stand-in for the redis crate: commands go to the server of the scenario.
use futures_util::{stream::poll_fn, Stream};

#[derive(Debug)]
pub struct RedisError(pub String);
impl std::fmt::Display for RedisError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for RedisError {}
pub type RedisResult<T> = Result<T, RedisError>;

pub trait ToRedisArgs {
    fn text(&self) -> String;
}
impl ToRedisArgs for str {
    fn text(&self) -> String {
        self.to_string()
    }
}
impl ToRedisArgs for String {
    fn text(&self) -> String {
        self.clone()
    }
}
impl<T: ToRedisArgs + ?Sized> ToRedisArgs for &T {
    fn text(&self) -> String {
        (**self).text()
    }
}
macro_rules! number {
    ($($t:ty),*) => {$(impl ToRedisArgs for $t { fn text(&self) -> String { format!("{:?}", self) } })*};
}
number!(u8, i32, u32, i64, u64, usize, f32, f64);

pub trait FromRedisValue: Sized {
    fn from(s: &str) -> Self;
}
impl FromRedisValue for () {
    fn from(_: &str) {}
}
impl FromRedisValue for String {
    fn from(s: &str) -> Self {
        s.to_string()
    }
}

pub struct Cmd(String, Vec<String>);
pub fn cmd(name: &str) -> Cmd {
    Cmd(name.to_string(), vec![])
}
impl Cmd {
    pub fn arg<T: ToRedisArgs>(&mut self, a: T) -> &mut Self {
        self.1.push(a.text());
        self
    }
    pub async fn query_async<C, T: FromRedisValue>(&self, _con: &mut C) -> RedisResult<T> {
        tokio::task::yield_now().await;
        let r = world::redis(&self.0, &self.1).map_err(RedisError);
        tokio::task::yield_now().await;
        r.map(|_| T::from("OK"))
    }
}

pub struct Client;
impl Client {
    pub fn open(url: &str) -> RedisResult<Client> {
        if url.starts_with("redis://") { Ok(Client) } else { Err(RedisError(format!("Redis URL did not parse: {}", url))) }
    }
    pub async fn get_async_connection(&self) -> RedisResult<aio::Connection> {
        tokio::task::yield_now().await;
        Ok(aio::Connection)
    }
}

pub struct Msg(String, String);
impl Msg {
    pub fn get_payload<T: FromRedisValue>(&self) -> RedisResult<T> {
        Ok(T::from(&self.1))
    }
    pub fn get_channel_name(&self) -> &str {
        &self.0
    }
}

pub mod aio {
    use super::*;
    pub struct Connection;
    impl Connection {
        pub fn into_pubsub(self) -> PubSub {
            PubSub(vec![])
        }
    }
    pub struct PubSub(Vec<(String, Box<dyn FnMut(&mut std::task::Context<'_>) -> std::task::Poll<Option<String>> + Send>)>);
    impl PubSub {
        pub async fn subscribe<T: ToRedisArgs>(&mut self, channel: T) -> RedisResult<()> {
            let name = channel.text();
            let mut rx = world::subscribe(&name);
            self.0.push((name, Box::new(move |cx| rx.poll_recv(cx))));
            Ok(())
        }
        pub fn on_message(&mut self) -> impl Stream<Item = Msg> + '_ {
            poll_fn(move |cx| {
                for (name, f) in self.0.iter_mut() {
                    if let std::task::Poll::Ready(Some(m)) = f(cx) {
                        return std::task::Poll::Ready(Some(Msg(name.clone(), m)));
                    }
                }
                std::task::Poll::Pending
            })
        }
    }
}
