//! Stand-in for tokio-tungstenite: the input websocket of the scenario.
use futures_util::Stream;
use std::pin::Pin;
use std::task::{Context, Poll};
use world::*;

pub mod tungstenite {
    #[derive(Debug)]
    pub struct Error(pub String);
    pub type Result<T, E = Error> = std::result::Result<T, E>;
    #[derive(Debug)]
    pub enum Message {
        Text(String),
        Binary(Vec<u8>),
        Ping(Vec<u8>),
        Pong(Vec<u8>),
        Close(Option<()>),
    }
}
use tungstenite::{Error, Message};


pub async fn connect_async(
    url: url::Url,
) -> Result<(impl Stream<Item = Result<Message, Error>> + Unpin, ()), Error> {
    let mut rx = connect(url.as_str());
    Ok((
        S(Box::pin(futures_util::stream::poll_fn(move |cx| {
            rx.poll_recv(cx).map(|o| {
                o.map(|r| match r {
                    Ok(v) => Ok(if let Some(t) = v["text"].as_str() {
                        Message::Text(t.to_string())
                    } else if v["binary"].is_string() {
                        Message::Binary(v["binary"].as_str().unwrap().as_bytes().to_vec())
                    } else {
                        Message::Ping(vec![])
                    }),
                    Err(e) => Err(Error(e)),
                })
            })
        }))),
        (),
    ))
}

struct S(Pin<Box<dyn Stream<Item = Result<Message, Error>> + Send>>);
impl Stream for S {
    type Item = Result<Message, Error>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        self.0.as_mut().poll_next(cx)
    }
}
