//! Stand-in for `lsp-server`: the client is the harness, at the other end of two channels.
use crossbeam::channel::{unbounded, Receiver, Sender};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::cell::RefCell;

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub struct RequestId(i32);
impl From<i32> for RequestId {
    fn from(i: i32) -> Self {
        RequestId(i)
    }
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Message {
    Request(Request),
    Response(Response),
    Notification(Notification),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Request {
    pub id: RequestId,
    pub method: String,
    pub params: Value,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Response {
    pub id: RequestId,
    pub result: Option<Value>,
    pub error: Option<ResponseError>,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ResponseError {
    pub code: i32,
    pub message: String,
    pub data: Option<Value>,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Notification {
    pub method: String,
    pub params: Value,
}
impl Response {
    pub fn new_ok<R: Serialize>(id: RequestId, r: R) -> Self {
        Response { id, result: Some(serde_json::to_value(r).unwrap()), error: None }
    }
    pub fn new_err(id: RequestId, code: i32, message: String) -> Self {
        Response { id, result: None, error: Some(ResponseError { code, message, data: None }) }
    }
}
impl From<Request> for Message {
    fn from(x: Request) -> Self {
        Message::Request(x)
    }
}
impl From<Response> for Message {
    fn from(x: Response) -> Self {
        Message::Response(x)
    }
}
impl From<Notification> for Message {
    fn from(x: Notification) -> Self {
        Message::Notification(x)
    }
}
pub struct Connection {
    pub sender: Sender<Message>,
    pub receiver: Receiver<Message>,
}
pub struct IoThreads;
impl IoThreads {
    pub fn join(self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Connection {
    pub fn memory() -> (Connection, Connection) {
        let (a, b) = (unbounded(), unbounded());
        (Connection { sender: a.0, receiver: b.1 }, Connection { sender: b.0, receiver: a.1 })
    }
    /// What [`mc_client`] set up.
    pub fn stdio() -> (Connection, IoThreads) {
        (NEXT.with(|n| n.borrow_mut().take()).expect("a client"), IoThreads)
    }
}
thread_local!(static NEXT: RefCell<Option<Connection>> = const { RefCell::new(None) });
/// The client's end of the connection the next server will take.
pub fn mc_client() -> Connection {
    let (a, b) = Connection::memory();
    NEXT.with(|n| {
        // (an older one belongs to another execution)
        if let Some(old) = n.borrow_mut().replace(b) {
            std::mem::forget(old)
        }
    });
    a
}
