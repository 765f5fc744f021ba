//! Stand-in for `lsp-server` 0.8.
use crossbeam_channel::{Receiver, Sender, bounded, unbounded};
use serde::{Deserialize, Serialize, de::DeserializeOwned};
use serde_json::Value;
use std::collections::HashMap;
use std::fmt;
use std::io::{self, BufRead, Write};

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
#[serde(transparent)]
pub struct RequestId(IdRepr);
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
#[serde(untagged)]
enum IdRepr {
    I32(i32),
    String(String),
}
impl From<i32> for RequestId {
    fn from(id: i32) -> RequestId {
        RequestId(IdRepr::I32(id))
    }
}
impl From<String> for RequestId {
    fn from(id: String) -> RequestId {
        RequestId(IdRepr::String(id))
    }
}
impl fmt::Display for RequestId {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.0 {
            IdRepr::I32(it) => fmt::Display::fmt(it, f),
            IdRepr::String(it) => fmt::Debug::fmt(it, f),
        }
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Message {
    Request(Request),
    Response(Response),
    Notification(Notification),
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Request {
    pub id: RequestId,
    pub method: String,
    #[serde(default = "Value::default", skip_serializing_if = "Value::is_null")]
    pub params: Value,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Response {
    pub id: RequestId,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub result: Option<Value>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub error: Option<ResponseError>,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ResponseError {
    pub code: i32,
    pub message: String,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub data: Option<Value>,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Notification {
    pub method: String,
    #[serde(default = "Value::default", skip_serializing_if = "Value::is_null")]
    pub params: Value,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[non_exhaustive]
pub enum ErrorCode {
    ParseError = -32700,
    InvalidRequest = -32600,
    MethodNotFound = -32601,
    InvalidParams = -32602,
    InternalError = -32603,
    ServerErrorStart = -32099,
    ServerErrorEnd = -32000,
    ServerNotInitialized = -32002,
    UnknownErrorCode = -32001,
    RequestCanceled = -32800,
    ContentModified = -32801,
    ServerCancelled = -32802,
    RequestFailed = -32803,
}

#[derive(Debug)]
pub enum ExtractError<T> {
    MethodMismatch(T),
    JsonError { method: String, error: serde_json::Error },
}
impl<T: fmt::Debug> fmt::Display for ExtractError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl<T: fmt::Debug> std::error::Error for ExtractError<T> {}

impl Request {
    pub fn new<P: Serialize>(id: RequestId, method: String, params: P) -> Request {
        Request { id, method, params: serde_json::to_value(params).unwrap() }
    }
    pub fn extract<P: DeserializeOwned>(self, method: &str) -> Result<(RequestId, P), ExtractError<Request>> {
        if self.method != method {
            return Err(ExtractError::MethodMismatch(self));
        }
        match serde_json::from_value(self.params) {
            Ok(p) => Ok((self.id, p)),
            Err(error) => Err(ExtractError::JsonError { method: self.method, error }),
        }
    }
}
impl Response {
    pub fn new_ok<R: Serialize>(id: RequestId, result: R) -> Response {
        Response { id, result: Some(serde_json::to_value(result).unwrap()), error: None }
    }
    pub fn new_err(id: RequestId, code: i32, message: String) -> Response {
        Response { id, result: None, error: Some(ResponseError { code, message, data: None }) }
    }
}
impl Notification {
    pub fn new(method: String, params: impl Serialize) -> Notification {
        Notification { method, params: serde_json::to_value(params).unwrap() }
    }
    pub fn extract<P: DeserializeOwned>(self, method: &str) -> Result<P, ExtractError<Notification>> {
        if self.method != method {
            return Err(ExtractError::MethodMismatch(self));
        }
        match serde_json::from_value(self.params) {
            Ok(p) => Ok(p),
            Err(error) => Err(ExtractError::JsonError { method: self.method, error }),
        }
    }
}
impl From<Request> for Message {
    fn from(r: Request) -> Message {
        Message::Request(r)
    }
}
impl From<Response> for Message {
    fn from(r: Response) -> Message {
        Message::Response(r)
    }
}
impl From<Notification> for Message {
    fn from(r: Notification) -> Message {
        Message::Notification(r)
    }
}
impl Message {
    pub fn read(r: &mut impl BufRead) -> io::Result<Option<Message>> {
        let mut size = None;
        let mut buf = String::new();
        loop {
            buf.clear();
            if r.read_line(&mut buf)? == 0 {
                return Ok(None);
            }
            let line = buf.trim_end();
            if line.is_empty() {
                break;
            }
            if let Some((k, v)) = line.split_once(": ")
                && k.eq_ignore_ascii_case("content-length")
            {
                size = v.parse::<usize>().ok();
            }
        }
        let size = size.ok_or_else(|| io::Error::new(io::ErrorKind::InvalidData, "no Content-Length"))?;
        let mut body = vec![0; size];
        io::Read::read_exact(r, &mut body)?;
        serde_json::from_slice(&body).map(Some).map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
    }
    pub fn write(self, w: &mut impl Write) -> io::Result<()> {
        #[derive(Serialize)]
        struct JsonRpc {
            jsonrpc: &'static str,
            #[serde(flatten)]
            msg: Message,
        }
        let text = serde_json::to_string(&JsonRpc { jsonrpc: "2.0", msg: self })?;
        write!(w, "Content-Length: {}\r\n\r\n", text.len())?;
        w.write_all(text.as_bytes())?;
        w.flush()
    }
}

#[derive(Debug)]
pub struct ProtocolError(String, bool);
impl ProtocolError {
    pub fn channel_is_disconnected(&self) -> bool {
        self.1
    }
}
impl fmt::Display for ProtocolError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for ProtocolError {}

pub struct Connection {
    pub sender: Sender<Message>,
    pub receiver: Receiver<Message>,
}
pub struct IoThreads {
    reader: std::thread::JoinHandle<io::Result<()>>,
    writer: std::thread::JoinHandle<io::Result<()>>,
}
impl IoThreads {
    pub fn join(self) -> io::Result<()> {
        self.reader.join().map_err(|_| io::Error::other("reader panicked"))??;
        self.writer.join().map_err(|_| io::Error::other("writer panicked"))?
    }
}
impl Connection {
    pub fn stdio() -> (Connection, IoThreads) {
        let (ws, wr) = bounded::<Message>(0);
        let writer = std::thread::spawn(move || {
            let mut out = io::stdout().lock();
            wr.into_iter().try_for_each(|m| m.write(&mut out))
        });
        let (rs, rr) = bounded::<Message>(0);
        let reader = std::thread::spawn(move || {
            let mut inp = io::stdin().lock();
            while let Some(m) = Message::read(&mut inp)? {
                let exit = matches!(&m, Message::Notification(n) if n.method == "exit");
                if rs.send(m).is_err() {
                    return Err(io::Error::other("failed to send message"));
                }
                if exit {
                    break;
                }
            }
            Ok(())
        });
        (Connection { sender: ws, receiver: rr }, IoThreads { reader, writer })
    }
    pub fn memory() -> (Connection, Connection) {
        let (s1, r1) = unbounded();
        let (s2, r2) = unbounded();
        (Connection { sender: s1, receiver: r2 }, Connection { sender: s2, receiver: r1 })
    }
    pub fn initialize_start(&self) -> Result<(RequestId, Value), ProtocolError> {
        loop {
            match self.receiver.recv() {
                Ok(Message::Request(r)) if r.method == "initialize" => return Ok((r.id, r.params)),
                Ok(Message::Request(r)) => {
                    let resp = Response::new_err(r.id, ErrorCode::ServerNotInitialized as i32, format!("expected initialize request, got {}", r.method));
                    let _ = self.sender.send(resp.into());
                }
                Ok(Message::Notification(n)) if n.method != "exit" => {}
                Ok(m) => return Err(ProtocolError(format!("expected initialize request, got {m:?}"), false)),
                Err(_) => return Err(ProtocolError("channel disconnected".into(), true)),
            }
        }
    }
    pub fn initialize_finish(&self, id: RequestId, result: Value) -> Result<(), ProtocolError> {
        self.sender
            .send(Response::new_ok(id, result).into())
            .map_err(|_| ProtocolError("channel disconnected".into(), true))?;
        match self.receiver.recv() {
            Ok(Message::Notification(n)) if n.method == "initialized" => Ok(()),
            Ok(m) => Err(ProtocolError(format!("expected initialized notification, got {m:?}"), false)),
            Err(_) => Err(ProtocolError("channel disconnected".into(), true)),
        }
    }
}

#[derive(Debug)]
pub struct ReqQueue<I, O> {
    pub incoming: Incoming<I>,
    pub outgoing: Outgoing<O>,
}
impl<I, O> Default for ReqQueue<I, O> {
    fn default() -> Self {
        ReqQueue { incoming: Incoming { pending: HashMap::new() }, outgoing: Outgoing { next_id: 0, pending: HashMap::new() } }
    }
}
#[derive(Debug)]
pub struct Incoming<I> {
    pending: HashMap<RequestId, I>,
}
#[derive(Debug)]
pub struct Outgoing<O> {
    next_id: i32,
    pending: HashMap<RequestId, O>,
}
impl<I> Incoming<I> {
    pub fn register(&mut self, id: RequestId, data: I) {
        self.pending.insert(id, data);
    }
    pub fn cancel(&mut self, id: RequestId) -> Option<Response> {
        let _data = self.complete(&id)?;
        Some(Response::new_err(id, ErrorCode::RequestCanceled as i32, "canceled by client".to_owned()))
    }
    pub fn complete(&mut self, id: &RequestId) -> Option<I> {
        self.pending.remove(id)
    }
    pub fn is_completed(&self, id: &RequestId) -> bool {
        !self.pending.contains_key(id)
    }
}
impl<O> Outgoing<O> {
    pub fn register<P: Serialize>(&mut self, method: String, params: P, data: O) -> Request {
        let id = RequestId::from(self.next_id);
        self.pending.insert(id.clone(), data);
        self.next_id += 1;
        Request::new(id, method, params)
    }
    pub fn complete(&mut self, id: RequestId) -> Option<O> {
        self.pending.remove(&id)
    }
}
