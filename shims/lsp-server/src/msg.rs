use crate::ExtractError;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::{fmt, io::{self, BufRead, Write}};

#[derive(Serialize, Debug, Clone)]
#[serde(untagged)]
pub enum Message {
    Request(Request),
    Response(Response),
    Notification(Notification),
}
#[derive(Deserialize)]
#[serde(untagged)]
enum MessageDe {
    Request(Request),
    Response(Response),
    Notification(Notification),
}
impl<'de> Deserialize<'de> for Message {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(match MessageDe::deserialize(d)? {
            MessageDe::Request(r) => Message::Request(r),
            MessageDe::Response(r) => Message::Response(r),
            MessageDe::Notification(r) => Message::Notification(r),
        })
    }
}
impl From<Request> for Message { fn from(r: Request) -> Message { Message::Request(r) } }
impl From<Response> for Message { fn from(r: Response) -> Message { Message::Response(r) } }
impl From<Notification> for Message { fn from(n: Notification) -> Message { Message::Notification(n) } }

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Deserialize, Serialize)]
#[serde(transparent)]
pub struct RequestId(IdRepr);
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Deserialize, Serialize)]
#[serde(untagged)]
enum IdRepr {
    I32(i32),
    String(String),
}
impl From<i32> for RequestId { fn from(id: i32) -> RequestId { RequestId(IdRepr::I32(id)) } }
impl From<String> for RequestId { fn from(id: String) -> RequestId { RequestId(IdRepr::String(id)) } }
impl fmt::Display for RequestId {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.0 {
            IdRepr::I32(it) => fmt::Display::fmt(it, f),
            IdRepr::String(it) => fmt::Debug::fmt(it, f),
        }
    }
}
#[derive(Debug, Serialize, Deserialize, Clone)]
pub struct Request {
    pub id: RequestId,
    pub method: String,
    #[serde(default = "serde_json::Value::default")]
    #[serde(skip_serializing_if = "serde_json::Value::is_null")]
    pub params: serde_json::Value,
}
#[derive(Debug, Serialize, Deserialize, Clone)]
pub struct Response {
    pub id: RequestId,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub result: Option<serde_json::Value>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub error: Option<ResponseError>,
}
#[derive(Debug, Serialize, Deserialize, Clone)]
pub struct ResponseError {
    pub code: i32,
    pub message: String,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub data: Option<serde_json::Value>,
}
#[derive(Clone, Copy, Debug)]
#[non_exhaustive]
pub enum ErrorCode {
    ParseError = -32700,
    InvalidRequest = -32600,
    MethodNotFound = -32601,
    InvalidParams = -32602,
    InternalError = -32603,
    ServerErrorStart = -32099,
    ServerErrorEnd = -32000,
    ServerNotInitialized = -32002,
    UnknownErrorCode = -32001,
    RequestCanceled = -32800,
    ContentModified = -32801,
    ServerCancelled = -32802,
    RequestFailed = -32803,
}
#[derive(Debug, Serialize, Deserialize, Clone)]
pub struct Notification {
    pub method: String,
    #[serde(default = "serde_json::Value::default")]
    #[serde(skip_serializing_if = "serde_json::Value::is_null")]
    pub params: serde_json::Value,
}
fn invalid_data(error: impl Into<Box<dyn std::error::Error + Send + Sync>>) -> io::Error { io::Error::new(io::ErrorKind::InvalidData, error) }

impl Message {
    pub fn read(r: &mut impl BufRead) -> io::Result<Option<Message>> { Message::_read(r) }
    fn _read(r: &mut dyn BufRead) -> io::Result<Option<Message>> {
        let text = match read_msg_text(r)? {
            None => return Ok(None),
            Some(text) => text,
        };
        let msg = serde_json::from_str(&text).map_err(|e| invalid_data(format!("malformed LSP payload: {e:?}: {text}")))?;
        Ok(Some(msg))
    }
    pub fn write(&self, w: &mut impl Write) -> io::Result<()> { self._write(w) }
    fn _write(&self, w: &mut dyn Write) -> io::Result<()> {
        #[derive(Serialize)]
        struct JsonRpc<'a> {
            jsonrpc: &'static str,
            #[serde(flatten)]
            msg: &'a Message,
        }
        let text = serde_json::to_string(&JsonRpc { jsonrpc: "2.0", msg: self })?;
        write!(w, "Content-Length: {}\r\n\r\n", text.len())?;
        w.write_all(text.as_bytes())?;
        w.flush()
    }
}
impl Response {
    pub fn new_ok<R: Serialize>(id: RequestId, result: R) -> Response { Response { id, result: Some(serde_json::to_value(result).unwrap()), error: None } }
    pub fn new_err(id: RequestId, code: i32, message: String) -> Response {
        Response { id, result: None, error: Some(ResponseError { code, message, data: None }) }
    }
}
impl Request {
    pub fn new<P: Serialize>(id: RequestId, method: String, params: P) -> Request { Request { id, method, params: serde_json::to_value(params).unwrap() } }
    pub fn extract<P: DeserializeOwned>(self, method: &str) -> Result<(RequestId, P), ExtractError<Request>> {
        if self.method != method { return Err(ExtractError::MethodMismatch(self)); }
        match serde_json::from_value(self.params) {
            Ok(params) => Ok((self.id, params)),
            Err(error) => Err(ExtractError::JsonError { method: self.method, error }),
        }
    }
    pub(crate) fn is_shutdown(&self) -> bool { self.method == "shutdown" }
    pub(crate) fn is_initialize(&self) -> bool { self.method == "initialize" }
}
impl Notification {
    pub fn new(method: String, params: impl Serialize) -> Notification { Notification { method, params: serde_json::to_value(params).unwrap() } }
    pub fn extract<P: DeserializeOwned>(self, method: &str) -> Result<P, ExtractError<Notification>> {
        if self.method != method { return Err(ExtractError::MethodMismatch(self)); }
        match serde_json::from_value(self.params) {
            Ok(params) => Ok(params),
            Err(error) => Err(ExtractError::JsonError { method: self.method, error }),
        }
    }
    pub(crate) fn is_exit(&self) -> bool { self.method == "exit" }
    pub(crate) fn is_initialized(&self) -> bool { self.method == "initialized" }
}
fn read_msg_text(inp: &mut dyn BufRead) -> io::Result<Option<String>> {
    let mut size = None;
    let mut buf = String::new();
    loop {
        buf.clear();
        if inp.read_line(&mut buf)? == 0 { return Ok(None); }
        if !buf.ends_with("\r\n") { return Err(invalid_data(format!("malformed header: {buf:?}"))); }
        let buf = &buf[..buf.len() - 2];
        if buf.is_empty() { break; }
        let mut parts = buf.splitn(2, ": ");
        let header_name = parts.next().unwrap();
        let header_value = parts.next().ok_or_else(|| invalid_data(format!("malformed header: {buf:?}")))?;
        if header_name.eq_ignore_ascii_case("Content-Length") {
            size = Some(header_value.parse::<usize>().map_err(invalid_data)?);
        }
    }
    let size: usize = size.ok_or_else(|| invalid_data("no Content-Length".to_string()))?;
    let mut buf = buf.into_bytes();
    buf.resize(size, 0);
    inp.read_exact(&mut buf)?;
    Ok(Some(String::from_utf8(buf).map_err(invalid_data)?))
}
