//! Offline stand-in for `lsp-server`.
mod msg;
mod req_queue;
mod stdio;
use crossbeam_channel::{unbounded, Receiver, RecvError, RecvTimeoutError, Sender};
pub use msg::*;
pub use req_queue::*;
pub use stdio::IoThreads;
use std::{fmt, io, time::Duration};

pub struct Connection {
    pub sender: Sender<Message>,
    pub receiver: Receiver<Message>,
}
#[derive(Debug, Clone, PartialEq)]
pub struct ProtocolError(String, bool);
impl ProtocolError {
    pub(crate) fn new(m: impl Into<String>) -> Self { ProtocolError(m.into(), false) }
    pub(crate) fn disconnected() -> Self { ProtocolError("disconnected channel".into(), true) }
    pub fn channel_is_disconnected(&self) -> bool { self.1 }
}
impl std::error::Error for ProtocolError {}
impl fmt::Display for ProtocolError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) }
}
impl Connection {
    pub fn stdio() -> (Connection, IoThreads) {
        let (sender, receiver, io_threads) = stdio::stdio_transport();
        (Connection { sender, receiver }, io_threads)
    }
    pub fn memory() -> (Connection, Connection) {
        let (s1, r1) = unbounded();
        let (s2, r2) = unbounded();
        (Connection { sender: s1, receiver: r2 }, Connection { sender: s2, receiver: r1 })
    }
    pub fn initialize_start(&self) -> Result<(RequestId, serde_json::Value), ProtocolError> { self.initialize_start_while(|| true) }
    pub fn initialize_start_while<C: Fn() -> bool>(&self, running: C) -> Result<(RequestId, serde_json::Value), ProtocolError> {
        while running() {
            let msg = match self.receiver.recv_timeout(Duration::from_secs(1)) {
                Ok(m) => m,
                Err(RecvTimeoutError::Timeout) => continue,
                Err(RecvTimeoutError::Disconnected) => return Err(ProtocolError::disconnected()),
            };
            match msg {
                Message::Request(req) if req.is_initialize() => return Ok((req.id, req.params)),
                // Respond to non-initialize requests with ServerNotInitialized
                Message::Request(req) => {
                    let resp = Response::new_err(req.id.clone(), ErrorCode::ServerNotInitialized as i32, format!("expected initialize request, got {req:?}"));
                    self.sender.send(resp.into()).unwrap();
                    continue;
                }
                Message::Notification(n) if !n.is_exit() => continue,
                msg => return Err(ProtocolError::new(format!("expected initialize request, got {msg:?}"))),
            };
        }
        Err(ProtocolError::new(String::from("Initialization has been aborted during initialization")))
    }
    pub fn initialize_finish(&self, id: RequestId, result: serde_json::Value) -> Result<(), ProtocolError> {
        let resp = Response::new_ok(id, result);
        self.sender.send(resp.into()).unwrap();
        match &self.receiver.recv() {
            Ok(Message::Notification(n)) if n.is_initialized() => Ok(()),
            Ok(msg) => Err(ProtocolError::new(format!("expected initialized notification, got: {msg:?}"))),
            Err(RecvError) => Err(ProtocolError::disconnected()),
        }
    }
    pub fn initialize(&self, server_capabilities: serde_json::Value) -> Result<serde_json::Value, ProtocolError> {
        let (id, params) = self.initialize_start()?;
        self.initialize_finish(id, serde_json::json!({ "capabilities": server_capabilities }))?;
        Ok(params)
    }
    /// If `req` is `Shutdown`, respond to it and return `true`, otherwise return `false`
    pub fn handle_shutdown(&self, req: &Request) -> Result<bool, ProtocolError> {
        if !req.is_shutdown() { return Ok(false); }
        let resp = Response::new_ok(req.id.clone(), ());
        let _ = self.sender.send(resp.into());
        match &self.receiver.recv_timeout(Duration::from_secs(30)) {
            Ok(Message::Notification(n)) if n.is_exit() => (),
            Ok(msg) => return Err(ProtocolError::new(format!("unexpected message during shutdown: {msg:?}"))),
            Err(RecvTimeoutError::Timeout) => return Err(ProtocolError::new("timed out waiting for exit notification".to_string())),
            Err(RecvTimeoutError::Disconnected) => return Err(ProtocolError::disconnected()),
        }
        Ok(true)
    }
}
#[derive(Debug)]
pub enum ExtractError<T> {
    MethodMismatch(T),
    JsonError { method: String, error: serde_json::Error },
}
impl<T: fmt::Debug> std::error::Error for ExtractError<T> {}
impl<T> fmt::Display for ExtractError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            ExtractError::MethodMismatch(_) => write!(f, "Method mismatch for request or notification"),
            ExtractError::JsonError { method, error } => write!(f, "Invalid request or notification (method {method}): {error}"),
        }
    }
}
#[allow(unused)]
fn _io(_: io::Error) {}
