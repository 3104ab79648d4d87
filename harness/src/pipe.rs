//! In-memory duplex transport. Every message passes through the real encoder and decoder
//! (`StdioTransport::serialize_message` / `parse_message`), so what is recorded is wire JSON.
use async_trait::async_trait;
use pmcp::error::TransportError;
use pmcp::shared::{StdioTransport, Transport, TransportMessage};
use serde_json::Value;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use tokio::sync::mpsc;

/// What passed an endpoint, in order: (direction, wire JSON).
pub type Log = Arc<Mutex<Vec<Value>>>;

pub enum Item {
    Bytes(Vec<u8>),
    /// Delivered as this receive error.
    Err(pmcp::Error),
}

/// The transport handed to the code under test.
#[derive(Debug)]
pub struct PipeTransport {
    tx: Option<mpsc::UnboundedSender<Vec<u8>>>,
    rx: mpsc::UnboundedReceiver<ItemBox>,
    pub sent: Log,
    pub closed: Arc<AtomicBool>,
    pub close_calls: Arc<Mutex<usize>>,
    pub fail_sends: Arc<AtomicBool>,
    pub send_attempts: Arc<Mutex<usize>>,
}
pub struct ItemBox(pub Item);
impl std::fmt::Debug for ItemBox {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("item")
    }
}

/// The scripted peer: the wire as seen from the other side.
pub struct Peer {
    pub tx: Option<mpsc::UnboundedSender<ItemBox>>,
    pub rx: mpsc::UnboundedReceiver<Vec<u8>>,
    pub sent: Log,
    pub closed: Arc<AtomicBool>,
    pub close_calls: Arc<Mutex<usize>>,
    pub fail_sends: Arc<AtomicBool>,
    pub send_attempts: Arc<Mutex<usize>>,
}

pub fn pipe() -> (PipeTransport, Peer) {
    let (a, b) = mpsc::unbounded_channel();
    let (c, d) = mpsc::unbounded_channel();
    let sent: Log = Arc::default();
    let closed = Arc::new(AtomicBool::new(false));
    let calls = Arc::new(Mutex::new(0));
    let fs = Arc::new(AtomicBool::new(false));
    let at = Arc::new(Mutex::new(0));
    (
        PipeTransport { tx: Some(a), rx: d, sent: sent.clone(), closed: closed.clone(), close_calls: calls.clone(), fail_sends: fs.clone(), send_attempts: at.clone() },
        Peer { tx: Some(c), rx: b, sent, closed, close_calls: calls, fail_sends: fs, send_attempts: at },
    )
}

/// Two connected transports plus the log of everything each sent.
pub fn duplex() -> (PipeTransport, PipeTransport) {
    let (a, mut pa) = pipe();
    let (b, mut pb) = pipe();
    let (ta, tb) = (pa.tx.take().unwrap(), pb.tx.take().unwrap());
    tokio::spawn(async move {
        while let Some(x) = pa.rx.recv().await {
            if tb.send(ItemBox(Item::Bytes(x))).is_err() { break; }
        }
    });
    tokio::spawn(async move {
        while let Some(x) = pb.rx.recv().await {
            if ta.send(ItemBox(Item::Bytes(x))).is_err() { break; }
        }
    });
    (a, b)
}

#[async_trait]
impl Transport for PipeTransport {
    async fn send(&mut self, message: TransportMessage) -> pmcp::Result<()> {
        *self.send_attempts.lock().unwrap() += 1;
        if self.closed.load(Ordering::SeqCst) || self.fail_sends.load(Ordering::SeqCst) {
            return Err(TransportError::ConnectionClosed.into());
        }
        let b = StdioTransport::serialize_message(&message)?;
        self.sent.lock().unwrap().push(serde_json::from_slice(&b).unwrap_or(Value::Null));
        match &self.tx {
            Some(t) if t.send(b).is_ok() => Ok(()),
            _ => Err(TransportError::ConnectionClosed.into()),
        }
    }
    async fn receive(&mut self) -> pmcp::Result<TransportMessage> {
        if self.closed.load(Ordering::SeqCst) {
            return Err(TransportError::ConnectionClosed.into());
        }
        match self.rx.recv().await {
            Some(ItemBox(Item::Bytes(b))) => StdioTransport::parse_message(&b),
            Some(ItemBox(Item::Err(e))) => Err(e),
            None => {
                self.closed.store(true, Ordering::SeqCst);
                Err(TransportError::ConnectionClosed.into())
            },
        }
    }
    async fn close(&mut self) -> pmcp::Result<()> {
        *self.close_calls.lock().unwrap() += 1;
        self.closed.store(true, Ordering::SeqCst);
        self.tx = None;
        Ok(())
    }
    fn is_connected(&self) -> bool {
        !self.closed.load(Ordering::SeqCst)
    }
    fn transport_type(&self) -> &'static str {
        "pipe"
    }
}

impl Peer {
    pub fn send(&self, v: &Value) -> bool {
        self.raw(v.to_string().into_bytes())
    }
    pub fn raw(&self, b: Vec<u8>) -> bool {
        self.tx.as_ref().is_some_and(|t| t.send(ItemBox(Item::Bytes(b))).is_ok())
    }
    pub fn error(&self, e: pmcp::Error) -> bool {
        self.tx.as_ref().is_some_and(|t| t.send(ItemBox(Item::Err(e))).is_ok())
    }
    /// Next message the code under test sent; None once it dropped or closed its end.
    pub async fn next(&mut self) -> Option<Value> {
        self.rx.recv().await.map(|b| serde_json::from_slice(&b).unwrap_or(Value::Null))
    }
    pub fn try_next(&mut self) -> Option<Value> {
        self.rx.try_recv().ok().map(|b| serde_json::from_slice(&b).unwrap_or(Value::Null))
    }
    pub fn hang_up(&mut self) {
        self.tx = None;
    }
}
