//! A consumer that speaks the protocol of the server by hand: nothing it does goes through opsqueue's
//! own client, so its timing is ours.
use futures::stream::{SplitSink, SplitStream};
use futures::{SinkExt as _, StreamExt as _};
use opsqueue::common::chunk::ChunkId;
use opsqueue::consumer::common::{AsyncServerToClientMessage, ClientToServerMessage, Envelope, ServerToClientMessage, SyncServerToClientResponse};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};
use tokio::net::TcpStream;
use tokio::sync::{mpsc, Mutex};
use tokio_tungstenite::tungstenite::Message;
use tokio_tungstenite::{MaybeTlsStream, WebSocketStream};

type Ws = WebSocketStream<MaybeTlsStream<TcpStream>>;

#[derive(Debug)]
pub enum Incoming {
    Answer(usize, SyncServerToClientResponse),
    Expired(ChunkId),
    Ping,
    Closed,
    Unreadable,
}

pub struct Conn {
    pub id: i64,
    sink: Mutex<Option<SplitSink<Ws, Message>>>,
    pub inbox: Mutex<mpsc::UnboundedReceiver<(Instant, Incoming)>>,
    reader: tokio::task::JoinHandle<()>,
    nonce: AtomicUsize,
}

async fn read(mut s: SplitStream<Ws>, tx: mpsc::UnboundedSender<(Instant, Incoming)>) {
    while let Some(m) = s.next().await {
        let m = match m {
            Ok(Message::Binary(b)) => match ciborium::from_reader::<ServerToClientMessage, _>(&*b) {
                Ok(ServerToClientMessage::Sync(e)) => Incoming::Answer(e.nonce, e.contents),
                Ok(ServerToClientMessage::Async(AsyncServerToClientMessage::ChunkReservationExpired(c))) => Incoming::Expired(c),
                Ok(ServerToClientMessage::Init(_)) => continue,
                Err(_) => Incoming::Unreadable,
            },
            Ok(Message::Ping(_)) => Incoming::Ping,
            Ok(Message::Close(_)) | Err(_) => break,
            Ok(_) => continue,
        };
        let _ = tx.send((Instant::now(), m));
    }
    let _ = tx.send((Instant::now(), Incoming::Closed));
}

impl Conn {
    /// Connects and waits for the server's greeting.
    pub async fn open(id: i64, addr: &str, first_nonce: usize) -> Result<Conn, String> {
        let (ws, _) = tokio_tungstenite::connect_async(format!("ws://{addr}/consumer")).await.map_err(|e| e.to_string())?;
        let (sink, mut stream) = ws.split();
        match tokio::time::timeout(Duration::from_secs(10), stream.next()).await {
            Ok(Some(Ok(Message::Binary(b)))) if matches!(ciborium::from_reader::<ServerToClientMessage, _>(&*b), Ok(ServerToClientMessage::Init(_))) => {}
            x => return Err(format!("no greeting: {x:?}")),
        }
        let (tx, rx) = mpsc::unbounded_channel();
        Ok(Conn {
            id,
            sink: Mutex::new(Some(sink)),
            inbox: Mutex::new(rx),
            reader: tokio::spawn(read(stream, tx)),
            nonce: AtomicUsize::new(first_nonce),
        })
    }
    pub fn next_nonce(&self) -> usize {
        self.nonce.fetch_add(1, SeqCst)
    }
    pub async fn send(&self, nonce: usize, contents: ClientToServerMessage) -> bool {
        let mut buf = vec![];
        ciborium::into_writer(&Envelope { nonce, contents }, &mut buf).unwrap();
        match self.sink.lock().await.as_mut() {
            Some(s) => s.send(Message::Binary(buf.into())).await.is_ok(),
            None => false,
        }
    }
    /// Says goodbye.
    pub async fn close(&self) {
        if let Some(s) = self.sink.lock().await.as_mut() {
            let _ = s.send(Message::Close(None)).await;
        }
    }
    /// Is gone without a word.
    pub async fn vanish(&self) {
        self.reader.abort();
        *self.sink.lock().await = None;
    }
}
