//! A whole server in this process, with its database in a scratch directory.
#![allow(dead_code)]
pub use crate::consumer::{Conn, Incoming};
use opsqueue::common::chunk::{Chunk, ChunkId, ChunkIndex};
pub use opsqueue::common::submission::{Submission, SubmissionId, SubmissionStatus};
pub use opsqueue::config::Config;
use opsqueue::consumer::common::{ClientToServerMessage, SyncServerToClientResponse};
pub use opsqueue::consumer::strategy::Strategy;
pub use opsqueue::db::{Connection, DBPools};
pub use opsqueue::producer::{ChunkContents, Client, InsertSubmission};
use std::num::NonZero;
use std::sync::atomic::AtomicBool;
use std::sync::Arc;
use std::time::Duration;

pub struct Rig {
    pub pools: DBPools,
    pub addr: String,
    pub producer: Client,
    pub path: String,
    pub token: tokio_util::sync::CancellationToken,
}
pub async fn rig(cfg: Config, ttl: Duration) -> Rig {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let dir = std::env::args().nth(1).expect("scratch directory");
    let path = format!("{dir}/opsqueue-{}.db", N.fetch_add(1, std::sync::atomic::Ordering::SeqCst));
    let pools = opsqueue::db::open_and_setup(&path, NonZero::new(6).unwrap()).await;
    static PROM: std::sync::OnceLock<opsqueue::prometheus::PrometheusConfig> = std::sync::OnceLock::new();
    let prom = PROM.get_or_init(opsqueue::prometheus::setup_prometheus).clone();
    let cfg: &'static Config = Box::leak(Box::new(cfg));
    let token = tokio_util::sync::CancellationToken::new();
    let router = opsqueue::server::build_router(cfg, pools.clone(), ttl, &token, Arc::new(AtomicBool::new(true)), prom);
    let listener = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
    let addr = listener.local_addr().unwrap().to_string();
    tokio::spawn(async move {
        let _ = axum::serve(listener, router).await;
    });
    Rig { pools, producer: Client::new(&addr), addr, path, token }
}
pub async fn default_rig() -> Rig {
    rig(Config::default(), Duration::from_secs(600)).await
}
pub fn chunks(n: usize) -> Vec<Option<Vec<u8>>> {
    (0..n).map(|i| Some(format!("in-{i}").into_bytes())).collect()
}
pub fn submission(contents: Vec<Option<Vec<u8>>>, sm: &[(&str, i64)]) -> InsertSubmission {
    InsertSubmission {
        chunk_contents: ChunkContents::Direct { contents },
        metadata: None,
        strategic_metadata: sm.iter().map(|(k, v)| ((*k).to_string(), *v)).collect(),
        chunk_size: None,
    }
}
impl Rig {
    pub async fn insert(&self, n: usize, sm: &[(&str, i64)]) -> SubmissionId {
        self.producer.insert_submission(&submission(chunks(n), sm), &Default::default()).await.unwrap()
    }
    pub async fn status(&self, id: SubmissionId) -> Option<SubmissionStatus> {
        self.producer.get_submission(id).await.unwrap()
    }
    pub async fn consumer(&self, n: i64) -> Conn {
        Conn::open(n, &self.addr, 1).await.unwrap()
    }
    /// A connection of its own to the database, for reading and for triggers.
    pub async fn sql(&self) -> sqlx::SqliteConnection {
        use sqlx::Connection as _;
        sqlx::SqliteConnection::connect(&format!("sqlite://{}", self.path)).await.unwrap()
    }
    pub async fn number(&self, q: &str) -> i64 {
        let mut c = self.sql().await;
        sqlx::query_scalar(sqlx::AssertSqlSafe(q.to_string())).fetch_one(&mut c).await.unwrap()
    }
    pub async fn exec(&self, q: &str) {
        let mut c = self.sql().await;
        sqlx::query(sqlx::AssertSqlSafe(q.to_string())).execute(&mut c).await.unwrap();
    }
}
pub fn cid(s: SubmissionId, i: u64) -> ChunkId {
    ChunkId::from((s, ChunkIndex::try_from(i).unwrap()))
}
pub fn id_of(c: &Chunk) -> (i64, u64) {
    (c.submission_id.into(), u64::from(ux::u63::from(c.chunk_index)))
}
pub type Got = Vec<(Chunk, Submission)>;
impl Conn {
    /// Asks for chunks; None if there is no answer in time.
    pub async fn reserve(&self, max: usize, strategy: Strategy, patience: Duration) -> Option<Got> {
        let nonce = self.next_nonce();
        self.send(nonce, ClientToServerMessage::WantToReserveChunks { max, strategy }).await;
        self.answer(nonce, patience).await
    }
    pub async fn answer(&self, nonce: usize, patience: Duration) -> Option<Got> {
        let mut inbox = self.inbox.lock().await;
        let end = tokio::time::Instant::now() + patience;
        loop {
            match tokio::time::timeout_at(end, inbox.recv()).await {
                Ok(Some((_, Incoming::Answer(n, SyncServerToClientResponse::ChunksReserved(r))))) if n == nonce => return r.ok(),
                Ok(Some((_, Incoming::Closed)) | None) | Err(_) => return None,
                Ok(_) => {}
            }
        }
    }
    pub async fn complete(&self, id: ChunkId) {
        let n = self.next_nonce();
        self.send(n, ClientToServerMessage::CompleteChunk { id, output_content: Some(b"out".to_vec()) }).await;
    }
    pub async fn fail(&self, id: ChunkId) {
        let n = self.next_nonce();
        self.send(n, ClientToServerMessage::FailChunk { id, failure: "no".into() }).await;
    }
}
/// Waits until `f` holds, for a while.
pub async fn eventually<F: std::future::Future<Output = bool>>(mut f: impl FnMut() -> F) -> bool {
    for _ in 0..200 {
        if f().await {
            return true;
        }
        tokio::time::sleep(Duration::from_millis(25)).await;
    }
    false
}
pub fn verdict(ok: bool, what: &str) -> ! {
    println!("{}: {what}", if ok { "holds" } else { "BROKEN" });
    std::process::exit(i32::from(!ok))
}
