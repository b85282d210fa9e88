//! Drives opsqueue's own consumer client against a server played by this program, and records what
//! either side sees, in order, for the specification ClientTrace.
//!
//! hx-peer IN.ndjson OUT.ndjson
use futures::{SinkExt as _, StreamExt as _};
use hx::gen::{bytes_of, strategy, text_of};
use hx::{repr_bytes, repr_opt, repr_text};
use opsqueue::common::chunk::{Chunk, ChunkId, ChunkSize};
use opsqueue::common::errors::{IncorrectUsage, LimitIsZero, E};
use opsqueue::common::submission::{Submission, SubmissionId};
use opsqueue::common::StrategicMetadataMap;
use opsqueue::consumer::client::OuterClient;
use opsqueue::consumer::common::{AsyncServerToClientMessage, ClientToServerMessage, ConsumerConfig, Envelope, ServerToClientMessage, SyncServerToClientResponse};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, Write};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::sync::mpsc;
use tokio_tungstenite::tungstenite::Message;
use ux::u63;

type Answer = Result<Vec<(Chunk, Submission)>, IncorrectUsage<LimitIsZero>>;
const PATIENCE: Duration = Duration::from_secs(8);

enum Cmd {
    Send(Message),
    Close,
    Drop,
    /// The next reader of the connection sees this instead of a frame.
    Raw(Vec<u8>),
}

#[derive(Default)]
struct Shared {
    log: Vec<Value>,
    conns: BTreeMap<u64, mpsc::UnboundedSender<Cmd>>,
    opened: u64,
    last: Option<Instant>,
    /// call -> (connection, nonce) where its request arrived last
    sent: BTreeMap<i64, (u64, usize)>,
    returned: BTreeMap<i64, Value>,
    reported: usize,
    /// reports and fails seen by the server, pongs
    arrived: usize,
    pongs: usize,
}
#[derive(Clone, Default)]
struct Log(Arc<Mutex<Shared>>);
impl Log {
    fn put(&self, v: Value) {
        let mut s = self.0.lock().unwrap();
        s.log.push(v);
        s.last = Some(Instant::now());
    }
    fn with<T>(&self, f: impl FnOnce(&mut Shared) -> T) -> T {
        f(&mut self.0.lock().unwrap())
    }
}

fn strat_repr(s: &opsqueue::consumer::strategy::Strategy) -> String {
    format!("{s:?}")
}
fn chunk_value(c: ChunkId) -> (i64, i64) {
    (c.submission_id.into(), i64::try_from(u64::from(u63::from(c.chunk_index))).unwrap())
}
fn chunk_of(s: i64, i: i64) -> ChunkId {
    ChunkId::from((SubmissionId::try_from(s).unwrap(), u63::new(i as u64).into()))
}
fn digest(c: &Chunk, s: &Submission) -> String {
    repr_bytes(format!("{c:?}|{s:?}").as_bytes())
}
fn answer_repr(a: &Answer) -> Value {
    match a {
        Err(_) => json!(["zero"]),
        Ok(v) => json!(std::iter::once("ok".to_string()).chain(v.iter().map(|(c, s)| digest(c, s))).collect::<Vec<_>>()),
    }
}
fn encode(m: &ServerToClientMessage) -> Message {
    let mut b = vec![];
    ciborium::into_writer(m, &mut b).unwrap();
    Message::Binary(b.into())
}

/// One connection of the server.
async fn conn(c: u64, stream: tokio::net::TcpStream, mut rx: mpsc::UnboundedReceiver<Cmd>, log: Log) {
    let _ = stream.set_nodelay(true);
    let Ok(mut ws) = tokio_tungstenite::accept_async(stream).await else { return };
    let init = ServerToClientMessage::Init(ConsumerConfig {
        max_missable_heartbeats: 5,
        heartbeat_interval: Duration::from_secs(60),
        version_info: opsqueue::version_info(),
        conn_id: format!("c{c}"),
    });
    log.put(json!({"op": "open", "c": c}));
    let _ = ws.send(encode(&init)).await;
    loop {
        tokio::select! {
            biased;
            m = ws.next() => match m {
                Some(Ok(Message::Binary(b))) => {
                    let v = match ciborium::from_reader::<Envelope<ClientToServerMessage>, _>(&*b) {
                        Err(_) => json!({"op": "garbage", "c": c}),
                        Ok(Envelope { nonce, contents }) => match contents {
                            ClientToServerMessage::WantToReserveChunks { max, strategy } => {
                                let k = max as i64;
                                log.with(|s| s.sent.insert(k, (c, nonce)));
                                json!({"op": "req", "c": c, "nonce": nonce, "k": k, "strat": strat_repr(&strategy)})
                            }
                            ClientToServerMessage::CompleteChunk { id, output_content } => {
                                let (s, i) = chunk_value(id);
                                json!({"op": "report", "c": c, "nonce": nonce, "kind": "complete", "s": s, "i": i, "x": repr_opt(output_content.as_deref())})
                            }
                            ClientToServerMessage::FailChunk { id, failure } => {
                                let (s, i) = chunk_value(id);
                                json!({"op": "report", "c": c, "nonce": nonce, "kind": "fail", "s": s, "i": i, "x": repr_text(failure.as_bytes())})
                            }
                        },
                    };
                    if v["op"] == "report" { log.with(|s| s.arrived += 1); }
                    log.put(v);
                }
                Some(Ok(Message::Pong(b))) => { log.with(|s| s.pongs += 1); log.put(json!({"op": "pong", "c": c, "x": repr_bytes(&b)})); }
                Some(Ok(Message::Ping(_))) => {}
                Some(Ok(Message::Close(_)) | Err(_)) | None => {
                    log.with(|s| s.conns.remove(&c));
                    log.put(json!({"op": "closed", "c": c}));
                    return;
                }
                Some(Ok(_)) => log.put(json!({"op": "garbage", "c": c})),
            },
            x = rx.recv() => match x {
                Some(Cmd::Send(m)) => { let _ = ws.send(m).await; }
                Some(Cmd::Raw(b)) => {
                    use tokio::io::AsyncWriteExt as _;
                    let _ = ws.get_mut().write_all(&b).await;
                }
                Some(Cmd::Close) => {
                    let _ = ws.close(None).await;
                    // The other side answers, or does not.
                    let _ = tokio::time::timeout(Duration::from_millis(300), async { while let Some(Ok(_)) = ws.next().await {} }).await;
                    return;
                }
                Some(Cmd::Drop) | None => return,
            },
        }
    }
}

struct Server {
    addr: String,
    log: Log,
    task: Option<tokio::task::JoinHandle<()>>,
}
impl Server {
    async fn up(&mut self) {
        let l = loop {
            match tokio::net::TcpListener::bind(&self.addr).await {
                Ok(l) => break l,
                Err(_) => tokio::time::sleep(Duration::from_millis(20)).await,
            }
        };
        self.addr = l.local_addr().unwrap().to_string();
        let log = self.log.clone();
        self.task = Some(tokio::spawn(async move {
            loop {
                let Ok((s, _)) = l.accept().await else { continue };
                let (tx, rx) = mpsc::unbounded_channel();
                let c = log.with(|x| {
                    x.opened += 1;
                    x.conns.insert(x.opened, tx);
                    x.opened
                });
                tokio::spawn(conn(c, s, rx, log.clone()));
            }
        }));
    }
    fn lose(&self, polite: bool) {
        for (_, tx) in self.log.with(|s| std::mem::take(&mut s.conns)) {
            let _ = tx.send(if polite { Cmd::Close } else { Cmd::Drop });
        }
    }
    async fn down(&mut self) {
        if let Some(t) = self.task.take() {
            t.abort();
            let _ = t.await;
        }
    }
}

struct World {
    log: Log,
    server: Server,
    client: Arc<OuterClient>,
    calls: BTreeMap<i64, tokio::task::JoinHandle<()>>,
    reports: usize,
    up: bool,
    serial: i64,
    late: bool,
}

impl World {
    async fn quiet(&self, mut done: impl FnMut(&Shared) -> bool) {
        let t = Instant::now();
        while t.elapsed() < PATIENCE && !self.log.with(|s| done(s)) {
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
        loop {
            tokio::time::sleep(Duration::from_millis(2)).await;
            if self.log.with(|s| s.last.is_none_or(|x| x.elapsed() > Duration::from_millis(8))) {
                return;
            }
        }
    }
    fn answer(&mut self, n: usize, big: usize) -> Answer {
        Ok((0..n).map(|j| {
            self.serial += 1;
            let id = SubmissionId::try_from(self.serial).unwrap();
            let c = Chunk { submission_id: id, chunk_index: u63::new(j as u64).into(), input_content: Some(if big > 0 { vec![7; big] } else { format!("c{}", self.serial).into_bytes() }), retries: j as i64 };
            let s = Submission {
                id, prefix: if j % 2 == 0 { None } else { Some(format!("p{}", self.serial)) }, chunks_total: u63::new(n as u64 + 1).into(), chunks_done: u63::new(j as u64).into(),
                chunk_size: ChunkSize(self.serial), metadata: Some(vec![j as u8]), strategic_metadata: [("k".to_string(), self.serial)].into_iter().collect::<StrategicMetadataMap>(), otel_trace_carrier: "{}".into(),
            };
            (c, s)
        }).collect())
    }
    async fn step(&mut self, o: &Value) {
        self.act(o).await;
        if !o["go"].as_bool().unwrap_or(false) {
            self.settle().await;
        }
    }
    async fn act(&mut self, o: &Value) {
        let op = o["op"].as_str().unwrap_or("");
        let k = o["k"].as_i64().unwrap_or(0);
        match op {
            "up" => {
                self.log.put(json!({"op": "up"}));
                self.server.up().await;
                self.up = true;
            }
            "down" => {
                self.log.put(json!({"op": "down"}));
                self.server.down().await;
                self.server.lose(o["how"] == "close");
                self.up = false;
            }
            "lose" => {
                self.log.put(json!({"op": "lose"}));
                self.server.lose(o["how"] == "close");
            }
            "call" => {
                let st = strategy(&o["strat"]);
                self.log.put(json!({"op": "call", "k": k, "strat": strat_repr(&st)}));
                let (c, log) = (self.client.clone(), self.log.clone());
                self.calls.insert(k, tokio::spawn(async move {
                    let r = c.reserve_chunks(usize::try_from(k).unwrap(), st).await;
                    let v = match r {
                        Ok(v) => answer_repr(&Ok(v)),
                        Err(E::R(e)) => answer_repr(&Err(e)),
                        Err(E::L(_)) => json!(["err"]),
                    };
                    log.with(|s| s.returned.insert(k, v.clone()));
                    log.put(json!({"op": "ret", "k": k, "v": v}));
                }));
            }
            "abandon" => {
                if let Some(t) = self.calls.get(&k) {
                    self.log.put(json!({"op": "abandon", "k": k}));
                    t.abort();
                }
            }
            "answer" => {
                let Some((c, nonce)) = self.log.with(|s| s.sent.get(&k).copied()) else { return };
                let a = if o["zero"].as_bool().unwrap_or(false) { Err(IncorrectUsage(LimitIsZero())) } else { self.answer(o["n"].as_u64().unwrap_or(1) as usize, o["big"].as_u64().unwrap_or(0) as usize) };
                let ids: Vec<Value> = a.as_ref().map_or(vec![], |v| v.iter().map(|(x, _)| { let (s, i) = chunk_value(ChunkId::from((x.submission_id, x.chunk_index))); json!({"s": s, "i": i}) }).collect());
                let Some(tx) = self.log.with(|s| s.conns.get(&c).cloned()) else { return };
                self.log.put(json!({"op": "answer", "k": k, "v": answer_repr(&a), "ids": ids}));
                let _ = tx.send(Cmd::Send(encode(&ServerToClientMessage::Sync(Envelope { nonce, contents: SyncServerToClientResponse::ChunksReserved(a) }))));
            }
            "expired" => {
                let (s, i) = (o["s"].as_i64().unwrap_or(1), o["i"].as_i64().unwrap_or(0));
                let Some((c, tx)) = self.log.with(|x| x.conns.iter().next_back().map(|(c, t)| (*c, t.clone()))) else { return };
                self.log.put(json!({"op": "expired", "c": c, "s": s, "i": i}));
                let _ = tx.send(Cmd::Send(encode(&ServerToClientMessage::Async(AsyncServerToClientMessage::ChunkReservationExpired(chunk_of(s, i))))));
            }
            "ping" => {
                let Some((c, tx)) = self.log.with(|x| x.conns.iter().next_back().map(|(c, t)| (*c, t.clone()))) else { return };
                let p = text_of(&o["x"]);
                self.log.put(json!({"op": "ping", "c": c, "x": repr_bytes(p.as_bytes())}));
                let _ = tx.send(Cmd::Send(Message::Ping(p.into_bytes().into())));
            }
            // A frame that no server should send: the connection is broken, though nothing is closed.
            "rubbish" => {
                let Some((_, tx)) = self.log.with(|x| x.conns.iter().next_back().map(|(c, t)| (*c, t.clone()))) else { return };
                self.log.put(json!({"op": "rubbish"}));
                let _ = tx.send(Cmd::Raw(vec![0x8b, 0x00, 0xff, 0xff]));
            }
            "report" => {
                self.reports += 1;
                let j = self.reports;
                let (s, i) = (o["s"].as_i64().unwrap_or(1), o["i"].as_i64().unwrap_or(0));
                let (c, log) = (self.client.clone(), self.log.clone());
                let (kind, x) = (o["kind"].as_str().unwrap_or("complete").to_string(), o["x"].clone());
                let repr = if kind == "complete" { repr_opt(bytes_of(&x).as_deref()) } else { repr_text(text_of(&x).as_bytes()) };
                self.log.put(json!({"op": "tell", "j": j, "kind": kind, "s": s, "i": i, "x": repr}));
                let t = tokio::spawn(async move {
                    let r = if kind == "complete" { c.complete_chunk(chunk_of(s, i), bytes_of(&x)).await } else { c.fail_chunk(chunk_of(s, i), text_of(&x)).await };
                    log.with(|s| s.reported += 1);
                    log.put(json!({"op": "told", "j": j, "ok": r.is_ok()}));
                });
                // In the order in which they are issued.
                if self.up {
                    let _ = tokio::time::timeout(PATIENCE, t).await;
                }
            }
            _ => {}
        }
    }
    /// Waits until nothing more is to be expected.
    async fn settle(&mut self) {
        let up = self.up;
        let reports = self.reports;
        let calls: Vec<i64> = self.calls.iter().filter(|(_, t)| !t.is_finished()).map(|(k, _)| *k).collect();
        // Calls that ought to have got somewhere: a request on a connection that is still there, or an end.
        self.quiet(|s| {
            !up || (calls.iter().all(|k| s.returned.contains_key(k) || s.sent.get(k).is_some_and(|(c, _)| s.conns.contains_key(c))) && s.reported >= reports)
        }).await;
        // Obligations that are known to take a moment longer are waited for by the specification's own account.
        let t = Instant::now();
        while !obligations_met(&self.log.with(|s| s.log.clone())) && t.elapsed() < Duration::from_secs(3) {
            tokio::time::sleep(Duration::from_millis(3)).await;
        }
        self.late |= t.elapsed() >= Duration::from_secs(3);
        self.log.put(json!({"op": "settle"}));
    }
}

/// A rough count: has everything that was asked for come, on connections that are there?
fn obligations_met(log: &[Value]) -> bool {
    let mut owed: i64 = 0;
    let mut aborted: Vec<i64> = vec![];
    let mut pongs: i64 = 0;
    let mut answered: Vec<i64> = vec![];
    for v in log {
        match v["op"].as_str().unwrap_or("") {
            "tell" => owed += 1,
            "told" if v["ok"] == false => owed -= 1,
            "expired" => owed += 1,
            "report" => owed -= 1,
            "abandon" => aborted.push(v["k"].as_i64().unwrap()),
            "answer" => {
                let k = v["k"].as_i64().unwrap();
                if aborted.contains(&k) { owed += v["ids"].as_array().map_or(0, Vec::len) as i64; } else { answered.push(k); }
            }
            "ret" => answered.retain(|k| *k != v["k"].as_i64().unwrap()),
            "ping" => pongs += 1,
            "pong" => pongs -= 1,
            "lose" | "down" | "rubbish" => { owed = 0; pongs = 0; answered.clear(); }
            _ => {}
        }
    }
    owed <= 0 && pongs <= 0 && answered.is_empty()
}

async fn behaviour(b: &Value) -> Vec<Value> {
    let log = Log::default();
    let mut server = Server { addr: "127.0.0.1:0".into(), log: log.clone(), task: None };
    server.up().await;
    let client = Arc::new(OuterClient::new(&server.addr));
    let mut w = World { log: log.clone(), server, client, calls: BTreeMap::new(), reports: 0, up: true, serial: 100, late: false };
    for o in b["ops"].as_array().unwrap() {
        w.step(o).await;
        if w.late { break; }
    }
    w.settle().await;
    for t in w.calls.values() {
        t.abort();
    }
    w.server.down().await;
    w.server.lose(false);
    log.with(|s| std::mem::take(&mut s.log))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let input = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap());
    let mut out = std::io::BufWriter::new(std::fs::File::create(&args[2]).unwrap());
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    if std::env::var("HX_VERBOSE").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    for line in input.lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let b: Value = serde_json::from_str(&line).unwrap();
        let b2 = b.clone();
        let log = rt.block_on(async move { behaviour(&b2).await });
        writeln!(out, "{}", json!({"op": "reset", "a": {"run": b["name"]}, "src": line})).unwrap();
        for v in log {
            writeln!(out, "{v}").unwrap();
        }
    }
    out.flush().unwrap();
    std::process::exit(0);
}
