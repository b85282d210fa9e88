//! Watches who takes whom for dead: opsqueue's server against hand-made peers, its consumer client
//! against a hand-made server, and both against each other with a network in between that goes quiet.
//! All behaviours of a file run at the same time; the specification HeartTrace judges the times.
//!
//! hx-heart IN.ndjson OUT.ndjson
use futures::{SinkExt as _, StreamExt as _};
use opsqueue::common::chunk::ChunkId;
use opsqueue::common::submission::SubmissionId;
use opsqueue::config::Config;
use opsqueue::consumer::client::OuterClient;
use opsqueue::consumer::common::{AsyncServerToClientMessage, ClientToServerMessage, ConsumerConfig, Envelope, ServerToClientMessage, SyncServerToClientResponse};
use opsqueue::consumer::strategy::Strategy;
use opsqueue::db::DBPools;
use opsqueue::producer::client::Client as Producer;
use opsqueue::producer::{ChunkContents, InsertSubmission};
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::num::NonZero;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::io::{AsyncReadExt as _, AsyncWriteExt as _};
use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
use tokio::net::{TcpListener, TcpStream};
use tokio_tungstenite::tungstenite::Message;
use ux::u63;

#[derive(Clone)]
struct Log(Arc<Mutex<Vec<Value>>>, Instant);
impl Log {
    fn now(&self) -> u64 {
        self.1.elapsed().as_millis() as u64
    }
    fn put(&self, op: &str, mut v: Value) {
        let mut g = self.0.lock().unwrap();
        v["op"] = json!(op);
        v["t"] = json!(self.now());
        g.push(v);
    }
}

// --- A peer of the server that speaks WebSocket by hand, so that nothing is answered of its own accord. ---

async fn shake(addr: &str) -> std::io::Result<(OwnedReadHalf, OwnedWriteHalf)> {
    let mut s = TcpStream::connect(addr).await?;
    s.set_nodelay(true)?;
    let req = format!("GET /consumer HTTP/1.1\r\nHost: {addr}\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n");
    s.write_all(req.as_bytes()).await?;
    let mut head = vec![];
    while !head.ends_with(b"\r\n\r\n") {
        head.push(s.read_u8().await?);
    }
    Ok(s.into_split())
}
async fn frame_out(w: &mut OwnedWriteHalf, opcode: u8, body: &[u8]) -> std::io::Result<()> {
    let mut b = vec![0x80 | opcode];
    if body.len() < 126 {
        b.push(0x80 | body.len() as u8);
    } else {
        b.push(0x80 | 126);
        b.extend((body.len() as u16).to_be_bytes());
    }
    b.extend([0; 4]);
    b.extend(body);
    w.write_all(&b).await
}
async fn frame_in(r: &mut OwnedReadHalf) -> std::io::Result<(u8, Vec<u8>)> {
    let op = r.read_u8().await? & 0x0f;
    let n = match r.read_u8().await? & 0x7f {
        126 => u64::from(r.read_u16().await?),
        127 => r.read_u64().await?,
        n => u64::from(n),
    };
    let mut b = vec![0; n as usize];
    r.read_exact(&mut b).await?;
    Ok((op, b))
}
fn cbor<T: serde::Serialize>(v: &T) -> Vec<u8> {
    let mut b = vec![];
    ciborium::into_writer(v, &mut b).unwrap();
    b
}
fn chunk_of(s: i64, i: u64) -> ChunkId {
    ChunkId::from((SubmissionId::try_from(s).unwrap(), u63::new(i).into()))
}
fn report(n: usize) -> Vec<u8> {
    let id = chunk_of(1 << 40, n as u64);
    let contents = if n % 2 == 0 { ClientToServerMessage::CompleteChunk { id, output_content: None } } else { ClientToServerMessage::FailChunk { id, failure: "x".into() } };
    cbor(&Envelope { nonce: n, contents })
}
fn want(n: usize) -> Vec<u8> { want_many(n, 3) }
fn want_many(n: usize, max: usize) -> Vec<u8> {
    cbor(&Envelope { nonce: n, contents: ClientToServerMessage::WantToReserveChunks { max, strategy: Strategy::Oldest } })
}

struct Sys {
    server: hx::sut::Server,
    pools: DBPools,
    dir: std::path::PathBuf,
}
static SERIAL: AtomicU64 = AtomicU64::new(0);
async fn sys(base: &std::path::Path, i: u64, max: usize, readers: u32) -> Sys {
    let dir = base.join(format!("s{}", SERIAL.fetch_add(1, SeqCst)));
    std::fs::create_dir_all(&dir).unwrap();
    let pools = opsqueue::db::open_and_setup(dir.join("q.db").to_str().unwrap(), NonZero::new(readers).unwrap()).await;
    let cfg = Config { heartbeat_interval: Duration::from_millis(i).into(), max_missable_heartbeats: max, ..Config::default() };
    let server = hx::sut::Server::start(&pools, cfg, Duration::from_secs(600)).await;
    Sys { server, pools, dir }
}
impl Drop for Sys {
    fn drop(&mut self) {
        self.server.stop();
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
async fn insert(addr: &str, sizes: &[usize]) {
    let contents = sizes.iter().map(|n| Some(vec![b'x'; *n])).collect();
    let s = InsertSubmission { chunk_contents: ChunkContents::Direct { contents }, metadata: None, strategic_metadata: Default::default(), chunk_size: None };
    Producer::new(addr).insert_submission(&s, &Default::default()).await.unwrap();
}

/// opsqueue's server against one peer that lives in some way for a while and then falls silent.
async fn server_case(b: &Value, log: &Log, base: &std::path::Path) {
    let (i, max) = (b["I"].as_u64().unwrap(), b["max"].as_u64().unwrap() as usize);
    let ms = |x: f64| Duration::from_millis((i as f64 * x) as u64);
    let mode = b["mode"].as_str().unwrap();
    let gap = b["gap"].as_f64().unwrap_or(0.5);
    let live = ms(b["live"].as_f64().unwrap());
    let stall = b["stall"].as_f64();
    let s = sys(base, i, max, 1).await;
    let addr = s.server.addr.clone();
    let held = b["held"].as_bool().unwrap_or(false);
    let full = b["full"].as_bool().unwrap_or(false);
    if held { insert(&addr, &[1, 1]).await; }
    if full { for _ in 0..24 { insert(&addr, &[500_000]).await; } }
    tokio::time::sleep(ms(b["phase"].as_f64().unwrap_or(0.0))).await;
    let Ok((mut r, w)) = shake(&addr).await else { return };
    log.put("conn", json!({"c": 1, "who": "server", "i": i, "max": max, "stall": stall.is_some(), "full": full, "held": held || full, "real": false, "call": false}));
    let w = Arc::new(tokio::sync::Mutex::new(w));
    let alive = Arc::new(AtomicBool::new(true));
    let gone = Arc::new(AtomicBool::new(false));
    let deaf = Arc::new(AtomicBool::new(false));
    let say = { let (w, log) = (w.clone(), log.clone()); move |op: u8, body: Vec<u8>| { let (w, log) = (w.clone(), log.clone()); async move {
        log.put("say", json!({"c": 1}));
        let _ = frame_out(&mut *w.lock().await, op, &body).await;
    } } };
    // what is heard
    let reader = tokio::spawn({
        let (alive, gone, deaf, log, say, mode) = (alive.clone(), gone.clone(), deaf.clone(), log.clone(), say.clone(), mode.to_string());
        let delay = ms(b["delay"].as_f64().unwrap_or(0.0));
        let skip = b["skip"].as_u64().unwrap_or(1);
        async move {
            let mut pings = 0;
            loop {
                if deaf.load(SeqCst) {
                    tokio::time::sleep(Duration::from_millis(5)).await;
                    continue;
                }
                match frame_in(&mut r).await {
                    Ok((8, _)) | Err(_) => break,
                    Ok((op, body)) => {
                        log.put("hear", json!({"c": 1}));
                        if op == 9 && mode == "pong" && alive.load(SeqCst) {
                            pings += 1;
                            if pings % skip == 0 {
                                let (say, alive) = (say.clone(), alive.clone());
                                tokio::spawn(async move {
                                    tokio::time::sleep(delay).await;
                                    if alive.load(SeqCst) { say(10, body).await; }
                                });
                            }
                        }
                    }
                }
            }
            log.put("gone", json!({"c": 1}));
            gone.store(true, SeqCst);
        }
    });
    if held { say(2, want(1)).await; }
    if full {
        deaf.store(true, SeqCst);
        say(2, want_many(1, 50)).await;
    }
    let stalled = stall.map(|x| {
        let (pools, d, say) = (s.pools.clone(), ms(x), say.clone());
        let at = ms(1.3);
        tokio::spawn(async move {
            tokio::time::sleep(at).await;
            // The only reader there is: a request for chunks has to wait for it.
            let c = pools.reader_conn().await;
            say(2, want(77)).await;
            tokio::time::sleep(d).await;
            drop(c);
        })
    });
    let t = Instant::now();
    let mut n = 10;
    while t.elapsed() < live && !gone.load(SeqCst) {
        n += 1;
        match mode {
            "ping" => say(9, vec![b'p'; n % 100]).await,
            "stray-pong" => say(10, b"y".to_vec()).await,
            "report" => say(2, report(n)).await,
            "want" => say(2, want(n)).await,
            "mixed" => match n % 4 { 0 => say(9, vec![]).await, 1 => say(10, vec![]).await, 2 => say(2, report(n)).await, _ => say(2, want(n)).await },
            _ => {}
        }
        tokio::time::sleep(ms(gap)).await;
    }
    if let Some(x) = stalled { let _ = x.await; }
    // Somebody else is waiting for what this one holds.
    let heir = if held || full {
        let c = hx::consumer::Conn::open(9, &addr, 1).await.ok();
        if let Some(c) = &c { c.send(1, ClientToServerMessage::WantToReserveChunks { max: 3, strategy: Strategy::Oldest }).await; }
        c
    } else { None };
    alive.store(false, SeqCst);
    log.put("silent", json!({"c": 1}));
    let end = ms(max as f64 + 2.0) + Duration::from_millis(2500);
    let t = Instant::now();
    let mut free = heir.is_none();
    while t.elapsed() < end && !(gone.load(SeqCst) && free) {
        tokio::time::sleep(Duration::from_millis(5)).await;
        if let (false, Some(h)) = (free, &heir) {
            while let Ok((_, m)) = h.inbox.lock().await.try_recv() {
                if matches!(m, hx::consumer::Incoming::Answer(..)) { free = true; log.put("free", json!({"c": 1})); }
            }
        }
    }
    log.put("end", json!({"c": 1}));
    if let Some(h) = heir { h.vanish().await; }
    reader.abort();
}

/// opsqueue's consumer client against a server that lives in some way for a while and then falls silent.
async fn client_case(b: &Value, log: &Log) {
    let (i, max) = (b["I"].as_u64().unwrap(), b["max"].as_u64().unwrap() as usize);
    let ms = |x: f64| Duration::from_millis((i as f64 * x) as u64);
    let mode = b["mode"].as_str().unwrap().to_string();
    let gap = ms(b["gap"].as_f64().unwrap_or(0.5));
    let live = ms(b["live"].as_f64().unwrap());
    // A small window: little of what the client sends fits in between.
    let l = tokio::net::TcpSocket::new_v4().unwrap();
    l.set_recv_buffer_size(65536).unwrap();
    l.bind("127.0.0.1:0".parse().unwrap()).unwrap();
    let l = l.listen(16).unwrap();
    let client = Arc::new(OuterClient::new(&l.local_addr().unwrap().to_string()));
    let call = tokio::spawn({
        let (client, log, mode) = (client.clone(), log.clone(), mode.clone());
        async move {
            loop {
                let r = client.reserve_chunks(1, Strategy::Oldest).await;
                if mode == "answer" && r.is_ok() { continue; }
                break;
            }
            log.put("ret", json!({"c": 1}));
        }
    });
    let Ok((s, _)) = l.accept().await else { return };
    // Whoever connects again finds a server that answers.
    let later = tokio::spawn(async move {
        while let Ok((s, _)) = l.accept().await {
            tokio::spawn(async move {
                let Ok(mut ws) = tokio_tungstenite::accept_async(s).await else { return };
                let init = ServerToClientMessage::Init(ConsumerConfig { max_missable_heartbeats: 9, heartbeat_interval: Duration::from_secs(60), version_info: opsqueue::version_info(), conn_id: "h2".into() });
                let _ = ws.send(Message::Binary(cbor(&init).into())).await;
                while let Some(Ok(m)) = ws.next().await {
                    if let Message::Binary(b) = m { if let Ok(Envelope { nonce, contents: ClientToServerMessage::WantToReserveChunks { .. } }) = ciborium::from_reader::<Envelope<ClientToServerMessage>, _>(&*b) {
                        let _ = ws.send(Message::Binary(cbor(&ServerToClientMessage::Sync(Envelope { nonce, contents: SyncServerToClientResponse::ChunksReserved(Ok(vec![])) })).into())).await;
                    } }
                }
            });
        }
    });
    let _ = s.set_nodelay(true);
    let Ok(mut ws) = tokio_tungstenite::accept_async(s).await else { return };
    let init = ServerToClientMessage::Init(ConsumerConfig { max_missable_heartbeats: max, heartbeat_interval: Duration::from_millis(i), version_info: opsqueue::version_info(), conn_id: "h".into() });
    log.put("conn", json!({"c": 1, "who": "client", "i": i, "max": max, "stall": b.get("stall").is_some(), "full": false, "held": false, "real": false, "call": mode != "answer"}));
    let _ = ws.send(Message::Binary(cbor(&init).into())).await;
    let (mut tx, mut rx) = ws.split();
    let nonces = Arc::new(Mutex::new(vec![]));
    let gone = Arc::new(AtomicBool::new(false));
    let deaf = Arc::new(AtomicBool::new(false));
    let stall = b["stall"].as_f64();
    let reader = tokio::spawn({
        let (nonces, gone, log, deaf) = (nonces.clone(), gone.clone(), log.clone(), deaf.clone());
        async move {
            loop {
                while deaf.load(SeqCst) { tokio::time::sleep(Duration::from_millis(3)).await; }
                let Some(Ok(m)) = rx.next().await else { break };
                match m {
                    Message::Binary(b) => if let Ok(Envelope { nonce, contents: ClientToServerMessage::WantToReserveChunks { .. } }) = ciborium::from_reader::<Envelope<ClientToServerMessage>, _>(&*b) { nonces.lock().unwrap().push(nonce); },
                    Message::Close(_) => break,
                    _ => {}
                }
            }
            log.put("gone", json!({"c": 1}));
            gone.store(true, SeqCst);
        }
    });
    let t = Instant::now();
    let mut n = 0;
    let (from, to) = (ms(1.3), ms(1.3 + stall.unwrap_or(0.0)));
    while t.elapsed() < live && !gone.load(SeqCst) {
        n += 1;
        if stall.is_some() {
            if t.elapsed() > to {
                deaf.store(false, SeqCst);
            } else if t.elapsed() > from && !deaf.swap(true, SeqCst) {
                // More than fits in between: the client cannot send anything else until we read it.
                let client = client.clone();
                tokio::spawn(async move { let _ = client.complete_chunk(chunk_of(7, 0), Some(vec![1; 6_000_000])).await; });
                tokio::time::sleep(Duration::from_millis(30)).await;
                log.put("say", json!({"c": 1}));
                let _ = tx.send(Message::Binary(cbor(&ServerToClientMessage::Async(AsyncServerToClientMessage::ChunkReservationExpired(chunk_of(8, 0)))).into())).await;
            }
        }
        let m = match mode.as_str() {
            "ping" => Some(Message::Ping("💓".into())),
            "stray-pong" => Some(Message::Pong("💓".into())),
            "expired" => Some(Message::Binary(cbor(&ServerToClientMessage::Async(AsyncServerToClientMessage::ChunkReservationExpired(chunk_of(5, n)))).into())),
            "answer" => nonces.lock().unwrap().pop().map(|nonce| Message::Binary(cbor(&ServerToClientMessage::Sync(Envelope { nonce, contents: SyncServerToClientResponse::ChunksReserved(Ok(vec![])) })).into())),
            _ => None,
        };
        if let Some(m) = m {
            log.put("say", json!({"c": 1}));
            let _ = tx.send(m).await;
        }
        tokio::time::sleep(gap).await;
    }
    deaf.store(false, SeqCst);
    log.put("silent", json!({"c": 1}));
    let end = ms(max as f64 + 2.0) + Duration::from_millis(2500);
    let t = Instant::now();
    while t.elapsed() < end && !(gone.load(SeqCst) && call.is_finished()) {
        tokio::time::sleep(Duration::from_millis(5)).await;
    }
    log.put("end", json!({"c": 1}));
    later.abort();
    call.abort();
    reader.abort();
}

/// opsqueue's client and server, with a network in between that may stop to carry anything.
/// Connection 1 is the server's side of it, 2 the client's.
async fn pair_case(b: &Value, log: &Log, base: &std::path::Path) {
    let (i, max) = (b["I"].as_u64().unwrap(), b["max"].as_u64().unwrap() as usize);
    let ms = |x: f64| Duration::from_millis((i as f64 * x) as u64);
    let mode = b["mode"].as_str().unwrap().to_string();
    let live = ms(b["live"].as_f64().unwrap());
    let s = sys(base, i, max, 4).await;
    let addr = s.server.addr.clone();
    let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
    let paddr = l.local_addr().unwrap().to_string();
    let (up, down) = (Arc::new(AtomicBool::new(true)), Arc::new(AtomicBool::new(true)));
    let gones: [Arc<AtomicBool>; 2] = [Arc::default(), Arc::default()];
    insert(&addr, &vec![1; b["work"].as_u64().unwrap_or(0) as usize]).await;
    let proxy = tokio::spawn({
        let (log, up, down, gones) = (log.clone(), up.clone(), down.clone(), gones.clone());
        async move {
            let mut first = true;
            while let Ok((a, _)) = l.accept().await {
                let Ok(z) = TcpStream::connect(&addr).await else { continue };
                let _ = (a.set_nodelay(true), z.set_nodelay(true));
                if !first { log.put("again", json!({"c": 2})); }
                first = false;
                for (k, c) in [(0, 1), (1, 2)] { log.put("conn", json!({"c": c, "who": if k == 0 { "server" } else { "client" }, "i": i, "max": max, "stall": false, "full": false, "held": false, "real": true, "call": false})); }
                let (mut ar, mut aw) = a.into_split();
                let (mut zr, mut zw) = z.into_split();
                // from the client to the server
                tokio::spawn({
                    let (log, up, gone) = (log.clone(), up.clone(), gones[1].clone());
                    async move {
                        let mut buf = vec![0; 1 << 16];
                        while let Ok(n @ 1..) = ar.read(&mut buf).await {
                            if !up.load(SeqCst) { continue; }
                            log.put("say", json!({"c": 1}));
                            let _ = zw.write_all(&buf[..n]).await;
                        }
                        if !gone.swap(true, SeqCst) { log.put("gone", json!({"c": 2})); }
                        if up.load(SeqCst) { let _ = zw.shutdown().await; } else { std::mem::forget(zw); }
                    }
                });
                tokio::spawn({
                    let (log, down, gone) = (log.clone(), down.clone(), gones[0].clone());
                    async move {
                        let mut buf = vec![0; 1 << 16];
                        while let Ok(n @ 1..) = zr.read(&mut buf).await {
                            log.put("hear", json!({"c": 1}));
                            if !down.load(SeqCst) { continue; }
                            log.put("say", json!({"c": 2}));
                            let _ = aw.write_all(&buf[..n]).await;
                        }
                        log.put("gone", json!({"c": 1}));
                        gone.store(true, SeqCst);
                        if down.load(SeqCst) { let _ = aw.shutdown().await; } else { std::mem::forget(aw); }
                    }
                });
            }
        }
    });
    let client = Arc::new(OuterClient::new(&paddr));
    // The client's own view of it.
    let health = tokio::spawn({
        let (client, log, gone) = (client.clone(), log.clone(), gones[1].clone());
        async move {
            let mut was = false;
            loop {
                let is = client.is_healthy();
                if was && !is && !gone.swap(true, SeqCst) { log.put("gone", json!({"c": 2})); }
                was = is;
                tokio::time::sleep(Duration::from_millis(4)).await;
            }
        }
    });
    let gap = ms(b["gap"].as_f64().unwrap_or(0.3));
    let user = tokio::spawn({
        let (client, log) = (client.clone(), log.clone());
        async move {
            match mode.as_str() {
                // reports only, one after the other
                "busy" => loop {
                    let r = client.complete_chunk(chunk_of(1 << 40, 1), None).await;
                    if r.is_err() { break; }
                    tokio::time::sleep(gap).await;
                },
                // takes work, reports it, takes more
                "works" => loop {
                    let Ok(v) = client.reserve_chunks(1, Strategy::Oldest).await else { break };
                    for (c, _) in v {
                        tokio::time::sleep(gap).await;
                        let _ = client.complete_chunk(ChunkId::from((c.submission_id, c.chunk_index)), None).await;
                    }
                },
                "idle" => {
                    let _ = client.complete_chunk(chunk_of(1 << 40, 1), None).await;
                    std::future::pending::<()>().await;
                }
                // waits for work that does not come
                _ => { let _ = client.reserve_chunks(1, Strategy::Oldest).await; }
            }
            log.put("ret", json!({"c": 2}));
        }
    });
    tokio::time::sleep(live).await;
    let cut = b["cut"].as_str().unwrap_or("");
    if cut == "both" || cut == "up" { up.store(false, SeqCst); }
    if cut == "both" || cut == "down" { down.store(false, SeqCst); }
    log.put("silent", json!({"c": if cut == "down" { 2 } else { 1 }}));
    if cut == "both" { log.put("silent", json!({"c": 2})); }
    if !cut.is_empty() {
        let end = ms(max as f64 + 2.0) + Duration::from_millis(2500);
        let t = Instant::now();
        while t.elapsed() < end && !((cut == "down" || gones[0].load(SeqCst)) && (cut == "up" || gones[1].load(SeqCst))) {
            tokio::time::sleep(Duration::from_millis(5)).await;
        }
    }
    log.put("end", json!({"c": 1}));
    log.put("end", json!({"c": 2}));
    user.abort();
    health.abort();
    proxy.abort();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let input = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap());
    let mut out = std::io::BufWriter::new(std::fs::File::create(&args[2]).unwrap());
    if std::env::var("HX_VERBOSE").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    if std::env::var("RUST_LOG").is_ok() {
        tracing_subscriber::fmt().with_env_filter(tracing_subscriber::EnvFilter::from_default_env()).with_writer(std::io::stderr).init();
    }
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    let base = std::env::temp_dir().join(format!("hx-heart-{}", std::process::id()));
    std::fs::create_dir_all(&base).unwrap();
    let lines: Vec<String> = input.lines().map(Result::unwrap).filter(|l| !l.trim().is_empty()).collect();
    for batch in lines.chunks(16) {
        // How late things are: a thread, and a task among the others.
        let stop = Arc::new(AtomicBool::new(false));
        let lag = Arc::new(AtomicU64::new(0));
        let watch = |lag: &Arc<AtomicU64>, t: Instant| { lag.fetch_max((t.elapsed().as_millis() as u64).saturating_sub(5), SeqCst); };
        let th = std::thread::spawn({ let (stop, lag) = (stop.clone(), lag.clone()); move || while !stop.load(SeqCst) { let t = Instant::now(); std::thread::sleep(Duration::from_millis(5)); watch(&lag, t); } });
        rt.spawn({ let (stop, lag) = (stop.clone(), lag.clone()); async move { while !stop.load(SeqCst) { let t = Instant::now(); tokio::time::sleep(Duration::from_millis(5)).await; watch(&lag, t); } } });
        let logs: Vec<(String, Vec<Value>)> = rt.block_on(async {
            let tasks: Vec<_> = batch.iter().map(|line| {
                let (line, base) = (line.clone(), base.clone());
                tokio::spawn(async move {
                    let b: Value = serde_json::from_str(&line).unwrap();
                    let log = Log(Arc::default(), Instant::now());
                    match b["kind"].as_str().unwrap() {
                        "server" => server_case(&b, &log, &base).await,
                        "client" => client_case(&b, &log).await,
                        _ => pair_case(&b, &log, &base).await,
                    }
                    let mut v = std::mem::take(&mut *log.0.lock().unwrap());
                    let n = v.iter().rposition(|x| x["op"] == "end").map_or(0, |n| n + 1);
                    v.truncate(n);
                    (line, v)
                })
            }).collect();
            let mut r = vec![];
            for t in tasks { if let Ok(x) = t.await { r.push(x); } }
            r
        });
        stop.store(true, SeqCst);
        let _ = th.join();
        for (line, log) in logs {
            let b: Value = serde_json::from_str(&line).unwrap();
            writeln!(out, "{}", json!({"op": "reset", "a": {"run": b["name"]}, "lag": lag.load(SeqCst), "src": line})).unwrap();
            for v in log { writeln!(out, "{v}").unwrap(); }
        }
    }
    out.flush().unwrap();
    let _ = std::fs::remove_dir_all(&base);
    std::process::exit(0);
}
