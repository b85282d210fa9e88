//! Replays behaviours of the specification into a whole server (HTTP and WebSocket, in this process)
//! and records what happened.
//!
//! hx-wire IN.ndjson OUT.ndjson
use hx::consumer::{Conn, Incoming};
use hx::gen::{bytes_of, insert_args, insert_repr, sm_of, sm_repr, strategy, text_of};
use hx::snap::{Raw, Snap};
use hx::sut::{metric, prom, Server};
use hx::trace::{id_value, Run};
use hx::view::{opt_str, sm_json, status_json};
use hx::{hooks, otel, repr_bytes, repr_car, repr_opt, repr_text};
use opsqueue::common::chunk::{Chunk, ChunkId, ChunkSize};
use opsqueue::common::errors::{SubmissionNotCancellable, E};
use opsqueue::common::submission::{db as sdb, Submission, SubmissionId, SubmissionStatus};
use opsqueue::common::StrategicMetadataMap;
use opsqueue::config::Config;
use opsqueue::consumer::common::{ClientToServerMessage, SyncServerToClientResponse};
use opsqueue::consumer::strategy::Strategy;
use opsqueue::db::{Connection as _, DBPools};
use opsqueue::producer::{ChunkContents, Client as Producer, InsertSubmission};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::io::{BufRead, Write};
use std::num::NonZero;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use ux::u63;

const READERS: u32 = 6;
const PATIENCE: Duration = Duration::from_secs(10);

#[derive(Clone)]
struct Waiting {
    w: i64,
    nonce: usize,
    lim: u64,
    strat: Value,
}

struct World {
    pools: DBPools,
    server: Server,
    producer: Producer,
    look: Mutex<Raw>,
    ids: Mutex<Vec<i64>>,
    marks: Mutex<Vec<f64>>,
    conns: Mutex<BTreeMap<i64, Arc<Conn>>>,
    gone: Mutex<Vec<Arc<Conn>>>,
    waiting: Mutex<Vec<Waiting>>,
    answers: Mutex<Vec<Value>>,
    told: Mutex<Vec<(i64, i64, i64, Instant)>>,
    strays: Mutex<Vec<Value>>,
    /// chunk -> (holder, asked for it at, got it at)
    held: Mutex<HashMap<(i64, i64), (i64, Instant, Instant)>>,
    ttl: Duration,
    /// When what is being done now was begun.
    since: Mutex<Instant>,
    serial: AtomicUsize,
    clock: AtomicUsize,
    hung: AtomicUsize,
    void: AtomicBool,
}

fn strat_repr(v: &Value) -> Value {
    let keys: Vec<Value> = v["keys"].as_array().map_or(vec![], |ks| ks.iter().map(|k| json!(repr_bytes(text_of(k).as_bytes()))).collect());
    json!({"keys": keys, "base": v["base"].as_str().unwrap_or("Oldest")})
}
fn key_of(c: ChunkId) -> (i64, i64) {
    (c.submission_id.into(), i64::try_from(u64::from(u63::from(c.chunk_index))).unwrap())
}
fn chunk_json(c: &Chunk, s: &Submission) -> Value {
    json!({"s": id_value(c.submission_id.into()), "i": u64::from(u63::from(c.chunk_index)), "r": c.retries, "c": repr_opt(c.input_content.as_deref()),
        "pfx": opt_str(s.prefix.as_ref()), "md": repr_opt(s.metadata.as_deref()), "cs": s.chunk_size.0, "car": repr_car(&s.otel_trace_carrier),
        "total": u64::from(s.chunks_total), "done": u64::from(s.chunks_done), "sm": sm_json(&s.strategic_metadata),
        "own": s.id == c.submission_id})
}

/// The body of a successful answer.
async fn http_get(addr: &str, path: &str) -> Result<String, String> {
    use tokio::io::{AsyncReadExt as _, AsyncWriteExt as _};
    let mut s = tokio::net::TcpStream::connect(addr).await.map_err(|e| e.to_string())?;
    s.write_all(format!("GET {path} HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n").as_bytes()).await.map_err(|e| e.to_string())?;
    let mut b = String::new();
    s.read_to_string(&mut b).await.map_err(|e| e.to_string())?;
    match b.split_once("\r\n\r\n") {
        Some((h, body)) if h.starts_with("HTTP/1.1 200") => Ok(body.to_string()),
        _ => Err(b),
    }
}

impl World {
    fn sid(&self, v: &Value) -> i64 {
        let k = v.as_i64().unwrap_or(999);
        let ids = self.ids.lock().unwrap();
        if k >= 1 && (k as usize) <= ids.len() {
            ids[k as usize - 1]
        } else {
            900 + k.rem_euclid(100)
        }
    }
    fn snap(&self) -> Snap {
        Snap::take(&self.look.lock().unwrap())
    }
    fn conn(&self, w: i64) -> Option<Arc<Conn>> {
        self.conns.lock().unwrap().get(&w).cloned()
    }
    /// Chunks to do that nobody was given.
    fn available(&self) -> usize {
        let s = self.snap();
        let h = self.held.lock().unwrap();
        s.pend.iter().filter(|p| !h.contains_key(&(p.0, p.1))).count()
    }
    fn answer_value(&self, w: i64, asked: Instant, now: Instant, a: &SyncServerToClientResponse) -> Value {
        let SyncServerToClientResponse::ChunksReserved(r) = a;
        match r {
            Err(_) => json!({"k": "zero"}),
            Ok(v) => {
                let mut h = self.held.lock().unwrap();
                for (c, _) in v {
                    h.insert(key_of(ChunkId::from((c.submission_id, c.chunk_index))), (w, asked, now));
                }
                json!({"k": "chunks", "v": v.iter().map(|(c, s)| chunk_json(c, s)).collect::<Vec<_>>()})
            }
        }
    }
    /// Something that arrived while we were waiting for something else.
    fn other(&self, w: i64, at: Instant, m: Incoming) {
        let since = *self.since.lock().unwrap();
        match m {
            Incoming::Answer(n, a) => {
                let mut ws = self.waiting.lock().unwrap();
                if let Some(k) = ws.iter().position(|x| x.w == w && x.nonce == n) {
                    let x = ws.remove(k);
                    drop(ws);
                    let r = self.answer_value(w, since, at, &a);
                    self.answers.lock().unwrap().push(json!({"w": w, "nonce": n, "lim": x.lim, "strat": x.strat, "r": r}));
                } else {
                    drop(ws);
                    let r = self.answer_value(w, since, at, &a);
                    self.strays.lock().unwrap().push(json!({"w": w, "nonce": n, "r": r}));
                }
            }
            Incoming::Expired(c) => {
                let (s, i) = key_of(c);
                self.told.lock().unwrap().push((w, s, i, at));
            }
            Incoming::Unreadable => self.strays.lock().unwrap().push(json!({"w": w, "nonce": -1, "r": {"k": "unreadable"}})),
            Incoming::Ping | Incoming::Closed => {}
        }
    }
    fn drain(&self) {
        let cs: Vec<_> = self.conns.lock().unwrap().values().cloned().collect();
        for c in cs {
            let Ok(mut inbox) = c.inbox.try_lock() else { continue };
            while let Ok((at, m)) = inbox.try_recv() {
                self.other(c.id, at, m);
            }
        }
    }
    async fn fetch(&self, o: &Value) -> (Value, Value) {
        let w = o["w"].as_i64().unwrap_or(1);
        let lim = o["n"].as_u64().unwrap_or(1);
        let Some(c) = self.conn(w) else { return (json!({}), json!({"k": "noconn"})) };
        let nonce = c.next_nonce();
        let mut a = json!({"w": w, "nonce": nonce, "lim": lim, "strat": strat_repr(&o["strat"]), "z": 0});
        let mut inbox = c.inbox.lock().await;
        let asked = Instant::now();
        c.send(nonce, ClientToServerMessage::WantToReserveChunks { max: lim as usize, strategy: strategy(&o["strat"]) }).await;
        // Requests for nothing are answered at once; that tells us that the one before was served.
        let fence = c.next_nonce();
        c.send(fence, ClientToServerMessage::WantToReserveChunks { max: 0, strategy: Strategy::Oldest }).await;
        let (mut res, mut fenced) = (None, None::<Instant>);
        let mut poll = Duration::from_millis(1);
        loop {
            if let Some(t) = fenced {
                // Something is there: it may come a little later (a wake-up, or requests served side by side).
                if res.is_some() || t.elapsed() > Duration::from_secs(2) || self.available() == 0 {
                    break;
                }
                poll = (poll * 2).min(Duration::from_millis(20));
            }
            match tokio::time::timeout(if fenced.is_some() { poll } else { PATIENCE }, inbox.recv()).await {
                Ok(Some((at, Incoming::Answer(n, x)))) if n == nonce && res.is_none() => res = Some(self.answer_value(w, asked, at, &x)),
                Ok(Some((at, Incoming::Answer(n, x)))) if n == fence && fenced.is_none() => {
                    if !matches!(x, SyncServerToClientResponse::ChunksReserved(Err(_))) {
                        self.other(w, at, Incoming::Answer(n, x));
                    }
                    fenced = Some(Instant::now());
                }
                Ok(None | Some((_, Incoming::Closed))) => return (a, json!({"k": "gone"})),
                Ok(Some((at, m))) => self.other(w, at, m),
                Err(_) if fenced.is_some() => {}
                Err(_) => {
                    self.hung.fetch_add(1, SeqCst);
                    return (a, json!({"k": "hung"}));
                }
            }
        }
        let r = res.unwrap_or_else(|| {
            self.waiting.lock().unwrap().push(Waiting { w, nonce, lim, strat: a["strat"].clone() });
            json!({"k": "wait"})
        });
        a["z"] = json!(self.clock.fetch_add(1, SeqCst));
        (a, r)
    }
    async fn report(&self, o: &Value) -> (Value, Value) {
        let w = o["w"].as_i64().unwrap_or(1);
        let s = self.sid(&o["s"]);
        let i = o["i"].as_i64().unwrap_or(0);
        let id = ChunkId::from((SubmissionId::try_from(s).unwrap(), u63::new(i as u64).into()));
        let complete = o["op"] == "complete";
        let (mut a, msg) = if complete {
            let out = bytes_of(&o["out"]);
            (json!({"w": w, "s": id_value(s), "i": i, "out": repr_opt(out.as_deref())}), ClientToServerMessage::CompleteChunk { id, output_content: out })
        } else {
            let f = text_of(&o["msg"]);
            (json!({"w": w, "s": id_value(s), "i": i, "msg": repr_text(f.as_bytes())}), ClientToServerMessage::FailChunk { id, failure: f })
        };
        let Some(c) = self.conn(w) else { return (a, json!({"k": "noconn"})) };
        let mut inbox = c.inbox.lock().await;
        let before = hooks::TX_ENDS.load(SeqCst);
        a["z"] = json!(self.clock.fetch_add(1, SeqCst));
        c.send(c.next_nonce(), msg).await;
        self.held.lock().unwrap().retain(|k, v| !(*k == (s, i) && v.0 == w));
        // Reports are worked off in order; this one is about a submission that never was.
        let bogus = ChunkId::from((SubmissionId::try_from(77i64).unwrap(), u63::new(0).into()));
        c.send(c.next_nonce(), ClientToServerMessage::CompleteChunk { id: bogus, output_content: None }).await;
        let fence = c.next_nonce();
        c.send(fence, ClientToServerMessage::WantToReserveChunks { max: 0, strategy: Strategy::Oldest }).await;
        loop {
            match tokio::time::timeout(PATIENCE, inbox.recv()).await {
                Ok(Some((_, Incoming::Answer(n, _)))) if n == fence => break,
                Ok(None | Some((_, Incoming::Closed))) => return (a, json!({"k": "gone"})),
                Ok(Some((at, m))) => self.other(w, at, m),
                Err(_) => {
                    self.hung.fetch_add(1, SeqCst);
                    return (a, json!({"k": "hung"}));
                }
            }
        }
        drop(inbox);
        let t = Instant::now();
        while hooks::TX_ENDS.load(SeqCst) < before + 2 && t.elapsed() < Duration::from_millis(400) {
            tokio::time::sleep(Duration::from_micros(200)).await;
        }
        (a, json!({"k": "ok"}))
    }
    async fn disconnect(&self, w: i64, polite: bool) -> (Value, Value) {
        let before = metric("consumers_connected_count").unwrap_or(0.0);
        let Some(c) = self.conns.lock().unwrap().remove(&w) else { return (json!({"w": w}), json!({"k": "noconn"})) };
        if polite {
            c.close().await;
        } else {
            c.vanish().await;
        }
        let t = Instant::now();
        while metric("consumers_connected_count").unwrap_or(0.0) >= before && t.elapsed() < Duration::from_millis(600) {
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
        self.held.lock().unwrap().retain(|_, v| v.0 != w);
        self.waiting.lock().unwrap().retain(|x| x.w != w);
        self.gone.lock().unwrap().push(c);
        (json!({"w": w}), json!({"k": "ok"}))
    }
    /// All idle reader connections.
    async fn readers(&self) -> Vec<opsqueue::db::conn::Conn<opsqueue::db::magic::False>> {
        let mut v = vec![];
        for _ in 0..READERS {
            match tokio::time::timeout(Duration::from_millis(if v.is_empty() { 200 } else { 20 }), self.pools.reader_conn()).await {
                Ok(Ok(c)) => v.push(c),
                _ => break,
            }
        }
        v
    }
    /// Forgets what earlier servers told the connections about themselves.
    async fn forget_lookups(&self) {
        for mut c in self.readers().await {
            hooks::lookups(c.get_inner(), true).await;
        }
    }
    /// The server's own idea of what is in flight for a metadata key, if it can be asked.
    async fn in_flight(&self, key: &str) -> Option<Value> {
        for mut c in self.readers().await {
            let r: Result<Option<String>, _> = sqlx::query_scalar("SELECT opsqueue_metadata_counts(?)").bind(key).fetch_one(c.get_inner()).await;
            if let Ok(Some(s)) = r {
                return serde_json::from_str(&s).ok();
            }
        }
        None
    }
    /// Which of the chunks to do are reserved now, if the server can be asked.
    async fn reserved(&self) -> Option<Vec<Value>> {
        let pend = self.snap().pend;
        for mut c in self.readers().await {
            let mut out = vec![];
            let mut known = true;
            for p in &pend {
                let r: Result<Option<i64>, _> = sqlx::query_scalar("SELECT opsqueue_is_reserved(?, ?)").bind(p.0).bind(p.1).fetch_one(c.get_inner()).await;
                match r {
                    Ok(Some(x)) => {
                        if x != 0 {
                            out.push(json!({"s": id_value(p.0), "i": p.1}));
                        }
                    }
                    _ => {
                        known = false;
                        break;
                    }
                }
            }
            if known && !pend.is_empty() {
                return Some(out);
            }
        }
        None
    }
    async fn exec(&self, o: &Value) -> (Value, Value) {
        let err = |e: String| json!({"k": "err", "v": e});
        let op = o["op"].as_str().unwrap_or("");
        match op {
            "fetch" => self.fetch(o).await,
            "complete" | "fail" => self.report(o).await,
            "connect" => {
                let w = o["w"].as_i64().unwrap_or(1);
                let first = self.serial.fetch_add(1, SeqCst) * 1000 + o["nonce"].as_u64().unwrap_or(0) as usize;
                match Conn::open(w, &self.server.addr, first).await {
                    Ok(c) => {
                        self.conns.lock().unwrap().insert(w, Arc::new(c));
                        (json!({"w": w}), json!({"k": "ok"}))
                    }
                    Err(e) => (json!({"w": w}), err(e)),
                }
            }
            "disc" => self.disconnect(o["w"].as_i64().unwrap_or(1), o["how"] != "drop").await,
            // Waits until every reservation there is now has run out.
            "expire" => {
                let pend: Vec<(i64, i64)> = self.snap().pend.iter().map(|p| (p.0, p.1)).collect();
                let all: Vec<((i64, i64), (i64, Instant, Instant))> = self.held.lock().unwrap().iter().map(|(k, v)| (*k, *v)).collect();
                let t = Instant::now();
                loop {
                    self.drain();
                    let told = self.told.lock().unwrap().clone();
                    let done = all.iter().all(|(k, v)| !pend.contains(k) || told.iter().any(|x| (x.0, x.1, x.2) == (v.0, k.0, k.1)));
                    let past = all.iter().all(|(_, v)| v.2.elapsed() > self.ttl + Duration::from_millis(60));
                    if (done && past) || t.elapsed() > self.ttl + Duration::from_secs(8) {
                        break;
                    }
                    tokio::time::sleep(Duration::from_millis(2)).await;
                }
                let (mut told, mut early) = (vec![], false);
                for (v, s, i, at) in std::mem::take(&mut *self.told.lock().unwrap()) {
                    if let Some((_, x)) = all.iter().find(|(k, x)| *k == (s, i) && x.0 == v) {
                        // Reserved at some moment between asking and getting.
                        if std::env::var("HX_VERBOSE").is_ok() { eprintln!("told {v} {s} {i} after {:?}", at.duration_since(x.1)); }
                        early |= at.duration_since(x.1) + Duration::from_millis(20) < self.ttl;
                        told.push(json!({"w": v, "s": id_value(s), "i": i}));
                    }
                }
                self.held.lock().unwrap().retain(|k, v| !all.iter().any(|(k2, v2)| k == k2 && v.0 == v2.0 && v.2 == v2.2));
                (json!({"told": told, "early": early}), json!({"k": "ok"}))
            }
            "inflight" => {
                let k = text_of(&o["key"]);
                let r = self.in_flight(&k).await;
                let a = json!({"k": repr_bytes(k.as_bytes())});
                (a, match r {
                    Some(Value::Object(m)) => json!({"k": "inflight", "v": m.iter().map(|(v, n)| json!({"v": v, "n": n})).collect::<Vec<_>>()}),
                    _ => json!({"k": "unknown"}),
                })
            }
            "insert" => {
                let x = insert_args(o);
                let ctx = o.get("ctx");
                let mut a = insert_repr(&x, &otel::carrier_of(ctx));
                let body = InsertSubmission {
                    chunk_contents: match &x.prefix {
                        Some(p) => ChunkContents::SeeObjectStorage { prefix: p.clone(), count: u63::new(x.contents.len() as u64).into() },
                        None => ChunkContents::Direct { contents: x.contents.clone() },
                    },
                    metadata: x.md.clone(),
                    strategic_metadata: x.sm.iter().cloned().collect::<StrategicMetadataMap>(),
                    chunk_size: if x.cs == -1 { None } else { Some(ChunkSize(x.cs)) },
                };
                if x.cs == -1 {
                    a["cs"] = json!(ChunkSize::default().0);
                }
                if x.prefix.is_some() {
                    a["contents"] = json!(x.contents.iter().map(|_| "~").collect::<Vec<_>>());
                }
                let carrier = opsqueue::tracing::json_to_carrier(&otel::carrier_of(ctx));
                let r = tokio::time::timeout(PATIENCE, self.producer.insert_submission(&body, &carrier)).await;
                hooks::interrupt_in(-1);
                match r {
                    Ok(Ok(id)) => {
                        let id: i64 = id.into();
                        self.ids.lock().unwrap().push(id);
                        a["id"] = id_value(id);
                        // The server's own spans lie below the given one; without one it starts a trace of its own.
                        let mut c = self.pools.reader_conn().await.unwrap();
                        let st = sdb::submission_status(SubmissionId::try_from(id).unwrap(), &mut c).await;
                        let got = match &st {
                            Ok(Some(SubmissionStatus::InProgress(x))) => &x.otel_trace_carrier,
                            Ok(Some(SubmissionStatus::Completed(x))) => &x.otel_trace_carrier,
                            Ok(Some(SubmissionStatus::Failed(x, _))) => &x.otel_trace_carrier,
                            _ => "?",
                        };
                        if ctx.is_none() || otel::same_trace(&otel::carrier_of(ctx), got) {
                            a["car"] = json!(repr_car(got));
                        }
                        (a, json!({"k": "id", "v": id_value(id)}))
                    }
                    Ok(Err(e)) => {
                        a["id"] = json!(-1);
                        (a, err(format!("{e:?}")))
                    }
                    Err(_) => {
                        a["id"] = json!(-1);
                        self.hung.fetch_add(1, SeqCst);
                        (a, json!({"k": "hung"}))
                    }
                }
            }
            "cancel" => {
                let s = self.sid(&o["s"]);
                let r = tokio::time::timeout(PATIENCE, self.producer.cancel_submission(SubmissionId::try_from(s).unwrap())).await;
                (json!({"s": id_value(s)}), match r {
                    Ok(Ok(())) => json!({"k": "ok"}),
                    Ok(Err(E::L(_))) => json!({"k": "notfound"}),
                    Ok(Err(E::R(E::L(e)))) => {
                        let st = match e {
                            SubmissionNotCancellable::Completed(x) => SubmissionStatus::Completed(x),
                            SubmissionNotCancellable::Failed(x, c) => SubmissionStatus::Failed(x, c),
                            SubmissionNotCancellable::Cancelled(x) => SubmissionStatus::Cancelled(x),
                        };
                        json!({"k": "refused", "v": status_json(&st)})
                    }
                    Ok(Err(E::R(E::R(e)))) => err(format!("{e:?}")),
                    Err(_) => json!({"k": "hung"}),
                })
            }
            "cleanup" => {
                let k = o["k"].as_i64().unwrap_or(0);
                let (k, jd) = {
                    let m = self.marks.lock().unwrap();
                    let k = k.clamp(0, m.len() as i64);
                    (k, if k == 0 { 2_440_587.5 } else { m[k as usize - 1] })
                };
                let cut = chrono::DateTime::<chrono::Utc>::from_timestamp_millis(((jd - 2_440_587.5) * 86_400_000.0).round() as i64).unwrap();
                let mut conn = self.pools.writer_conn().await.unwrap();
                let r = sdb::cleanup_old(&mut conn, cut).await;
                (json!({"cut": k}), if r.is_ok() { json!({"k": "ok"}) } else { json!({"k": "err"}) })
            }
            "status" => {
                let s = self.sid(&o["s"]);
                let r = tokio::time::timeout(PATIENCE, self.producer.get_submission(SubmissionId::try_from(s).unwrap())).await;
                (json!({"s": id_value(s)}), match r {
                    Ok(Ok(None)) => json!({"k": "status", "v": {"st": "none"}}),
                    Ok(Ok(Some(x))) => json!({"k": "status", "v": status_json(&x)}),
                    Ok(Err(e)) => err(format!("{e:?}")),
                    Err(_) => json!({"k": "hung"}),
                })
            }
            "prefix" => {
                let p = text_of(&o["p"]);
                let r = tokio::time::timeout(PATIENCE, self.producer.lookup_submission_id_by_prefix(&p)).await;
                (json!({"p": repr_bytes(p.as_bytes())}), match r {
                    Ok(Ok(None)) => json!({"k": "id", "v": -1}),
                    Ok(Ok(Some(x))) => json!({"k": "id", "v": id_value(x.into())}),
                    Ok(Err(e)) => err(format!("{e:?}")),
                    Err(_) => json!({"k": "hung"}),
                })
            }
            "lookup" => {
                let sm = sm_of(&o["sm"]);
                let map: StrategicMetadataMap = sm.iter().cloned().collect();
                let max = o["max"].as_u64().unwrap_or(0);
                let r = tokio::time::timeout(PATIENCE, self.producer.lookup_submission_ids_by_strategic_metadata(&map)).await;
                (json!({"sm": sm_repr(&sm), "max": max}), match r {
                    Ok(Ok(v)) => json!({"k": "ids", "v": v.into_iter().map(|x| id_value(x.into())).collect::<Vec<_>>()}),
                    Ok(Err(E::L(e))) => json!({"k": "toomany", "v": e.0}),
                    Ok(Err(E::R(e))) => err(format!("{e:?}")),
                    Err(_) => json!({"k": "hung"}),
                })
            }
            "counts" => {
                let p = self.producer.count_submissions().await;
                let c = http_get(&self.server.addr, "/producer/submissions/count_completed").await.and_then(|b| b.trim().parse::<u64>().map_err(|e| e.to_string()));
                (json!({}), match (p, c) {
                    (Ok(p), Ok(c)) => json!({"k": "counts", "v": {"p": p, "c": c}}),
                    (p, c) => err(format!("{p:?} {c:?}")),
                })
            }
            "backlog" => {
                // As exported.
                let _ = opsqueue::prometheus::calculate_scaling_metrics(&self.pools).await;
                let n = |x: Option<f64>| x.map_or(-1, |v| v.round() as i64);
                (json!({}), json!({"k": "n", "v": n(metric("operations_in_backlog_count")), "chunks": n(metric("chunks_in_backlog_count"))}))
            }
            _ => (json!({}), err(format!("unknown operation {op}"))),
        }
    }
    /// Waits until every report sent so far has been worked off.
    async fn quiesce(&self) {
        let Some(c) = self.conn(0) else { return };
        let before = hooks::TX_ENDS.load(SeqCst);
        let bogus = ChunkId::from((SubmissionId::try_from(77i64).unwrap(), u63::new(0).into()));
        c.send(c.next_nonce(), ClientToServerMessage::CompleteChunk { id: bogus, output_content: None }).await;
        let t = Instant::now();
        while hooks::TX_ENDS.load(SeqCst) <= before && t.elapsed() < Duration::from_millis(400) {
            tokio::time::sleep(Duration::from_micros(300)).await;
        }
        let mut last = (hooks::TX_ENDS.load(SeqCst), Instant::now());
        while last.1.elapsed() < Duration::from_millis(4) {
            tokio::time::sleep(Duration::from_micros(500)).await;
            let n = hooks::TX_ENDS.load(SeqCst);
            if n != last.0 {
                last = (n, Instant::now());
            }
        }
    }
    /// Lets waiting requests be answered as long as there is something for them.
    async fn settle(&self) -> Option<Value> {
        let mut since = Instant::now();
        let mut n = 0;
        loop {
            self.drain();
            let k = self.answers.lock().unwrap().len();
            if k != n {
                n = k;
                since = Instant::now();
            }
            if self.waiting.lock().unwrap().is_empty() || self.available() == 0 {
                break;
            }
            if since.elapsed() > PATIENCE {
                self.hung.fetch_add(1, SeqCst);
                break;
            }
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
        let answers = std::mem::take(&mut *self.answers.lock().unwrap());
        let strays = std::mem::take(&mut *self.strays.lock().unwrap());
        let lost = !self.waiting.lock().unwrap().is_empty() && self.available() > 0;
        if answers.is_empty() && strays.is_empty() && !lost {
            return None;
        }
        let waiting: Vec<Value> = self.waiting.lock().unwrap().iter().map(|x| json!({"w": x.w, "nonce": x.nonce})).collect();
        if lost {
            // They have been found wanting; do not wait for them again.
            self.waiting.lock().unwrap().clear();
        }
        Some(json!({"answers": answers, "waiting": waiting, "strays": strays, "lost": lost}))
    }
    /// Is some reservation about to expire that should not?
    fn in_danger(&self) -> bool {
        self.held.lock().unwrap().values().any(|v| v.1.elapsed().min(v.2.elapsed() + Duration::from_millis(100)) + Duration::from_millis(150) > self.ttl)
    }
}

struct Driver {
    rt: tokio::runtime::Runtime,
    file: String,
    raw: Raw,
    pools: DBPools,
}

impl Driver {
    fn begin(&mut self, cfg: &Value) -> Arc<World> {
        let _ = hooks::take_mid();
        self.raw.wipe();
        let ttl = Duration::from_millis(cfg["ttl"].as_u64().unwrap_or(600_000));
        let mut c = Config { max_chunk_retries: cfg["max"].as_u64().unwrap_or(10) as u32, ..Config::default() };
        if let Some(m) = cfg["lookup"].as_u64() {
            c.max_submissions_returned = opsqueue::common::MaxSubmissions::new(NonZero::new(m).unwrap()).unwrap();
        }
        let pools = self.pools.clone();
        let file = self.file.clone();
        self.rt.block_on(async move {
            let server = Server::start(&pools, c, ttl).await;
            let producer = Producer::new(&server.addr);
            let w = World {
                pools, server, producer, look: Mutex::new(Raw::open(&file)), ids: Mutex::default(), marks: Mutex::default(),
                conns: Mutex::default(), gone: Mutex::default(), waiting: Mutex::default(), answers: Mutex::default(),
                told: Mutex::default(), strays: Mutex::default(), held: Mutex::default(), ttl, since: Mutex::new(Instant::now()),
                serial: AtomicUsize::new(1), clock: AtomicUsize::new(1), hung: AtomicUsize::new(0), void: AtomicBool::new(false),
            };
            w.forget_lookups().await;
            w.exec(&json!({"op": "connect", "w": 0})).await;
            Arc::new(w)
        })
    }
    fn end(&mut self, w: &World) {
        let ids: Vec<i64> = w.conns.lock().unwrap().keys().copied().collect();
        self.rt.block_on(async {
            for id in ids {
                let c = w.conns.lock().unwrap().remove(&id);
                if let Some(c) = c {
                    c.vanish().await;
                }
            }
            w.server.stop();
            let t = Instant::now();
            while metric("consumers_connected_count").unwrap_or(0.0) > 0.0 && t.elapsed() < Duration::from_secs(2) {
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
        });
    }
    fn settle(&self, world: &Arc<World>, run: &mut Run) {
        let x = world.clone();
        if let Some(a) = self.rt.block_on(async move { x.settle().await }) {
            let mid = hooks::take_mid();
            run.event("wake", a, json!({"k": "ok"}), mid, Some(world.snap()), json!({}));
        }
    }
    fn step(&mut self, world: &Arc<World>, run: &mut Run, o: &Value) {
        let op = o["op"].as_str().unwrap_or("").to_string();
        *world.since.lock().unwrap() = Instant::now();
        if op != "expire" && op != "sleep" && world.in_danger() {
            world.void.store(true, SeqCst);
        }
        match op.as_str() {
            "age" => {
                run.mark();
                *world.marks.lock().unwrap() = run.marks.clone();
                run.event("age", json!({}), json!({"k": "ok"}), vec![], Some(world.snap()), json!({}));
            }
            "sleep" => std::thread::sleep(Duration::from_millis(o["ms"].as_u64().unwrap_or(10))),
            "probe" => {
                let n = world.ids.lock().unwrap().len();
                let mut qs = vec![json!({"op": "counts"}), json!({"op": "backlog"})];
                qs.extend((1..=n + 1).map(|s| json!({"op": "status", "s": s})));
                for key in ["prefix", "lookup", "inflight"] {
                    for x in o.get(key).and_then(Value::as_array).unwrap_or(&vec![]) {
                        let mut q = x.clone();
                        q["op"] = json!(key);
                        qs.push(q);
                    }
                }
                for q in qs {
                    self.step(world, run, &q);
                }
            }
            "burst" => {
                let _ = hooks::take_mid();
                let ops: Vec<Value> = o["ops"].as_array().cloned().unwrap_or_default();
                let x = world.clone();
                let res = self.rt.block_on(async move {
                    let tasks: Vec<_> = ops.iter().map(|q| {
                        let (x, q) = (x.clone(), q.clone());
                        tokio::spawn(async move {
                            let (a, r) = x.exec(&q).await;
                            json!({"op": q["op"], "a": a, "r": r})
                        })
                    }).collect();
                    let mut out = vec![];
                    for t in tasks {
                        out.push(t.await.unwrap_or_else(|_| json!({"op": "?", "a": {}, "r": {"k": "panic"}})));
                    }
                    x.quiesce().await;
                    out
                });
                let mid = hooks::take_mid();
                run.event("burst", json!({"ops": res, "paused": false, "resv": [], "known": false}), json!({"k": "ok"}), mid, Some(world.snap()), json!({}));
                self.settle(world, run);
            }
            _ => {
                let _ = hooks::take_mid();
                let fault = o.get("fault").and_then(Value::as_i64).unwrap_or(-1);
                let istmt = o.get("istmt").and_then(Value::as_i64).unwrap_or(-1);
                let _ = hooks::failed_commits();
                hooks::fail_commit_in(fault);
                hooks::interrupt_in(istmt);
                let x = world.clone();
                let o2 = o.clone();
                let (a, r) = self.rt.block_on(async move { tokio::spawn(async move { x.exec(&o2).await }).await.unwrap_or((json!({}), json!({"k": "panic"}))) });
                hooks::fail_commit_in(-1);
                hooks::interrupt_in(-1);
                let faulted = hooks::failed_commits() > 0;
                let mid = hooks::take_mid();
                let skip = r["k"] == "noconn" || r["k"] == "unknown";
                if op != "expire" && op != "sleep" && world.in_danger() {
                    world.void.store(true, SeqCst);
                }
                if !skip {
                    let extra = if faulted { json!({"fault": fault.max(istmt)}) } else { json!({}) };
                    run.event(&op, a, r, mid, Some(world.snap()), extra);
                }
                self.settle(world, run);
            }
        }
    }
    /// Starts `m`, stops it at its k-th database event, runs `ws`, lets it go on. False if it has fewer events.
    fn race(&mut self, world: &Arc<World>, run: &mut Run, o: &Value, k: u64) -> bool {
        let _ = hooks::take_mid();
        *world.since.lock().unwrap() = Instant::now();
        let m = o["m"].clone();
        let ws: Vec<Value> = o["w"].as_array().cloned().unwrap_or_default();
        let (ptx, mut prx) = tokio::sync::mpsc::unbounded_channel::<()>();
        let (rtx, rrx) = std::sync::mpsc::channel::<()>();
        let rrx = Mutex::new(rrx);
        let mut done = false;
        hooks::on_events(Some(Box::new(move |n, _e| {
            if n != k || done {
                return;
            }
            done = true;
            let _ = ptx.send(());
            let _ = rrx.lock().unwrap().recv_timeout(Duration::from_secs(20));
        })));
        let x = world.clone();
        let out = self.rt.block_on(async move {
            let (y, m2) = (x.clone(), m.clone());
            let mut task = tokio::spawn(async move { y.exec(&m2).await });
            tokio::select! {
                biased;
                Some(()) = prx.recv() => {}
                _ = &mut task => { return None; }
            }
            // What was under way beside the stopped connection comes to rest.
            tokio::time::sleep(Duration::from_millis(3)).await;
            let resv = x.reserved().await;
            let (y, ws2) = (x.clone(), ws.clone());
            let mut inner = tokio::spawn(async move {
                let mut out = vec![];
                for w in &ws2 {
                    let (a, r) = y.exec(w).await;
                    out.push(json!({"op": w["op"], "a": a, "r": r}));
                }
                out
            });
            let mut early = tokio::time::timeout(Duration::from_millis(250), &mut inner).await.ok();
            let in_time = early.is_some();
            let _ = rtx.send(());
            let (a, r) = task.await.unwrap_or((json!({}), json!({"k": "panic"})));
            let mut ops = match early.take() {
                Some(v) => v,
                None => inner.await,
            }
            .unwrap_or_default();
            ops.insert(0, json!({"op": m["op"], "a": a, "r": r}));
            x.quiesce().await;
            Some(json!({"ops": ops, "paused": in_time, "known": resv.is_some(), "resv": resv.unwrap_or_default(), "k": k}))
        });
        hooks::on_events(None);
        let Some(a) = out else { return false };
        let mid = hooks::take_mid();
        run.event("burst", a, json!({"k": "ok"}), mid, Some(world.snap()), json!({}));
        self.settle(world, run);
        true
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let dir = std::env::temp_dir().join(format!("hx-wire-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let file = dir.join("q.db").to_str().unwrap().to_string();
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    let _ = tracing::subscriber::set_global_default(otel::subscriber());
    let _ = prom();
    hooks::install();
    let raw = rt.block_on(async {
        opsqueue::db::open_and_setup(&file, NonZero::new(READERS).unwrap()).await
    });
    let pools = raw;
    let raw = Raw::open(&file);
    let mut d = Driver { rt, file: file.clone(), raw, pools };
    hooks::record(Some(&file));

    let input = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap());
    let mut out = std::io::BufWriter::new(std::fs::File::create(&args[2]).unwrap());
    let (mut hung, mut voids) = (0, 0);
    'all: for line in input.lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let b: Value = serde_json::from_str(&line).unwrap();
        let ops = b["ops"].as_array().unwrap();
        let race = ops.iter().find(|o| o["op"] == "race");
        let only_k = race.and_then(|r| r.get("k")).and_then(Value::as_u64);
        let step = race.and_then(|r| r.get("every")).and_then(Value::as_u64).unwrap_or(1);
        let mut k = only_k.unwrap_or_else(|| race.and_then(|r| r.get("from")).and_then(Value::as_u64).unwrap_or(0));
        loop {
            if std::env::var("HX_VERBOSE").is_ok() {
                eprintln!("{} k={k}", b["name"]);
            }
            let world = d.begin(&b["cfg"]);
            let max = b["cfg"]["max"].as_u64().unwrap_or(10);
            let mut run = Run::new(b["name"].as_str().unwrap_or("b"), json!({"max": max, "kind": "wire"}));
            run.event("init", json!({}), json!({"k": "ok"}), vec![], Some(world.snap()), json!({}));
            let mut more = false;
            for o in ops {
                if o["op"] == "race" {
                    more = d.race(&world, &mut run, o, k);
                    if !more {
                        break;
                    }
                } else {
                    d.step(&world, &mut run, o);
                }
                if world.hung.load(SeqCst) > 0 {
                    break;
                }
            }
            d.settle(&world, &mut run);
            let void = world.void.load(SeqCst);
            voids += usize::from(void);
            if (race.is_none() || more) && !void {
                let mut src = b.clone();
                if let Some(r) = src["ops"].as_array_mut().and_then(|x| x.iter_mut().find(|o| o["op"] == "race")) {
                    r["k"] = json!(k);
                }
                run.write(&mut out, &src);
            }
            hung += world.hung.load(SeqCst);
            d.end(&world);
            if hung >= 3 {
                break 'all;
            }
            if !more || only_k.is_some() || k > 400 {
                break;
            }
            k += step;
        }
    }
    out.flush().unwrap();
    eprintln!("voids: {voids}");
    hooks::record(None);
    let _ = std::fs::remove_dir_all(&dir);
    std::process::exit(0);
}
