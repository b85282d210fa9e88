//! Replays behaviours of the specification into opsqueue's database layer and records what happened.
//!
//! hx-db IN.ndjson OUT.ndjson
use hx::gen::{bytes_of, insert_args, insert_repr, sm_of, sm_repr, text_of};
use hx::otel;
use hx::view::status_json;
use hx::snap::{Raw, Snap};
use hx::trace::{id_value, Run};
use hx::{hooks, repr_bytes, repr_opt, repr_text};
use opsqueue::common::chunk::{db as cdb, ChunkId, ChunkSize};
use opsqueue::common::errors::{SubmissionNotCancellable, E};
use opsqueue::common::submission::{db as sdb, SubmissionId, SubmissionStatus};
use opsqueue::common::{MaxSubmissions, StrategicMetadataMap};
use opsqueue::db::DBPools;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::io::{BufRead, Write};
use std::num::NonZero;
use std::sync::{Arc, Mutex};
use ux::u63;

struct Db {
    pools: DBPools,
    ids: Mutex<Vec<i64>>,
    max_retries: u32,
    marks: Mutex<Vec<f64>>,
}

impl Db {
    fn sid(&self, v: &Value) -> i64 {
        let k = v.as_i64().unwrap_or(999);
        let ids = self.ids.lock().unwrap();
        if k >= 1 && (k as usize) <= ids.len() {
            ids[k as usize - 1]
        } else {
            900 + k.rem_euclid(100)
        }
    }
    fn chunk(&self, o: &Value) -> (i64, i64, ChunkId) {
        let s = self.sid(&o["s"]);
        let i = o["i"].as_i64().unwrap_or(0);
        let id = ChunkId::from((SubmissionId::try_from(s).unwrap(), u63::new(i as u64).into()));
        (s, i, id)
    }
    /// Runs one operation; the arguments and the answer as the specification sees them.
    async fn exec(&self, o: &Value) -> (Value, Value) {
        let err = |e: String| json!({"k": "err", "v": e});
        let op = o["op"].as_str().unwrap_or("");
        match op {
            "insert" => {
                let x = insert_args(o);
                let car = otel::carrier_of(o.get("ctx"));
                let mut a = insert_repr(&x, &car);
                let sm: StrategicMetadataMap = x.sm.iter().cloned().collect();
                let mut conn = self.pools.writer_conn().await.unwrap();
                let r = otel::within(o.get("ctx"), sdb::insert_submission_from_chunks(x.prefix, x.contents, x.md, sm, ChunkSize(x.cs), &mut conn)).await;
                match r {
                    Ok(id) => {
                        let id: i64 = id.into();
                        self.ids.lock().unwrap().push(id);
                        a["id"] = id_value(id);
                        if o.get("ctx").is_some() {
                            // Spans of its own lie below the given one; the rest is the same.
                            let st = sdb::submission_status(SubmissionId::try_from(id).unwrap(), &mut conn).await;
                            let got = match &st {
                                Ok(Some(SubmissionStatus::InProgress(x))) => &x.otel_trace_carrier,
                                Ok(Some(SubmissionStatus::Completed(x))) => &x.otel_trace_carrier,
                                _ => "?",
                            };
                            if otel::same_trace(&car, got) {
                                a["car"] = json!(hx::repr_car(got));
                            }
                        }
                        (a, json!({"k": "id", "v": id_value(id)}))
                    }
                    Err(e) => {
                        a["id"] = json!(-1);
                        (a, err(format!("{e:?}")))
                    }
                }
            }
            "complete" => {
                let (s, i, id) = self.chunk(o);
                let out = bytes_of(&o["out"]);
                let a = json!({"s": id_value(s), "i": i, "out": repr_opt(out.as_deref())});
                let mut conn = self.pools.writer_conn().await.unwrap();
                let r = cdb::complete_chunk(id, out, &mut conn).await;
                (a, if r.is_ok() { json!({"k": "ok"}) } else { json!({"k": "err"}) })
            }
            "fail" => {
                let (s, i, id) = self.chunk(o);
                let msg = text_of(&o["msg"]);
                let a = json!({"s": id_value(s), "i": i, "msg": repr_text(msg.as_bytes())});
                let mut conn = self.pools.writer_conn().await.unwrap();
                let r = cdb::retry_or_fail_chunk(id, msg, &mut conn, self.max_retries).await;
                (a, match r { Ok(b) => json!({"k": "ok", "v": b}), Err(_) => json!({"k": "err"}) })
            }
            "cancel" => {
                let s = self.sid(&o["s"]);
                let a = json!({"s": id_value(s)});
                let mut conn = self.pools.writer_conn().await.unwrap();
                let r = sdb::cancel_submission(SubmissionId::try_from(s).unwrap(), &mut conn).await;
                let r = match r {
                    Ok(()) => json!({"k": "ok"}),
                    Err(E::L(_)) => json!({"k": "err"}),
                    Err(E::R(E::L(_))) => json!({"k": "notfound"}),
                    Err(E::R(E::R(e))) => {
                        let st = match e {
                            SubmissionNotCancellable::Completed(x) => SubmissionStatus::Completed(x),
                            SubmissionNotCancellable::Failed(x, c) => SubmissionStatus::Failed(x, c),
                            SubmissionNotCancellable::Cancelled(x) => SubmissionStatus::Cancelled(x),
                        };
                        json!({"k": "refused", "v": status_json(&st)})
                    }
                };
                (a, r)
            }
            "cleanup" => {
                let k = o["k"].as_i64().unwrap_or(0);
                let jd = { let m = self.marks.lock().unwrap(); if k <= 0 { 2_440_587.5 } else { m[(k as usize - 1).min(m.len() - 1)] } };
                let k = if k <= 0 { 0 } else { k.min(self.marks.lock().unwrap().len() as i64) };
                let cut = chrono::DateTime::<chrono::Utc>::from_timestamp_millis(((jd - 2_440_587.5) * 86_400_000.0).round() as i64).unwrap();
                let mut conn = self.pools.writer_conn().await.unwrap();
                let r = sdb::cleanup_old(&mut conn, cut).await;
                (json!({"cut": k}), if r.is_ok() { json!({"k": "ok"}) } else { json!({"k": "err"}) })
            }
            "status" => {
                let s = self.sid(&o["s"]);
                let mut conn = self.pools.reader_conn().await.unwrap();
                let r = sdb::submission_status(SubmissionId::try_from(s).unwrap(), &mut conn).await;
                (json!({"s": id_value(s)}), match r {
                    Ok(None) => json!({"k": "status", "v": {"st": "none"}}),
                    Ok(Some(x)) => json!({"k": "status", "v": status_json(&x)}),
                    Err(e) => err(format!("{e:?}")),
                })
            }
            "prefix" => {
                let p = text_of(&o["p"]);
                let mut conn = self.pools.reader_conn().await.unwrap();
                let r = sdb::lookup_id_by_prefix(&p, &mut conn).await;
                (json!({"p": repr_bytes(p.as_bytes())}), match r {
                    Ok(None) => json!({"k": "id", "v": -1}),
                    Ok(Some(x)) => json!({"k": "id", "v": id_value(x.into())}),
                    Err(e) => err(format!("{e:?}")),
                })
            }
            "lookup" => {
                let sm = sm_of(&o["sm"]);
                let max = o["max"].as_u64().unwrap_or(1000);
                let map: StrategicMetadataMap = sm.iter().cloned().collect();
                let mut conn = self.pools.reader_conn().await.unwrap();
                let r = sdb::lookup_ids_by_strategic_metadata(map, MaxSubmissions::new(NonZero::new(max).unwrap()).unwrap(), &mut conn).await;
                (json!({"sm": sm_repr(&sm), "max": max}), match r {
                    Ok(v) => json!({"k": "ids", "v": v.into_iter().map(|x| id_value(x.into())).collect::<Vec<_>>()}),
                    Err(E::R(e)) => json!({"k": "toomany", "v": e.0}),
                    Err(E::L(e)) => err(format!("{e:?}")),
                })
            }
            "counts" => {
                let mut c = self.pools.reader_conn().await.unwrap();
                let r: Result<Value, String> = async {
                    let f = |e: sqlx::Error| e.to_string();
                    let n = |x: u63| u64::from(x);
                    Ok(json!({
                        "p": n(sdb::count_submissions(&mut c).await.map_err(f)?),
                        "c": n(sdb::count_submissions_completed(&mut c).await.map_err(f)?),
                        "f": n(sdb::count_submissions_failed(&mut c).await.map_err(f)?),
                        "cp": n(cdb::count_chunks(&mut c).await.map_err(f)?),
                        "cc": n(cdb::count_chunks_completed(&mut c).await.map_err(f)?),
                        "cf": n(cdb::count_chunks_failed(&mut c).await.map_err(f)?),
                    }))
                }.await;
                (json!({}), match r { Ok(v) => json!({"k": "counts", "v": v}), Err(e) => err(e) })
            }
            "backlog" => {
                let mut c = self.pools.reader_conn().await.unwrap();
                let r = cdb::count_ops_in_backlog_estimate(&mut c).await;
                (json!({}), match r { Ok(v) => json!({"k": "n", "v": v.round() as i64}), Err(e) => err(e.to_string()) })
            }
            "getsub" => {
                let s = self.sid(&o["s"]);
                let mut conn = self.pools.reader_conn().await.unwrap();
                let r = sdb::get_submission(SubmissionId::try_from(s).unwrap(), &mut conn).await;
                (json!({"s": id_value(s)}), match r {
                    Ok(x) => json!({"k": "status", "v": status_json(&SubmissionStatus::InProgress(x))}),
                    Err(E::R(_)) => json!({"k": "status", "v": {"st": "none"}}),
                    Err(E::L(e)) => err(format!("{e:?}")),
                })
            }
            _ => (json!({}), err(format!("unknown operation {op}"))),
        }
    }
}

struct Driver {
    rt: tokio::runtime::Runtime,
    file: String,
    raw: Raw,
    db: Option<Arc<Db>>,
}

impl Driver {
    fn open(&mut self) {
        let pools = self.rt.block_on(opsqueue::db::open_and_setup(&self.file, NonZero::new(4).unwrap()));
        let old = self.db.take();
        let (ids, marks, max_retries) = old.map_or((vec![], vec![], 10), |d| {
            let r = (d.ids.lock().unwrap().clone(), d.marks.lock().unwrap().clone(), d.max_retries);
            r
        });
        self.db = Some(Arc::new(Db { pools, ids: Mutex::new(ids), max_retries, marks: Mutex::new(marks) }));
    }
    fn close(&mut self) {
        if let Some(db) = &self.db {
            let p = db.pools.clone();
            self.rt.block_on(async {
                // Connections are closed when the last handle of the pools is dropped.
                drop(p);
            });
        }
    }
    fn begin(&mut self, max_retries: u32) {
        let _ = hooks::take_mid();
        hooks::fail_commit_in(-1);
        self.raw.wipe();
        let pools = self.db.as_ref().unwrap().pools.clone();
        self.db = Some(Arc::new(Db { pools, ids: Mutex::default(), max_retries, marks: Mutex::default() }));
    }
    fn snap(&self) -> Snap {
        Snap::take(&self.raw)
    }
    fn step(&mut self, run: &mut Run, o: &Value) {
        let op = o["op"].as_str().unwrap_or("");
        if op == "age" {
            // Between the times recorded for a submission and for its chunks, if they differ.
            let snap = self.snap();
            let between = snap.subs.iter().filter(|x| x.st == "F" || x.st == "X").find_map(|x| {
                snap.fail.iter().map(|f| (f.0, f.5)).chain(snap.comp.iter().map(|c| (c.0, c.3)))
                    .find(|(s, t)| *s == x.id && *t > x.t + 1e-9).map(|(_, t)| t)
            });
            match between {
                Some(jd) if o["between"] == true => run.mark_at(jd),
                _ => run.mark(),
            }
            *self.db.as_ref().unwrap().marks.lock().unwrap() = run.marks.clone();
            run.event("age", json!({}), json!({"k": "ok"}), vec![], Some(self.snap()), json!({}));
            return;
        }
        if op == "probe" {
            for q in self.probe(o) {
                self.step(run, &q);
            }
            return;
        }
        if op == "bulk" || op == "stress" {
            let (a, r) = if op == "bulk" { self.bulk(o) } else { stress(o) };
            let _ = hooks::take_mid();
            run.event(op, a, r, vec![], None, json!({}));
            return;
        }
        if op == "reopen" {
            self.close();
            self.open();
            let _ = hooks::take_mid();
            run.event("reopen", json!({}), json!({"k": "ok"}), vec![], Some(self.snap()), json!({}));
            return;
        }
        let _ = hooks::take_mid();
        let fault = o.get("fault").and_then(Value::as_i64).unwrap_or(-1);
        let istmt = o.get("istmt").and_then(Value::as_i64).unwrap_or(-1);
        hooks::fail_commit_in(fault);
        hooks::interrupt_in(istmt);
        let full = o.get("full").and_then(Value::as_i64);
        if full.is_some() {
            hooks::disk_full(full);
        }
        let room = o.get("room").and_then(Value::as_u64);
        if let Some(n) = room {
            let len = std::fs::metadata(format!("{}-wal", self.file)).map_or(0, |m| m.len());
            hooks::file_limit(Some(len + n));
        }
        let db = self.db.clone().unwrap();
        let (a, r) = self.rt.block_on(db.exec(o));
        hooks::fail_commit_in(-1);
        hooks::interrupt_in(-1);
        if full.is_some() {
            hooks::disk_full(None);
        }
        if room.is_some() {
            hooks::file_limit(None);
        }
        let faulted = hooks::failed_commits() > 0 || full.is_some() || room.is_some();
        let mid = hooks::take_mid();
        let extra = if faulted { json!({"fault": fault.max(istmt)}) } else { json!({}) };
        run.event(op, a, r, mid, Some(self.snap()), extra);
    }
    /// More chunks than a snapshot can hold: what requests for all of them give.
    fn bulk(&mut self, o: &Value) -> (Value, Value) {
        use opsqueue::consumer::dispatcher::Dispatcher;
        let num = |k: &str, d: u64| o.get(k).and_then(Value::as_u64).unwrap_or(d);
        let (n, subs, rounds) = (num("n", 1000), num("subs", 1), num("rounds", 1));
        let strat = hx::gen::strategy(&o["strat"]);
        let pools = self.db.as_ref().unwrap().pools.clone();
        hooks::record(None);
        let via_query = o["via"] == "query";
        let lim = num("lim", n) as usize;
        let out = self.rt.block_on(async {
            let mut all: HashSet<(i64, u64)> = HashSet::new();
            let mut conn = pools.writer_conn().await.unwrap();
            for k in 0..subs {
                let m = n / subs + u64::from(k < n % subs);
                let sm: StrategicMetadataMap = [("k".to_string(), (k % 7) as i64)].into_iter().collect();
                let id = sdb::insert_submission_from_chunks(None, vec![None; m as usize], None, sm, ChunkSize(1), &mut conn).await.unwrap();
                all.extend((0..m).map(|i| (i64::from(id), i)));
            }
            drop(conn);
            let key = |c: &opsqueue::common::chunk::Chunk| (i64::from(c.submission_id), u64::from(u63::from(c.chunk_index)));
            let mut out = vec![];
            for _ in 0..rounds {
                let mut got: Vec<(i64, u64)> = vec![];
                let mut over = 0;
                if via_query {
                    let mut c = pools.reader_conn().await.unwrap();
                    hooks::lookups(opsqueue::db::Connection::get_inner(&mut c), false).await;
                    let mut qb = sqlx::QueryBuilder::new("");
                    let q = strat.build_query(&mut qb).build_query_as::<opsqueue::common::chunk::Chunk>();
                    got.extend(q.fetch_all(opsqueue::db::Connection::get_inner(&mut c)).await.unwrap().iter().map(key));
                } else {
                    let disp = Dispatcher::new(std::time::Duration::from_secs(600));
                    let (tx, _rx) = tokio::sync::mpsc::unbounded_channel();
                    loop {
                        let v = disp.fetch_and_reserve_chunks(pools.reader_pool(), strat.clone(), lim, &tx).await.unwrap();
                        over += usize::from(v.len() > lim);
                        if v.is_empty() || got.len() > 2 * all.len() {
                            break;
                        }
                        let short = v.len() < lim;
                        got.extend(v.iter().map(|x| key(&x.0)));
                        // Less than asked for: then that was all.
                        if short {
                            break;
                        }
                    }
                }
                let set: HashSet<_> = got.iter().copied().collect();
                let (mut asc, mut desc) = (0, 0);
                for w in got.windows(2) {
                    asc += usize::from(w[0].0 > w[1].0);
                    desc += usize::from(w[0].0 < w[1].0);
                }
                out.push(json!({"got": got.len(), "twice": got.len() - set.len(), "foreign": set.difference(&all).count(),
                    "missing": all.difference(&set).count(), "over": over, "asc": asc, "desc": desc}));
            }
            out
        });
        self.raw.wipe();
        hooks::record(Some(&self.file));
        let a = json!({"n": n, "strat": {"keys": o["strat"]["keys"].as_array().cloned().unwrap_or_default(), "base": o["strat"]["base"]}});
        (a, json!({"k": "bulk", "v": out}))
    }
    /// All queries about the present state.
    fn probe(&self, o: &Value) -> Vec<Value> {
        let n = self.db.as_ref().unwrap().ids.lock().unwrap().len();
        let mut out = vec![json!({"op": "counts"}), json!({"op": "backlog"})];
        for s in 1..=n + 1 {
            out.push(json!({"op": "status", "s": s}));
        }
        for s in 1..=n.min(2) {
            out.push(json!({"op": "getsub", "s": s}));
        }
        for key in ["prefix", "lookup"] {
            if let Some(Value::Array(xs)) = o.get(key) {
                for x in xs {
                    let mut q = x.clone();
                    q["op"] = json!(key);
                    out.push(q);
                }
            }
        }
        out
    }
    /// Runs `m`, and `w` inside its k-th database event. False when `m` has fewer events.
    fn race(&mut self, run: &mut Run, m: &Value, w: &Value, k: u64) -> bool {
        let _ = hooks::take_mid();
        let db = self.db.clone().unwrap();
        let handle = self.rt.handle().clone();
        let result: Arc<Mutex<Option<(Value, Value)>>> = Arc::default();
        let late: Arc<Mutex<Option<std::sync::mpsc::Receiver<()>>>> = Arc::default();
        let (w2, db2, res2, late2) = (w.clone(), db.clone(), result.clone(), late.clone());
        let mut done = false;
        hooks::on_events(Some(Box::new(move |n, _e| {
            if n != k || done {
                return;
            }
            done = true;
            let (tx, rx) = std::sync::mpsc::channel();
            let (w, db, res) = (w2.clone(), db2.clone(), res2.clone());
            handle.spawn(async move {
                let r = db.exec(&w).await;
                *res.lock().unwrap() = Some(r);
                let _ = tx.send(());
            });
            if rx.recv_timeout(std::time::Duration::from_millis(150)).is_err() {
                *late2.lock().unwrap() = Some(rx);
            }
        })));
        let (a, r) = self.rt.block_on(db.exec(m));
        let events = hooks::on_events(None);
        if events <= k {
            return false;
        }
        let waited = late.lock().unwrap().take();
        let was_late = waited.is_some();
        if let Some(rx) = waited {
            let _ = rx.recv_timeout(std::time::Duration::from_secs(30));
        }
        let (wa, wr) = result.lock().unwrap().take().unwrap_or((json!({}), json!({"k": "hung"})));
        let mid = hooks::take_mid();
        let a = json!({"m": {"op": m["op"], "a": a, "r": r}, "w": {"op": w["op"], "a": wa, "r": wr}, "k": k, "late": was_late});
        run.event("race", a, json!({"k": "ok"}), mid, Some(self.snap()), json!({}));
        true
    }
}

/// Many threads at once at what the server keeps in memory.
fn stress(o: &Value) -> (Value, Value) {
    use opsqueue::consumer::dispatcher::{metastate::MetaState, reserver::Reserver};
    let num = |k: &str, d: u64| o.get(k).and_then(Value::as_u64).unwrap_or(d);
    let (threads, n, vals) = (num("threads", 4), num("n", 10_000), num("vals", 1));
    let keys = ["k", "l"];
    let m = Arc::new(MetaState::new());
    let gate = Arc::new(std::sync::Barrier::new(threads as usize));
    let hs: Vec<_> = (0..threads).map(|t| {
        let (m, gate) = (m.clone(), gate.clone());
        std::thread::spawn(move || {
            let mut r = hx::rng::Rng(t * 7919 + 1);
            let mut left: Vec<(usize, i64)> = vec![];
            let mut sums: std::collections::BTreeMap<(usize, i64), (i64, i64)> = Default::default();
            gate.wait();
            for _ in 0..n {
                let (k, v) = (r.next() as usize % keys.len(), (r.next() % vals) as i64);
                m.increment(keys[k], v);
                sums.entry((k, v)).or_default().0 += 1;
                left.push((k, v));
                while !left.is_empty() && (left.len() > 2 || r.next() % 2 == 0) {
                    let (k, v) = left.swap_remove(r.next() as usize % left.len());
                    m.decrement(keys[k], v);
                    sums.entry((k, v)).or_default().1 += 1;
                }
            }
            sums
        })
    }).collect();
    let mut sums: std::collections::BTreeMap<(usize, i64), (i64, i64)> = Default::default();
    let mut panics = 0;
    for h in hs {
        match h.join() {
            Ok(x) => for (k, v) in x { let e = sums.entry(k).or_default(); e.0 += v.0; e.1 += v.1; },
            Err(_) => panics += 1,
        }
    }
    let v: Vec<Value> = sums.iter().map(|((k, v), (i, d))| json!({"k": keys[*k], "v": v, "inc": i, "dec": d,
        "n": m.get(keys[*k]).and_then(|f| f.get(v)).unwrap_or(0)})).collect();
    // Everybody wants the same keys; nobody gives back what was not theirs.
    let res: Arc<Reserver<u64, u64>> = Arc::new(Reserver::new(std::time::Duration::from_secs(600), |_| {}));
    let keys2 = 400u64;
    let mut rounds = vec![];
    for _ in 0..3 {
        let gate = Arc::new(std::sync::Barrier::new(threads as usize));
        let hs: Vec<_> = (0..threads).map(|_| {
            let (res, gate) = (res.clone(), gate.clone());
            std::thread::spawn(move || {
                let (tx, rx) = tokio::sync::mpsc::unbounded_channel();
                gate.wait();
                let won: Vec<u64> = (0..keys2).filter(|k| res.try_reserve(*k, *k, &tx).is_some()).collect();
                (won, tx, rx)
            })
        }).collect();
        let mut won = vec![0; keys2 as usize];
        let mut held = vec![];
        for h in hs {
            let Ok((w, tx, rx)) = h.join() else { panics += 1; continue };
            for k in &w { won[*k as usize] += 1; }
            held.push((w, tx, rx));
        }
        // What is somebody else's stays theirs.
        let (others, _o) = tokio::sync::mpsc::unbounded_channel();
        let stolen = (0..keys2).filter(|k| res.finish_reservation_sync(k, &others).is_some() || !res.is_reserved(k)).count();
        let mut kept = 0;
        for (w, tx, _rx) in &held {
            kept += w.iter().filter(|k| res.finish_reservation_sync(k, tx).is_none() || res.is_reserved(k)).count();
        }
        rounds.push(json!({"keys": keys2, "twice": won.iter().filter(|x| **x > 1).count(), "none": won.iter().filter(|x| **x == 0).count(), "stolen": stolen, "kept": kept}));
    }
    (json!({"threads": threads, "n": n}), json!({"k": "stress", "v": v, "panics": panics, "rounds": rounds, "left": sums.values().map(|x| x.0 - x.1).sum::<i64>()}))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let dir = std::env::temp_dir().join(format!("hx-db-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let file = dir.join("q.db").to_str().unwrap().to_string();
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap();
    hooks::install();
    hooks::without(|| rt.block_on(async { drop(opsqueue::db::open_and_setup(&file, NonZero::new(2).unwrap()).await) }));
    let raw = Raw::open(&file);
    let mut d = Driver { rt, file: file.clone(), raw, db: None };
    d.open();
    hooks::record(Some(&file));

    let input = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap());
    let mut out = std::io::BufWriter::new(std::fs::File::create(&args[2]).unwrap());
    for line in input.lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let b: Value = serde_json::from_str(&line).unwrap();
        let max = b["cfg"]["max"].as_u64().unwrap_or(10) as u32;
        let ops = b["ops"].as_array().unwrap();
        let name = b["name"].as_str().unwrap_or("b").to_string();
        let race = ops.last().filter(|o| o["op"] == "race");
        let only_k = race.and_then(|r| r.get("k")).and_then(Value::as_u64);
        let mut k = only_k.unwrap_or(0);
        loop {
            d.begin(max);
            let mut run = Run::new(&name, json!({"max": max, "kind": "db"}));
            run.event("init", json!({}), json!({"k": "ok"}), vec![], Some(d.snap()), json!({}));
            let mut more = false;
            for o in ops {
                if o["op"] == "race" {
                    more = d.race(&mut run, &o["m"], &o["w"], k);
                } else {
                    d.step(&mut run, o);
                }
            }
            if race.is_none() || more {
                let mut src = b.clone();
                if let (Some(_), Some(last)) = (race, src["ops"].as_array_mut().and_then(|x| x.last_mut())) {
                    last["k"] = json!(k);
                }
                run.write(&mut out, &src);
            }
            if !more || only_k.is_some() || k > 200 {
                break;
            }
            k += 1;
        }
    }
    out.flush().unwrap();
    hooks::record(None);
    drop(d);
    let _ = std::fs::remove_dir_all(&dir);
}
