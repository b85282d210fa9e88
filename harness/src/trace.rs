//! Recording of behaviours for the trace specification. Ids and times are kept raw while a run
//! lasts and numbered when it is written.
use crate::snap::Snap;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::io::Write;

/// Ids below this are made-up ones that never existed; they are written as they are.
pub const FAKE_BELOW: i64 = 1_000_000;

#[must_use]
pub fn id_value(id: i64) -> Value {
    json!({ "$id": id.to_string() })
}
/// A time (Julian day) to be written as an epoch.
#[must_use]
pub fn time_value(jd: f64) -> Value {
    json!({ "$t": format!("{jd:.12}") })
}
/// Julian day of a moment.
#[must_use]
#[allow(clippy::cast_precision_loss)]
pub fn julian(t: chrono::DateTime<chrono::Utc>) -> f64 {
    t.timestamp_millis() as f64 / 86_400_000.0 + 2_440_587.5
}

struct Line {
    op: String,
    a: Value,
    r: Value,
    mid: Vec<Snap>,
    st: Option<Snap>,
    t: usize,
    extra: Value,
}

#[derive(Default)]
pub struct Run {
    pub name: String,
    pub cfg: Value,
    lines: Vec<Line>,
    /// Beginnings of the epochs 1, 2, ... (Julian days).
    pub marks: Vec<f64>,
}

impl Run {
    #[must_use]
    pub fn new(name: &str, cfg: Value) -> Run {
        Run { name: name.into(), cfg, ..Run::default() }
    }
    /// Begins a new epoch, well apart from everything before and after.
    pub fn mark(&mut self) {
        std::thread::sleep(std::time::Duration::from_millis(4));
        self.marks.push(julian(chrono::Utc::now()));
        std::thread::sleep(std::time::Duration::from_millis(4));
    }
    /// Begins an epoch at the given moment, which may lie in the middle of the last operation.
    pub fn mark_at(&mut self, jd: f64) {
        self.marks.push(jd);
    }
    #[must_use]
    pub fn mark_time(&self, k: usize) -> f64 {
        if k == 0 { 0.0 } else { self.marks[k - 1] }
    }
    pub fn event(&mut self, op: &str, a: Value, r: Value, mid: Vec<Snap>, st: Option<Snap>, extra: Value) {
        let t = self.marks.len();
        self.lines.push(Line { op: op.into(), a, r, mid, st, t, extra });
    }
    #[must_use]
    pub fn len(&self) -> usize {
        self.lines.len()
    }
    #[must_use]
    pub fn is_empty(&self) -> bool {
        self.lines.is_empty()
    }

    pub fn write(&self, out: &mut impl Write, src: &Value) {
        let mut ids: BTreeSet<i64> = BTreeSet::new();
        fn collect(v: &Value, ids: &mut BTreeSet<i64>) {
            match v {
                Value::Array(xs) => xs.iter().for_each(|x| collect(x, ids)),
                Value::Object(m) => {
                    if let Some(Value::String(s)) = m.get("$id") {
                        ids.insert(s.parse().unwrap());
                    } else {
                        m.values().for_each(|x| collect(x, ids));
                    }
                }
                _ => {}
            }
        }
        for l in &self.lines {
            for s in l.mid.iter().chain(l.st.iter()) {
                ids.extend(s.ids());
                ids.extend(s.pend.iter().map(|x| x.0));
                ids.extend(s.comp.iter().map(|x| x.0));
                ids.extend(s.fail.iter().map(|x| x.0));
                ids.extend(s.meta.iter().map(|x| x.0));
            }
            collect(&l.a, &mut ids);
            collect(&l.r, &mut ids);
            collect(&l.extra, &mut ids);
        }
        let order: Vec<i64> = ids.into_iter().filter(|x| *x >= FAKE_BELOW).collect();
        let num = |x: i64| {
            if x < FAKE_BELOW {
                x
            } else {
                order.binary_search(&x).map_or(-2, |k| k as i64 + 1)
            }
        };
        // Only the epochs that had begun when a line was recorded count for it.
        let epoch_at = |n: usize, t: f64| {
            if t < 0.0 {
                -1
            } else {
                self.marks[..n].iter().filter(|m| **m <= t + 1e-9).count() as i64
            }
        };
        fn subst(v: &Value, num: &dyn Fn(i64) -> i64, epoch: &dyn Fn(f64) -> i64) -> Value {
            match v {
                Value::Array(xs) => Value::Array(xs.iter().map(|x| subst(x, num, epoch)).collect()),
                Value::Object(m) => {
                    if let Some(Value::String(s)) = m.get("$id") {
                        json!(num(s.parse().unwrap()))
                    } else if let Some(Value::String(s)) = m.get("$t") {
                        json!(epoch(s.parse().unwrap()))
                    } else {
                        Value::Object(m.iter().map(|(k, x)| (k.clone(), subst(x, num, epoch))).collect())
                    }
                }
                x => x.clone(),
            }
        }
        let mut cfg = self.cfg.clone();
        cfg["run"] = json!(self.name);
        writeln!(out, "{}", json!({"op": "reset", "a": cfg, "src": src.to_string()})).unwrap();
        let mut prev: Option<&Snap> = None;
        for l in &self.lines {
            let epoch = |t: f64| epoch_at(l.t, t);
            if l.op == "age" {
                prev = None;
            }
            let mut o = serde_json::Map::new();
            o.insert("op".into(), json!(l.op));
            o.insert("a".into(), subst(&l.a, &num, &epoch));
            o.insert("r".into(), subst(&l.r, &num, &epoch));
            o.insert("t".into(), json!(l.t));
            if let Value::Object(m) = subst(&l.extra, &num, &epoch) {
                o.extend(m);
            }
            // States equal to the one before are left out.
            let mut mids: Vec<Value> = vec![];
            for m in &l.mid {
                if prev != Some(m) {
                    mids.push(m.project(&num, &epoch));
                    prev = Some(m);
                }
            }
            if !mids.is_empty() {
                o.insert("mid".into(), Value::Array(mids));
            }
            if let Some(st) = &l.st {
                if prev != Some(st) || o.contains_key("mid") {
                    o.insert("st".into(), st.project(&num, &epoch));
                }
                prev = Some(st);
            }
            writeln!(out, "{}", Value::Object(o)).unwrap();
        }
    }
}
