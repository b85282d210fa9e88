//! Turning the arguments of generated operations into real values.
use crate::{repr_bytes, repr_opt};
use serde_json::{json, Value};

/// A content: text, `null` for none, or `{len, seed}` for that many arbitrary bytes.
#[must_use]
pub fn bytes_of(v: &Value) -> Option<Vec<u8>> {
    match v {
        Value::String(s) if s == "~" => None,
        Value::String(s) => Some(s.clone().into_bytes()),
        Value::Object(m) => {
            let len = m.get("len").and_then(Value::as_u64).unwrap_or(0) as usize;
            let mut r = crate::rng::Rng(m.get("seed").and_then(Value::as_u64).unwrap_or(1));
            Some((0..len).map(|_| (r.next() & 0xff) as u8).collect())
        }
        _ => None,
    }
}
#[must_use]
pub fn text_of(v: &Value) -> String {
    match v {
        Value::String(s) => s.clone(),
        Value::Object(m) => {
            let len = m.get("len").and_then(Value::as_u64).unwrap_or(0) as usize;
            let mut r = crate::rng::Rng(m.get("seed").and_then(Value::as_u64).unwrap_or(1));
            let alphabet: Vec<char> = "aZ09 \n\t'\"\\%_-/é漢😀{}".chars().collect();
            (0..len).map(|_| *r.pick(&alphabet)).collect()
        }
        _ => String::new(),
    }
}
#[derive(Debug, Clone)]
pub struct InsertArgs {
    pub prefix: Option<String>,
    pub contents: Vec<Option<Vec<u8>>>,
    pub md: Option<Vec<u8>>,
    pub sm: Vec<(String, i64)>,
    pub cs: i64,
}
#[must_use]
pub fn insert_args(a: &Value) -> InsertArgs {
    let contents = match a.get("contents") {
        Some(Value::Array(xs)) => xs.iter().map(bytes_of).collect(),
        _ => {
            // n chunks with distinct contents; very many of them share one
            let n = a.get("n").and_then(Value::as_u64).unwrap_or(0);
            (0..n).map(|i| Some(format!("c{i}").into_bytes())).collect()
        }
    };
    InsertArgs {
        prefix: match a.get("pfx") {
            None | Some(Value::Null) => None,
            Some(Value::String(s)) if s == "~" => None,
            Some(v) => Some(text_of(v)),
        },
        contents,
        md: a.get("md").and_then(bytes_of),
        sm: sm_of(a.get("sm").unwrap_or(&Value::Null)),
        cs: a.get("cs").and_then(Value::as_i64).unwrap_or(1),
    }
}
/// `[[key, value], ...]` or `[{k, v}, ...]`; the last one of a key counts.
#[must_use]
pub fn sm_of(v: &Value) -> Vec<(String, i64)> {
    let mut out: Vec<(String, i64)> = vec![];
    if let Value::Array(xs) = v {
        for x in xs {
            let (k, v) = match x {
                Value::Array(p) if p.len() == 2 => (&p[0], &p[1]),
                Value::Object(m) => (&m["k"], &m["v"]),
                _ => continue,
            };
            let k = text_of(k);
            let v = match v {
                Value::String(s) => s.parse().unwrap_or(0),
                v => v.as_i64().unwrap_or(0),
            };
            out.retain(|(q, _)| *q != k);
            out.push((k, v));
        }
    }
    out
}
#[must_use]
pub fn sm_repr(sm: &[(String, i64)]) -> Value {
    json!(sm.iter().map(|(k, v)| json!({"k": repr_bytes(k.as_bytes()), "v": v.to_string()})).collect::<Vec<_>>())
}
#[must_use]
pub fn insert_repr(x: &InsertArgs, car: &str) -> Value {
    json!({
        "contents": x.contents.iter().map(|c| repr_opt(c.as_deref())).collect::<Vec<_>>(),
        "pfx": repr_opt(x.prefix.as_deref().map(str::as_bytes)),
        "md": repr_opt(x.md.as_deref()),
        "cs": x.cs,
        "car": crate::repr_car(car),
        "sm": sm_repr(&x.sm),
    })
}

#[must_use]
pub fn strategy(v: &Value) -> opsqueue::consumer::strategy::Strategy {
    let mut s = match v["base"].as_str().unwrap_or("Oldest") {
        "Newest" => opsqueue::consumer::strategy::Strategy::Newest,
        "Random" => opsqueue::consumer::strategy::Strategy::Random,
        _ => opsqueue::consumer::strategy::Strategy::Oldest,
    };
    if let Some(ks) = v["keys"].as_array() {
        for k in ks.iter().rev() {
            s = opsqueue::consumer::strategy::Strategy::PreferDistinct { meta_key: text_of(k), underlying: Box::new(s) };
        }
    }
    s
}
