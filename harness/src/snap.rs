//! Reads the stored state through a SQLite connection of our own.
use crate::{repr_bytes, repr_opt, repr_text};
use libsqlite3_sys as ffi;
use serde_json::{json, Value};
use std::ffi::{CStr, CString};

pub struct Raw(*mut ffi::sqlite3);
unsafe impl Send for Raw {}

#[derive(Debug, Clone, PartialEq)]
pub enum Cell {
    Null,
    Int(i64),
    Real(f64),
    Bytes(Vec<u8>),
}
impl Cell {
    #[must_use]
    pub fn int(&self) -> i64 {
        match self {
            Cell::Int(i) => *i,
            #[allow(clippy::cast_possible_truncation)]
            Cell::Real(f) => *f as i64,
            _ => -1,
        }
    }
    #[must_use]
    pub fn real(&self) -> f64 {
        match self {
            #[allow(clippy::cast_precision_loss)]
            Cell::Int(i) => *i as f64,
            Cell::Real(f) => *f,
            _ => -1.0,
        }
    }
    #[must_use]
    pub fn bytes(&self) -> Option<&[u8]> {
        match self {
            Cell::Bytes(b) => Some(b),
            _ => None,
        }
    }
}

impl Raw {
    #[must_use]
    pub fn open(file: &str) -> Raw {
        crate::hooks::without(|| {
            let mut db = std::ptr::null_mut();
            let name = CString::new(file).unwrap();
            let rc = unsafe {
                ffi::sqlite3_open_v2(
                    name.as_ptr(),
                    &raw mut db,
                    ffi::SQLITE_OPEN_READWRITE | ffi::SQLITE_OPEN_NOMUTEX,
                    std::ptr::null(),
                )
            };
            assert_eq!(rc, ffi::SQLITE_OK, "opening {file}");
            unsafe { ffi::sqlite3_busy_timeout(db, 10_000) };
            Raw(db)
        })
    }
    pub fn try_query(&self, sql: &str) -> Result<Vec<Vec<Cell>>, String> {
        let csql = CString::new(sql).unwrap();
        let mut out = vec![];
        unsafe {
            let mut stmt = std::ptr::null_mut();
            let rc = ffi::sqlite3_prepare_v2(self.0, csql.as_ptr(), -1, &raw mut stmt, std::ptr::null_mut());
            if rc != ffi::SQLITE_OK {
                return Err(CStr::from_ptr(ffi::sqlite3_errmsg(self.0)).to_string_lossy().into_owned());
            }
            loop {
                let rc = ffi::sqlite3_step(stmt);
                if rc == ffi::SQLITE_ROW {
                    let n = ffi::sqlite3_column_count(stmt);
                    out.push(
                        (0..n)
                            .map(|i| match ffi::sqlite3_column_type(stmt, i) {
                                ffi::SQLITE_INTEGER => Cell::Int(ffi::sqlite3_column_int64(stmt, i)),
                                ffi::SQLITE_FLOAT => Cell::Real(ffi::sqlite3_column_double(stmt, i)),
                                ffi::SQLITE_NULL => Cell::Null,
                                _ => {
                                    let p = ffi::sqlite3_column_blob(stmt, i).cast::<u8>();
                                    let len = usize::try_from(ffi::sqlite3_column_bytes(stmt, i)).unwrap();
                                    Cell::Bytes(if len == 0 { vec![] } else { std::slice::from_raw_parts(p, len).to_vec() })
                                }
                            })
                            .collect(),
                    );
                } else if rc == ffi::SQLITE_DONE {
                    break;
                } else {
                    let e = CStr::from_ptr(ffi::sqlite3_errmsg(self.0)).to_string_lossy().into_owned();
                    ffi::sqlite3_finalize(stmt);
                    return Err(e);
                }
            }
            ffi::sqlite3_finalize(stmt);
        }
        Ok(out)
    }
    #[must_use]
    pub fn query(&self, sql: &str) -> Vec<Vec<Cell>> {
        self.try_query(sql).unwrap_or_else(|e| panic!("{sql}: {e}"))
    }
    /// Empties all tables, for the next behaviour.
    pub fn wipe(&self) {
        let _ = self.query("BEGIN IMMEDIATE");
        for t in TABLES {
            let _ = self.query(&format!("DELETE FROM {t}"));
        }
        let _ = self.query("COMMIT");
    }
}
impl Drop for Raw {
    fn drop(&mut self) {
        unsafe { ffi::sqlite3_close(self.0) };
    }
}

pub const TABLES: [&str; 8] = [
    "submissions", "submissions_completed", "submissions_failed", "submissions_cancelled",
    "chunks", "chunks_completed", "chunks_failed", "submissions_metadata",
];

/// One durable state, with real ids and times.
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Snap {
    pub subs: Vec<SubRow>,
    pub pend: Vec<(i64, i64, i64, String)>,
    pub comp: Vec<(i64, i64, String, f64)>,
    pub fail: Vec<(i64, i64, String, i64, String, f64)>,
    pub meta: Vec<(i64, String, String)>,
}
#[derive(Debug, Clone, PartialEq)]
pub struct SubRow {
    pub id: i64,
    pub st: &'static str,
    pub total: i64,
    pub done: i64,
    pub fc: i64,
    pub pfx: String,
    pub md: String,
    pub cs: i64,
    pub car: String,
    pub t: f64,
}

impl Snap {
    #[must_use]
    pub fn take(raw: &Raw) -> Snap {
        let _ = raw.query("BEGIN");
        let mut s = Snap::default();
        let mut add = |st: &'static str, sql: &str| {
            for r in raw.query(sql) {
                s.subs.push(SubRow {
                    id: r[0].int(),
                    st,
                    total: r[1].int(),
                    done: r[2].int(),
                    fc: r[3].int(),
                    pfx: repr_opt(r[4].bytes()),
                    md: repr_opt(r[5].bytes()),
                    cs: r[6].int(),
                    car: r[7].bytes().map_or_else(|| "~".into(), |b| crate::repr_car(&String::from_utf8_lossy(b))),
                    t: r[8].real(),
                });
            }
        };
        add("P", "SELECT id, chunks_total, chunks_done, NULL, prefix, metadata, chunk_size, otel_trace_carrier, NULL FROM submissions");
        add("C", "SELECT id, chunks_total, NULL, NULL, prefix, metadata, chunk_size, otel_trace_carrier, completed_at FROM submissions_completed");
        add("F", "SELECT id, chunks_total, chunks_done, failed_chunk_id, prefix, metadata, chunk_size, otel_trace_carrier, failed_at FROM submissions_failed");
        add("X", "SELECT id, chunks_total, chunks_done, NULL, prefix, metadata, NULL, NULL, cancelled_at FROM submissions_cancelled");
        for r in raw.query("SELECT submission_id, chunk_index, retries, input_content FROM chunks") {
            s.pend.push((r[0].int(), r[1].int(), r[2].int(), repr_opt(r[3].bytes())));
        }
        for r in raw.query("SELECT submission_id, chunk_index, output_content, completed_at FROM chunks_completed") {
            s.comp.push((r[0].int(), r[1].int(), repr_opt(r[2].bytes()), r[3].real()));
        }
        for r in raw.query("SELECT submission_id, chunk_index, failure, skipped, input_content, failed_at FROM chunks_failed") {
            s.fail.push((
                r[0].int(), r[1].int(),
                repr_text(r[2].bytes().unwrap_or(b"")),
                r[3].int(), repr_opt(r[4].bytes()), r[5].real(),
            ));
        }
        for r in raw.query("SELECT submission_id, metadata_key, metadata_value FROM submissions_metadata") {
            s.meta.push((r[0].int(), repr_bytes(r[1].bytes().unwrap_or(b"?")), r[2].int().to_string()));
        }
        let _ = raw.query("COMMIT");
        s
    }

    /// As the specification sees it: ids numbered in order, times as epochs.
    pub fn project(&self, id: &dyn Fn(i64) -> i64, epoch: &dyn Fn(f64) -> i64) -> Value {
        json!({
            "subs": self.subs.iter().map(|x| json!({
                "id": id(x.id), "st": x.st, "total": x.total, "done": x.done, "fc": x.fc, "pfx": x.pfx,
                "md": x.md, "cs": x.cs, "car": x.car, "t": epoch(x.t)})).collect::<Vec<_>>(),
            "pend": self.pend.iter().map(|(s, i, r, c)| json!({"s": id(*s), "i": i, "r": r, "c": c})).collect::<Vec<_>>(),
            "comp": self.comp.iter().map(|(s, i, o, t)| json!({"s": id(*s), "i": i, "o": o, "t": epoch(*t)})).collect::<Vec<_>>(),
            "fail": self.fail.iter().map(|(s, i, f, k, c, t)|
                json!({"s": id(*s), "i": i, "f": f, "k": k, "c": c, "t": epoch(*t)})).collect::<Vec<_>>(),
            "meta": self.meta.iter().map(|(s, k, v)| json!({"s": id(*s), "k": k, "v": v})).collect::<Vec<_>>(),
        })
    }
    #[must_use]
    pub fn ids(&self) -> Vec<i64> {
        self.subs.iter().map(|x| x.id).collect()
    }
}
