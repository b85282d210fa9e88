//! Shared parts of the drivers: reading the stored state, recording traces, and controlling SQLite
//! from the outside (commit faults, interleavings at statement boundaries) without touching opsqueue.
pub mod consumer;
pub mod gen;
pub mod hooks;
pub mod otel;
pub mod rng;
pub mod snap;
pub mod sut;
pub mod trace;
pub mod view;

/// Representation of a byte string in traces: injective for short ones, a digest for long ones.
#[must_use]
pub fn repr_bytes(b: &[u8]) -> String {
    use std::fmt::Write as _;
    if b.len() <= 40 {
        let mut s = String::from("h:");
        for x in b {
            let _ = write!(s, "{x:02x}");
        }
        s
    } else {
        // FNV-1a, twice with different seeds.
        let f = |mut h: u64| {
            for x in b {
                h ^= u64::from(*x);
                h = h.wrapping_mul(0x0100_0000_01b3);
            }
            h
        };
        format!("z:{}:{:016x}{:016x}", b.len(), f(0xcbf2_9ce4_8422_2325), f(0x9e37_79b9_7f4a_7c15))
    }
}

#[must_use]
pub fn repr_opt(b: Option<&[u8]>) -> String {
    b.map_or_else(|| String::from("~"), repr_bytes)
}

/// Failure texts: the empty text is the empty string (that is what skipped chunks have).
#[must_use]
pub fn repr_text(b: &[u8]) -> String {
    if b.is_empty() {
        String::new()
    } else {
        repr_bytes(b)
    }
}

/// Trace context carriers are JSON objects; the order of their entries means nothing.
#[must_use]
pub fn repr_car(s: &str) -> String {
    match serde_json::from_str::<std::collections::BTreeMap<String, String>>(s) {
        Ok(m) => repr_bytes(serde_json::to_string(&m).unwrap().as_bytes()),
        Err(_) => format!("?{}", repr_bytes(s.as_bytes())),
    }
}
