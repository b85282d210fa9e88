//! What opsqueue answers, as the specification sees it.
use crate::gen::sm_repr;
use crate::trace::{id_value, julian, time_value};
use crate::{repr_car, repr_opt, repr_text};
use opsqueue::common::submission::SubmissionStatus;
use opsqueue::common::StrategicMetadataMap;
use serde_json::{json, Value};

#[must_use]
pub fn sm_json(m: &StrategicMetadataMap) -> Value {
    let mut v: Vec<(String, i64)> = m.iter().map(|(k, v)| (k.clone(), *v)).collect();
    v.sort();
    sm_repr(&v)
}

#[must_use]
pub fn opt_str(s: Option<&String>) -> String {
    repr_opt(s.map(String::as_bytes))
}

#[must_use]
pub fn status_json(s: &SubmissionStatus) -> Value {
    let none = json!("~");
    match s {
        SubmissionStatus::InProgress(x) => json!({"st": "P", "id": id_value(x.id.into()), "total": u64::from(x.chunks_total),
            "done": u64::from(x.chunks_done), "fc": -1, "pfx": opt_str(x.prefix.as_ref()), "md": repr_opt(x.metadata.as_deref()),
            "cs": x.chunk_size.0, "car": repr_car(&x.otel_trace_carrier), "t": -1,
            "sm": sm_json(&x.strategic_metadata), "failure": none, "fcontent": none}),
        SubmissionStatus::Completed(x) => json!({"st": "C", "id": id_value(x.id.into()), "total": u64::from(x.chunks_total),
            "done": -1, "fc": -1, "pfx": opt_str(x.prefix.as_ref()), "md": repr_opt(x.metadata.as_deref()),
            "cs": x.chunk_size.0, "car": repr_car(&x.otel_trace_carrier), "t": time_value(julian(x.completed_at)),
            "sm": sm_json(&x.strategic_metadata), "failure": none, "fcontent": none}),
        SubmissionStatus::Failed(x, c) => json!({"st": "F", "id": id_value(x.id.into()), "total": u64::from(x.chunks_total),
            "done": x.chunks_done.map_or(-1, |d| u64::from(d) as i64), "fc": u64::from(x.failed_chunk_id),
            "pfx": opt_str(x.prefix.as_ref()), "md": repr_opt(x.metadata.as_deref()),
            "cs": x.chunk_size.0, "car": repr_car(&x.otel_trace_carrier), "t": time_value(julian(x.failed_at)),
            "sm": sm_json(&x.strategic_metadata), "failure": repr_text(c.failure.as_bytes()),
            "fcontent": if c.submission_id == x.id && c.chunk_index == x.failed_chunk_id { repr_opt(c.input_content.as_deref()) } else { "wrong chunk".into() }}),
        SubmissionStatus::Cancelled(x) => json!({"st": "X", "id": id_value(x.id.into()), "total": u64::from(x.chunks_total),
            "done": u64::from(x.chunks_done), "fc": -1, "pfx": opt_str(x.prefix.as_ref()), "md": repr_opt(x.metadata.as_deref()),
            "cs": -1, "car": none, "t": time_value(julian(x.cancelled_at)),
            "sm": sm_json(&x.strategic_metadata), "failure": none, "fcontent": none}),
    }
}

