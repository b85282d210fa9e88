//! Running things under a given trace context, with spans that are really recorded.
use opentelemetry::trace::TracerProvider as _;
use serde_json::Value;
use std::collections::BTreeMap;
use std::future::Future;
use tracing::instrument::WithSubscriber as _;
use tracing::Instrument as _;
use tracing_opentelemetry::OpenTelemetrySpanExt as _;
use tracing_subscriber::layer::SubscriberExt as _;

/// The carrier of a context given as `{traceparent, tracestate, baggage}`.
#[must_use]
pub fn carrier_of(ctx: Option<&Value>) -> String {
    match ctx {
        None => "{}".into(),
        Some(v) => v.to_string(),
    }
}

/// Same trace, flags, state and baggage; the span may be another one.
#[must_use]
pub fn same_trace(a: &str, b: &str) -> bool {
    let parse = |s: &str| serde_json::from_str::<BTreeMap<String, String>>(s).ok().map(|mut m| {
        if let Some(tp) = m.get_mut("traceparent") {
            let parts: Vec<&str> = tp.split('-').collect();
            if parts.len() == 4 && parts[2].len() == 16 {
                *tp = format!("{}-{}-{}", parts[0], parts[1], parts[3]);
            }
        }
        m.retain(|_, v| !v.is_empty());
        m
    });
    matches!((parse(a), parse(b)), (Some(x), Some(y)) if x == y)
}

/// A subscriber that records spans the way the server does.
pub fn subscriber() -> impl tracing::Subscriber + Send + Sync {
    let provider = opentelemetry_sdk::trace::SdkTracerProvider::builder().build();
    let tracer = provider.tracer("hx");
    tracing_subscriber::registry().with(tracing_opentelemetry::layer().with_tracer(tracer))
}

/// Runs `f` in a span below the given context.
pub async fn within<T>(ctx: Option<&Value>, f: impl Future<Output = T>) -> T {
    let Some(ctx) = ctx else { return f.await };
    let sub = tracing::Dispatch::new(subscriber());
    let span = tracing::dispatcher::with_default(&sub, || {
        let span = tracing::info_span!("hx");
        let _ = span.set_parent(opsqueue::tracing::json_to_context(&ctx.to_string()));
        span
    });
    f.instrument(span).with_subscriber(sub).await
}
