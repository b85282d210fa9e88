//! A server in this process.
use opsqueue::config::Config;
use opsqueue::db::DBPools;
use opsqueue::prometheus::PrometheusConfig;
use std::sync::atomic::AtomicBool;
use std::sync::{Arc, OnceLock};
use std::time::Duration;
use tokio_util::sync::CancellationToken;

static PROM: OnceLock<PrometheusConfig> = OnceLock::new();
pub fn prom() -> PrometheusConfig {
    PROM.get_or_init(opsqueue::prometheus::setup_prometheus).clone()
}
/// The value of an exported metric without labels.
#[must_use]
pub fn metric(name: &str) -> Option<f64> {
    let text = prom().1.render();
    text.lines().find_map(|l| l.strip_prefix(name).and_then(|r| r.strip_prefix(' ')).and_then(|v| v.trim().parse().ok()))
}

pub struct Server {
    pub addr: String,
    token: CancellationToken,
    task: tokio::task::JoinHandle<()>,
}
impl Server {
    pub async fn start(pools: &DBPools, cfg: Config, ttl: Duration) -> Server {
        let cfg: &'static Config = Box::leak(Box::new(cfg));
        let token = CancellationToken::new();
        let router = opsqueue::server::build_router(cfg, pools.clone(), ttl, &token, Arc::new(AtomicBool::new(true)), prom());
        let listener = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
        let addr = listener.local_addr().unwrap().to_string();
        let task = tokio::spawn(async move {
            use axum::serve::ListenerExt as _;
            let listener = listener.tap_io(|s| {
                let _ = s.set_nodelay(true);
            });
            let _ = axum::serve(listener, router).await;
        });
        Server { addr, token, task }
    }
    pub fn stop(&self) {
        self.token.cancel();
        self.task.abort();
    }
}
