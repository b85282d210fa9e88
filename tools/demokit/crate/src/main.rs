mod consumer;
mod kit;
use kit::*;
use std::time::Duration;

#[tokio::main]
async fn main() {
    let r = default_rig().await;
    let s = r.insert(3, &[]).await;
    let c = r.consumer(1).await;
    let g = c.reserve(3, Strategy::Oldest, Duration::from_secs(5)).await.unwrap_or_default();
    for (k, _) in &g {
        c.complete(cid(k.submission_id, id_of(k).1)).await;
    }
    let ok = eventually(|| async { matches!(r.status(s).await, Some(SubmissionStatus::Completed(_))) }).await;
    verdict(ok, "smoke");
}
