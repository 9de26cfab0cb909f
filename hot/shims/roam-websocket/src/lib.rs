//! Stand-in for roam-websocket: see `roam::world`.
use roam::{Reply, world};
pub struct WsTransport {}
impl WsTransport {
    pub async fn connect(url: &str) -> std::io::Result<WsTransport> {
        let a = world::outside(|o| o.connect(url));
        Reply { answer: a, life: None }.await.map_err(std::io::Error::other)?;
        Ok(WsTransport {})
    }
}
