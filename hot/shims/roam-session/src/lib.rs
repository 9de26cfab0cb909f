//! Stand-in for roam-session: see `roam::world`.
use roam::world::{self, Life, Next};
use roam::{Answered, Dispatcher, Reply};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

#[derive(Default, Clone, Debug)]
pub struct HandshakeConfig {}
pub type ConnectionHandle = roam::Handle;
#[derive(Debug)]
pub struct ConnectionError(String);
impl std::fmt::Display for ConnectionError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for ConnectionError {}
pub struct IncomingConnections;
pub struct Driver<D> {
    dispatcher: D,
    life: Life,
    over: bool,
}
pub async fn accept_framed<T, D: Dispatcher>(transport: T, _: HandshakeConfig, dispatcher: D) -> Result<(ConnectionHandle, IncomingConnections, Driver<D>), ConnectionError> {
    let a = world::outside(|o| o.accept());
    let _transport = transport;
    Reply { answer: a, life: None }.await.map_err(ConnectionError)?;
    let life = Life::default();
    Ok((roam::Handle(life.clone()), IncomingConnections, Driver { dispatcher, life, over: false }))
}
impl<D> Drop for Driver<D> {
    fn drop(&mut self) {
        self.life.set(true);
        if !self.over {
            world::try_outside(|o| o.ended(true));
        }
    }
}
impl<D: Dispatcher> Driver<D> {
    pub async fn run(mut self) -> Result<(), ConnectionError> {
        let r = Running { driver: &mut self, call: None }.await;
        self.over = true;
        self.life.set(true);
        world::outside(|o| o.ended(false));
        r.map_err(ConnectionError)
    }
}
struct Running<'d, D> {
    driver: &'d mut Driver<D>,
    call: Option<Answered>,
}
impl<D: Dispatcher> Future for Running<'_, D> {
    type Output = Result<(), String>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let me = self.get_mut();
        if let Some(c) = &mut me.call {
            if c.as_mut().poll(cx).is_pending() {
                return Poll::Pending;
            }
            me.call = None;
            world::progress();
            world::outside(|o| o.handled());
        }
        match world::outside(|o| o.next()) {
            Next::Wait => Poll::Pending,
            Next::Call(m, a) => {
                world::progress();
                me.call = Some(me.driver.dispatcher.call(m, a));
                Poll::Pending
            }
            Next::End(r) => Poll::Ready(r),
        }
    }
}
pub mod runtime {
    use super::*;
    pub async fn sleep(d: std::time::Duration) {
        world::sleep(d.as_millis()).await
    }
    pub fn spawn(f: impl Future<Output = ()> + 'static) {
        world::spawn(f)
    }
}
