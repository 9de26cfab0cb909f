//! Stand-in for roam: calls over a connection, in a world with its own clock where whatever is
//! outside of the client - network, server - is played by an `Outside`.
pub use roam_macros::service;
use std::any::Any;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context as Cx, Poll};

#[derive(Default, Clone, Debug)]
pub struct Context {}
#[derive(Debug, Clone, PartialEq)]
pub struct CallError(pub String);
impl std::fmt::Display for CallError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for CallError {}
pub type Answered = Pin<Box<dyn Future<Output = Box<dyn Any>>>>;
pub trait Dispatcher {
    fn call(&self, method: &'static str, args: Vec<Box<dyn Any>>) -> Answered;
}
/// One end of a connection.
#[derive(Clone)]
pub struct Handle(pub world::Life);
impl Handle {
    pub async fn call(&self, method: &'static str, args: Vec<Box<dyn Any>>) -> Result<Box<dyn Any>, CallError> {
        let a = world::outside(|o| o.call(method, args));
        Reply { answer: a, life: Some(self.0.clone()) }.await.map_err(CallError)?;
        Ok(Box::new(()))
    }
}
/// Waits as many turns as the answer says; a connection that ends meanwhile is an error.
pub struct Reply {
    pub answer: world::Answer,
    pub life: Option<world::Life>,
}
impl Future for Reply {
    type Output = Result<(), String>;
    fn poll(mut self: Pin<&mut Self>, _: &mut Cx<'_>) -> Poll<Self::Output> {
        if self.life.as_ref().is_some_and(|l| l.get()) {
            world::outside(|o| o.answered(false));
            return Poll::Ready(Err("connection closed".into()));
        }
        match &mut self.answer.turns {
            None => Poll::Pending,
            Some(0) => {
                world::progress();
                if self.life.is_some() {
                    let ok = self.answer.error.is_none();
                    world::outside(|o| o.answered(ok));
                }
                Poll::Ready(match self.answer.error.take() {
                    Some(e) => Err(e),
                    None => Ok(()),
                })
            }
            Some(n) => {
                *n -= 1;
                world::progress();
                Poll::Pending
            }
        }
    }
}

pub mod world {
    use super::*;
    use std::cell::{Cell, RefCell};
    use std::rc::Rc;
    use std::task::Waker;

    /// Whether a connection is over.
    pub type Life = Rc<Cell<bool>>;
    pub struct Answer {
        /// Turns until the answer is there; none: it never comes.
        pub turns: Option<u32>,
        pub error: Option<String>,
    }
    pub enum Next {
        Wait,
        Call(&'static str, Vec<Box<dyn Any>>),
        End(Result<(), String>),
    }
    /// Everything that is not the client.
    pub trait Outside {
        fn connect(&mut self, url: &str) -> Answer;
        fn accept(&mut self) -> Answer;
        /// The client calls a method of the server.
        fn call(&mut self, method: &'static str, args: Vec<Box<dyn Any>>) -> Answer;
        /// The client got its answer, or the connection ended before.
        fn answered(&mut self, ok: bool);
        /// What the server does next on the open connection.
        fn next(&mut self) -> Next;
        /// The call made last has been answered by the client.
        fn handled(&mut self);
        /// The connection is over: by itself, or because the client let go of it.
        fn ended(&mut self, let_go: bool);
        fn sleep(&mut self, ms: u128);
        /// Whether there is nothing more to watch.
        fn over(&self) -> bool;
    }
    type Task = Pin<Box<dyn Future<Output = ()>>>;
    thread_local! {
        static OUTSIDE: RefCell<Option<Box<dyn Outside>>> = const { RefCell::new(None) };
        static NEW: RefCell<Vec<Task>> = const { RefCell::new(vec![]) };
        static NOW: Cell<u128> = const { Cell::new(0) };
        static SLEEPERS: RefCell<Vec<u128>> = const { RefCell::new(vec![]) };
        static PROGRESS: Cell<bool> = const { Cell::new(false) };
    }
    pub fn outside<R>(f: impl FnOnce(&mut dyn Outside) -> R) -> R {
        OUTSIDE.with_borrow_mut(|o| f(o.as_deref_mut().expect("no outside")))
    }
    pub fn try_outside(f: impl FnOnce(&mut dyn Outside)) {
        OUTSIDE.with(|o| {
            if let Ok(mut o) = o.try_borrow_mut()
                && let Some(o) = o.as_deref_mut()
            {
                f(o)
            }
        })
    }
    pub fn progress() {
        PROGRESS.set(true);
    }
    pub fn now() -> u128 {
        NOW.get()
    }
    pub fn spawn(f: impl Future<Output = ()> + 'static) {
        progress();
        NEW.with_borrow_mut(|n| n.push(Box::pin(f)));
    }
    pub struct Sleep(u128);
    pub fn sleep(ms: u128) -> Sleep {
        outside(|o| o.sleep(ms));
        let at = NOW.get() + ms;
        SLEEPERS.with_borrow_mut(|s| s.push(at));
        Sleep(at)
    }
    impl Future for Sleep {
        type Output = ();
        fn poll(self: Pin<&mut Self>, _: &mut Cx<'_>) -> Poll<()> {
            if NOW.get() >= self.0 { Poll::Ready(()) } else { Poll::Pending }
        }
    }
    #[derive(Debug, PartialEq)]
    pub enum Outcome {
        /// The outside has seen enough.
        Over,
        /// Nothing is left that could go on.
        Stuck,
        /// Every task is finished.
        Finished,
        /// Still running after that many turns.
        Long,
    }
    /// Runs `start` and every task it leads to. `order` picks which task comes first in each turn.
    pub fn run(o: Box<dyn Outside>, start: impl FnOnce(), mut order: impl FnMut(usize) -> usize, turns: u64) -> (Outcome, Box<dyn Outside>) {
        NEW.take();
        SLEEPERS.take();
        NOW.set(0);
        OUTSIDE.set(Some(o));
        start();
        let mut tasks: Vec<Task> = vec![];
        let mut how = Outcome::Long;
        for _ in 0..turns {
            tasks.extend(NEW.take());
            if tasks.is_empty() {
                how = Outcome::Finished;
                break;
            }
            if outside(|o| o.over()) {
                how = Outcome::Over;
                break;
            }
            PROGRESS.set(false);
            let n = tasks.len();
            let first = order(n) % n;
            let mut done = vec![];
            for k in 0..n {
                let k = (first + k) % n;
                let mut cx = Cx::from_waker(Waker::noop());
                if tasks[k].as_mut().poll(&mut cx).is_ready() {
                    done.push(k);
                    progress();
                }
            }
            done.sort();
            for k in done.into_iter().rev() {
                drop(tasks.remove(k));
            }
            if !PROGRESS.get() {
                // nothing can go on before time does
                let next = SLEEPERS.with_borrow_mut(|s| {
                    let now = NOW.get();
                    s.retain(|&t| t > now);
                    s.iter().min().copied()
                });
                match next {
                    Some(t) => NOW.set(t),
                    None => {
                        how = if outside(|o| o.over()) { Outcome::Over } else { Outcome::Stuck };
                        break;
                    }
                }
            }
        }
        drop(tasks);
        NEW.take();
        (how, OUTSIDE.take().unwrap())
    }
}
