//! Stand-in for futures-channel: one-shot channels, polled without wakers.
pub mod oneshot {
    use std::cell::RefCell;
    use std::future::Future;
    use std::pin::Pin;
    use std::rc::Rc;
    use std::task::{Context, Poll};
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct Canceled;
    impl std::fmt::Display for Canceled {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("oneshot canceled")
        }
    }
    impl std::error::Error for Canceled {}
    struct Shared<T> {
        value: Option<T>,
        sender: bool,
        receiver: bool,
    }
    pub struct Sender<T>(Rc<RefCell<Shared<T>>>);
    pub struct Receiver<T>(Rc<RefCell<Shared<T>>>);
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        let s = Rc::new(RefCell::new(Shared { value: None, sender: true, receiver: true }));
        (Sender(s.clone()), Receiver(s))
    }
    impl<T> Sender<T> {
        pub fn send(self, t: T) -> Result<(), T> {
            let mut s = self.0.borrow_mut();
            if !s.receiver {
                return Err(t);
            }
            s.value = Some(t);
            Ok(())
        }
        pub fn is_canceled(&self) -> bool {
            !self.0.borrow().receiver
        }
    }
    impl<T> Drop for Sender<T> {
        fn drop(&mut self) {
            self.0.borrow_mut().sender = false;
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            self.0.borrow_mut().receiver = false;
        }
    }
    impl<T> Receiver<T> {
        pub fn try_recv(&mut self) -> Result<Option<T>, Canceled> {
            let mut s = self.0.borrow_mut();
            match s.value.take() {
                Some(v) => Ok(Some(v)),
                None if s.sender => Ok(None),
                None => Err(Canceled),
            }
        }
        pub fn close(&mut self) {
            self.0.borrow_mut().receiver = false;
        }
    }
    impl<T> Future for Receiver<T> {
        type Output = Result<T, Canceled>;
        fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
            match self.try_recv() {
                Ok(Some(v)) => Poll::Ready(Ok(v)),
                Ok(None) => Poll::Pending,
                Err(e) => Poll::Ready(Err(e)),
            }
        }
    }
}
