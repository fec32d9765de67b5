//! Virtual-time replacement for `futures-timer`, with the same public API (`Delay::new`,
//! `Delay::reset`).  Each harness thread owns a clock; `advance` moves it and wakes the delays that
//! are due.  A delay created on a thread without a clock never fires.

use std::{
    cell::RefCell,
    fmt,
    future::Future,
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll, Waker},
    time::Duration,
};

#[derive(Default)]
struct Inner {
    now: Duration,
    wakers: Vec<Waker>,
    created: Vec<Duration>,
}

/// A virtual clock.
#[derive(Clone, Default)]
pub struct Clock(Arc<Mutex<Inner>>);

thread_local! {
    static CURRENT: RefCell<Option<Clock>> = RefCell::new(None);
}

impl Clock {
    pub fn new() -> Clock {
        Clock::default()
    }

    /// Make this the clock used by delays created on this thread.
    pub fn install(&self) {
        CURRENT.with(|c| *c.borrow_mut() = Some(self.clone()));
    }

    pub fn now(&self) -> Duration {
        self.0.lock().unwrap().now
    }

    pub fn advance(&self, d: Duration) {
        let wakers = {
            let mut i = self.0.lock().unwrap();
            i.now += d;
            std::mem::take(&mut i.wakers)
        };
        for w in wakers {
            w.wake();
        }
    }
}

pub struct Delay {
    clock: Option<Clock>,
    at: Duration,
}

impl Delay {
    pub fn new(dur: Duration) -> Delay {
        let clock = CURRENT.with(|c| c.borrow().clone());
        let at = match &clock {
            Some(c) => {
                let mut i = c.0.lock().unwrap();
                i.created.push(dur);
                i.now.checked_add(dur).unwrap_or(Duration::MAX)
            }
            None => Duration::MAX,
        };
        Delay { clock, at }
    }

    pub fn reset(&mut self, dur: Duration) {
        if let Some(c) = &self.clock {
            self.at = c.now().checked_add(dur).unwrap_or(Duration::MAX);
        }
    }
}

impl Future for Delay {
    type Output = ();

    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        match &self.clock {
            None => Poll::Pending,
            Some(c) => {
                let mut i = c.0.lock().unwrap();
                if i.now >= self.at {
                    Poll::Ready(())
                } else {
                    i.wakers.push(cx.waker().clone());
                    Poll::Pending
                }
            }
        }
    }
}

impl fmt::Debug for Delay {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("Delay").finish()
    }
}
