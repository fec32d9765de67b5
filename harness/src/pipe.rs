//! An in-memory byte stream between the client under test and the scripted server, with
//! configurable segmentation, stalls and faults.

use std::{
    collections::VecDeque,
    io,
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll, Waker},
};

use futures::io::{AsyncRead, AsyncWrite};

use crate::util::Rng;

pub struct PipeState {
    pub c2s: Vec<u8>,
    pub s2c: VecDeque<u8>,
    pub eof: bool,
    pub read_err: Option<io::ErrorKind>,
    pub write_err: Option<io::ErrorKind>,
    pub stalled: bool,
    pub max_read: usize,
    pub max_write: usize,
    /// Probability (in 1/16) that an operation returns Pending and wakes itself at once.
    pub spurious: usize,
    /// Vary the sizes of reads and writes at random below the maxima.
    pub jitter: bool,
    pub rng: Rng,
    pub read_waker: Option<Waker>,
    pub write_waker: Option<Waker>,
    pub dropped: bool,
}

pub type Pipe = Arc<Mutex<PipeState>>;

pub fn new_pipe(seed: u64) -> Pipe {
    Arc::new(Mutex::new(PipeState {
        c2s: Vec::new(),
        s2c: VecDeque::new(),
        eof: false,
        read_err: None,
        write_err: None,
        stalled: false,
        max_read: usize::MAX,
        max_write: usize::MAX,
        spurious: 0,
        jitter: false,
        rng: Rng::new(seed),
        read_waker: None,
        write_waker: None,
        dropped: false,
    }))
}

pub fn wake_reader(p: &Pipe) {
    let w = p.lock().unwrap().read_waker.take();
    if let Some(w) = w {
        w.wake();
    }
}

pub fn wake_writer(p: &Pipe) {
    let w = p.lock().unwrap().write_waker.take();
    if let Some(w) = w {
        w.wake();
    }
}

pub struct ClientEnd(pub Pipe);

impl Drop for ClientEnd {
    fn drop(&mut self) {
        if let Ok(mut s) = self.0.lock() {
            s.dropped = true;
        }
    }
}

impl AsyncRead for ClientEnd {
    fn poll_read(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &mut [u8],
    ) -> Poll<io::Result<usize>> {
        let mut s = self.0.lock().unwrap();
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        if s.spurious > 0 {
            let k = s.spurious;
            if s.rng.chance(k, 16) {
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
        }
        if !s.s2c.is_empty() {
            let mut cap = std::cmp::max(1, s.max_read);
            if s.jitter {
                cap = 1 + s.rng.below(std::cmp::min(cap, 64));
            }
            let n = std::cmp::min(std::cmp::min(cap, buf.len()), s.s2c.len());
            for b in buf.iter_mut().take(n) {
                *b = s.s2c.pop_front().unwrap();
            }
            return Poll::Ready(Ok(n));
        }
        if let Some(k) = s.read_err {
            return Poll::Ready(Err(io::Error::from(k)));
        }
        if s.eof {
            return Poll::Ready(Ok(0));
        }
        s.read_waker = Some(cx.waker().clone());
        Poll::Pending
    }
}

impl AsyncWrite for ClientEnd {
    fn poll_write(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &[u8],
    ) -> Poll<io::Result<usize>> {
        let mut s = self.0.lock().unwrap();
        if let Some(k) = s.write_err {
            return Poll::Ready(Err(io::Error::from(k)));
        }
        if s.stalled {
            s.write_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if s.spurious > 0 {
            let k = s.spurious;
            if s.rng.chance(k, 16) {
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
        }
        let mut cap = std::cmp::max(1, s.max_write);
        if s.jitter {
            cap = 1 + s.rng.below(std::cmp::min(cap, 64));
        }
        let n = std::cmp::min(cap, buf.len());
        s.c2s.extend_from_slice(&buf[..n]);
        Poll::Ready(Ok(n))
    }

    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut s = self.0.lock().unwrap();
        if let Some(k) = s.write_err {
            return Poll::Ready(Err(io::Error::from(k)));
        }
        if s.stalled {
            s.write_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        Poll::Ready(Ok(()))
    }

    fn poll_close(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
