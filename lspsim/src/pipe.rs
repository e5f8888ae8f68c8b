//! One-directional byte pipes with seeded delay, fragmentation, back-pressure and stalls.

use simos::rng::Rng;
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use tokio::time::{Instant, Sleep};

/// How a pipe behaves.
#[derive(Clone, Debug)]
pub struct Profile {
    pub delay: (u64, u64),
    pub seg: usize,
    pub spurious: usize,
    pub cap: usize,
}

struct Inner {
    q: VecDeque<(Instant, Vec<u8>)>,
    len: usize,
    last_ready: Option<Instant>,
    closed_w: bool,
    closed_r: bool,
    frozen: bool,
    rw: Option<Waker>,
    ww: Option<Waker>,
    cw: Vec<Waker>,
    rng: Rng,
    p: Profile,
    spurious_run: usize,
    pub total: u64,
}

#[derive(Clone)]
pub struct Pipe(Arc<Mutex<Inner>>);

impl Pipe {
    pub fn new(seed: u64, label: &str, p: Profile) -> Pipe {
        Pipe(Arc::new(Mutex::new(Inner {
            q: VecDeque::new(),
            len: 0,
            last_ready: None,
            closed_w: false,
            closed_r: false,
            frozen: false,
            rw: None,
            ww: None,
            cw: Vec::new(),
            rng: Rng::derive(seed, label),
            p,
            spurious_run: 0,
            total: 0,
        })))
    }
    pub fn reader(&self) -> Reader {
        Reader { pipe: self.clone(), sleep: None }
    }
    pub fn writer(&self) -> Writer {
        Writer { pipe: self.clone() }
    }
    /// Append bytes regardless of capacity.
    pub fn push(&self, data: &[u8]) {
        let mut i = self.0.lock().unwrap();
        i.push(data);
    }
    pub fn close_write(&self) {
        let mut i = self.0.lock().unwrap();
        i.closed_w = true;
        i.wake_all();
    }
    pub fn close_read(&self) {
        let mut i = self.0.lock().unwrap();
        i.closed_r = true;
        i.q.clear();
        i.len = 0;
        i.wake_all();
    }
    pub fn freeze(&self, on: bool) {
        let mut i = self.0.lock().unwrap();
        i.frozen = on;
        i.wake_all();
    }
    pub fn write_closed(&self) -> bool {
        self.0.lock().unwrap().closed_w
    }
    pub fn total(&self) -> u64 {
        self.0.lock().unwrap().total
    }
    /// Resolves when the writing end has been closed.
    pub fn on_write_closed(&self) -> impl Future<Output = ()> + use<> {
        let p = self.clone();
        std::future::poll_fn(move |cx| {
            let mut i = p.0.lock().unwrap();
            if i.closed_w {
                Poll::Ready(())
            } else {
                i.cw.push(cx.waker().clone());
                Poll::Pending
            }
        })
    }
}

impl Inner {
    fn push(&mut self, data: &[u8]) {
        if data.is_empty() || self.closed_r {
            return;
        }
        let (lo, hi) = self.p.delay;
        let d = if hi == 0 { 0 } else { self.rng.range(lo as usize, hi as usize) as u64 };
        let mut at = Instant::now() + Duration::from_millis(d);
        if let Some(l) = self.last_ready {
            at = at.max(l);
        }
        self.last_ready = Some(at);
        self.len += data.len();
        self.total += data.len() as u64;
        self.q.push_back((at, data.to_vec()));
        if let Some(w) = self.rw.take() {
            w.wake();
        }
    }
    fn wake_all(&mut self) {
        if let Some(w) = self.rw.take() {
            w.wake();
        }
        if let Some(w) = self.ww.take() {
            w.wake();
        }
        for w in self.cw.drain(..) {
            w.wake();
        }
    }
    fn spurious(&mut self, cx: &mut Context<'_>) -> bool {
        if self.spurious_run < 3 && self.p.spurious > 0 && self.rng.chance(self.p.spurious) {
            self.spurious_run += 1;
            cx.waker().wake_by_ref();
            return true;
        }
        self.spurious_run = 0;
        false
    }
}

pub struct Reader {
    pipe: Pipe,
    sleep: Option<Pin<Box<Sleep>>>,
}

impl AsyncRead for Reader {
    fn poll_read(
        mut self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &mut ReadBuf<'_>,
    ) -> Poll<io::Result<()>> {
        let pipe = self.pipe.clone();
        let mut i = pipe.0.lock().unwrap();
        if i.frozen {
            i.rw = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if i.spurious(cx) {
            return Poll::Pending;
        }
        let now = Instant::now();
        match i.q.front().map(|f| f.0) {
            Some(at) if at <= now => {
                let mut n = buf.remaining();
                if i.p.seg > 0 {
                    let seg = i.p.seg;
                    n = n.min(1 + i.rng.below(seg));
                }
                let mut done = false;
                let f = i.q.front_mut().unwrap();
                let n = n.min(f.1.len());
                buf.put_slice(&f.1[..n]);
                if n == f.1.len() {
                    done = true;
                } else {
                    f.1.drain(..n);
                }
                if done {
                    i.q.pop_front();
                }
                i.len -= n;
                if let Some(w) = i.ww.take() {
                    w.wake();
                }
                Poll::Ready(Ok(()))
            }
            Some(at) => {
                drop(i);
                let mut s = Box::pin(tokio::time::sleep_until(at));
                let p = s.as_mut().poll(cx);
                self.sleep = Some(s);
                if p.is_ready() {
                    cx.waker().wake_by_ref();
                }
                Poll::Pending
            }
            None if i.closed_w => Poll::Ready(Ok(())),
            None => {
                i.rw = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

impl Drop for Reader {
    fn drop(&mut self) {
        self.pipe.close_read();
    }
}

pub struct Writer {
    pipe: Pipe,
}

impl AsyncWrite for Writer {
    fn poll_write(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &[u8],
    ) -> Poll<io::Result<usize>> {
        let mut i = self.pipe.0.lock().unwrap();
        if i.closed_r || i.closed_w {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        if i.spurious(cx) {
            return Poll::Pending;
        }
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        let room = i.p.cap.saturating_sub(i.len);
        if room == 0 {
            i.ww = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let mut n = buf.len().min(room);
        if i.p.seg > 0 {
            let seg = i.p.seg * 4;
            n = n.min(1 + i.rng.below(seg));
        }
        i.push(&buf[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.pipe.close_write();
        Poll::Ready(Ok(()))
    }
}

impl Drop for Writer {
    fn drop(&mut self) {
        self.pipe.close_write();
    }
}
