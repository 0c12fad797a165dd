//! An MPMC channel: visible operations under the scheduler, blocking for real outside of it.
use std::collections::VecDeque;
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::{Duration, Instant};

pub struct Core<T> {
    st: Mutex<St<T>>,
    cv: Condvar,
}

struct St<T> {
    q: VecDeque<T>,
    cap: Option<usize>,
    senders: usize,
    receivers: usize,
    /// receivers waiting (rendezvous channels)
    waiting: usize,
    sent: u64,
    taken: u64,
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum TryRecv {
    Empty,
    Disconnected,
}

pub enum TrySend<T> {
    Full(T),
    Disconnected(T),
}

impl<T> Core<T> {
    pub fn new(cap: Option<usize>) -> Arc<Self> {
        Arc::new(Core {
            st: Mutex::new(St {
                q: VecDeque::new(),
                cap,
                senders: 1,
                receivers: 1,
                waiting: 0,
                sent: 0,
                taken: 0,
            }),
            cv: Condvar::new(),
        })
    }
    fn lock(&self) -> MutexGuard<'_, St<T>> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn add_sender(&self) {
        self.lock().senders += 1;
    }
    pub fn add_receiver(&self) {
        self.lock().receivers += 1;
    }
    pub fn drop_sender(&self) {
        crate::point("drop sender");
        self.lock().senders -= 1;
        self.cv.notify_all();
    }
    pub fn drop_receiver(&self) {
        crate::point("drop receiver");
        let q = {
            let mut s = self.lock();
            s.receivers -= 1;
            if s.receivers == 0 {
                std::mem::take(&mut s.q)
            } else {
                VecDeque::new()
            }
        };
        self.cv.notify_all();
        drop(q);
    }
    fn room(s: &St<T>) -> bool {
        match s.cap {
            None => true,
            // a rendezvous channel is modelled as a one-place buffer whose sender waits for the take
            Some(0) => s.q.is_empty(),
            Some(c) => s.q.len() < c,
        }
    }
    pub fn send(&self, v: T, timeout: Option<Duration>) -> Result<(), TrySend<T>> {
        if crate::active() {
            let dl = timeout.map(|d| crate::now().unwrap().saturating_add((d.as_nanos() as u64).max(1)));
            crate::block_until_deadline("send", dl, || {
                let s = self.lock();
                s.receivers == 0 || Self::room(&s)
            });
            let ticket = {
                let mut s = self.lock();
                if s.receivers == 0 {
                    return Err(TrySend::Disconnected(v));
                }
                if !Self::room(&s) {
                    return Err(TrySend::Full(v));
                }
                s.q.push_back(v);
                s.sent += 1;
                (s.cap == Some(0)).then_some(s.sent)
            };
            if let Some(t) = ticket {
                crate::block_until("rendezvous", || {
                    let s = self.lock();
                    s.taken >= t || s.receivers == 0
                });
            }
            return Ok(());
        }
        let end = timeout.map(|d| Instant::now() + d);
        let mut s = self.lock();
        loop {
            if s.receivers == 0 {
                return Err(TrySend::Disconnected(v));
            }
            if Self::room(&s) {
                break;
            }
            s = self.wait(s, end);
            if end.map_or(false, |e| Instant::now() >= e) && !Self::room(&s) {
                return Err(TrySend::Full(v));
            }
        }
        s.q.push_back(v);
        s.sent += 1;
        let t = s.sent;
        self.cv.notify_all();
        if s.cap == Some(0) {
            while s.taken < t && s.receivers > 0 {
                s = self.wait(s, None);
            }
        }
        Ok(())
    }
    fn wait<'a>(&'a self, s: MutexGuard<'a, St<T>>, end: Option<Instant>) -> MutexGuard<'a, St<T>> {
        match end {
            None => self.cv.wait(s).unwrap_or_else(|e| e.into_inner()),
            Some(e) => {
                self.cv
                    .wait_timeout(s, e.saturating_duration_since(Instant::now()))
                    .unwrap_or_else(|e| e.into_inner())
                    .0
            }
        }
    }
    pub fn try_send(&self, v: T) -> Result<(), TrySend<T>> {
        crate::point("try_send");
        let mut s = self.lock();
        if s.receivers == 0 {
            return Err(TrySend::Disconnected(v));
        }
        let room = if s.cap == Some(0) { s.waiting > 0 && s.q.is_empty() } else { Self::room(&s) };
        if !room {
            return Err(TrySend::Full(v));
        }
        s.q.push_back(v);
        s.sent += 1;
        drop(s);
        self.cv.notify_all();
        Ok(())
    }
    /// Something to receive, or nothing ever again.
    pub fn ready(&self) -> bool {
        let s = self.lock();
        !s.q.is_empty() || s.senders == 0
    }
    pub fn recv(&self, timeout: Option<Duration>) -> Result<T, TryRecv> {
        if crate::active() {
            self.lock().waiting += 1;
            struct W<'a, T>(&'a Core<T>);
            impl<T> Drop for W<'_, T> {
                fn drop(&mut self) {
                    self.0.lock().waiting -= 1;
                }
            }
            let w = W(self);
            let dl = timeout.map(|d| crate::now().unwrap().saturating_add((d.as_nanos() as u64).max(1)));
            crate::block_until_deadline("recv", dl, || self.ready());
            drop(w);
            return self.take();
        }
        let end = timeout.map(|d| Instant::now() + d);
        let mut s = self.lock();
        s.waiting += 1;
        while s.q.is_empty() && s.senders > 0 {
            if end.map_or(false, |e| Instant::now() >= e) {
                break;
            }
            s = self.wait(s, end);
        }
        s.waiting -= 1;
        drop(s);
        self.take()
    }
    fn take(&self) -> Result<T, TryRecv> {
        let mut s = self.lock();
        let r = match s.q.pop_front() {
            Some(v) => {
                s.taken += 1;
                Ok(v)
            }
            None if s.senders == 0 => Err(TryRecv::Disconnected),
            None => Err(TryRecv::Empty),
        };
        drop(s);
        self.cv.notify_all();
        r
    }
    pub fn try_recv(&self) -> Result<T, TryRecv> {
        crate::point("try_recv");
        self.take()
    }
    pub fn len(&self) -> usize {
        crate::point("len");
        self.lock().q.len()
    }
    pub fn cap(&self) -> Option<usize> {
        self.lock().cap
    }
}
