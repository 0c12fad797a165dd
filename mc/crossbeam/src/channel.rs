pub use crossbeam_real::channel::{
    RecvError, RecvTimeoutError, SendError, SendTimeoutError, TryRecvError, TrySendError,
};
pub use crate::select;
use mcrt::chan::{Core, TryRecv, TrySend};
use std::sync::Arc;
use std::time::{Duration, Instant};

pub struct Sender<T>(Arc<Core<T>>);
pub struct Receiver<T>(Arc<Core<T>>);

pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
    let c = Core::new(None);
    (Sender(c.clone()), Receiver(c))
}
pub fn bounded<T>(n: usize) -> (Sender<T>, Receiver<T>) {
    let c = Core::new(Some(n));
    (Sender(c.clone()), Receiver(c))
}
pub fn never<T>() -> Receiver<T> {
    let c = Core::new(None);
    // a sender which is never dropped
    Receiver(c)
}

impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        self.0.add_sender();
        Sender(self.0.clone())
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        self.0.drop_sender()
    }
}
impl<T> Clone for Receiver<T> {
    fn clone(&self) -> Self {
        self.0.add_receiver();
        Receiver(self.0.clone())
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        self.0.drop_receiver()
    }
}
impl<T> std::fmt::Debug for Sender<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Sender { .. }")
    }
}
impl<T> std::fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Receiver { .. }")
    }
}

impl<T> Sender<T> {
    pub fn send(&self, v: T) -> Result<(), SendError<T>> {
        match self.0.send(v, None) {
            Ok(()) => Ok(()),
            Err(TrySend::Full(v) | TrySend::Disconnected(v)) => Err(SendError(v)),
        }
    }
    pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
        self.0.try_send(v).map_err(|e| match e {
            TrySend::Full(v) => TrySendError::Full(v),
            TrySend::Disconnected(v) => TrySendError::Disconnected(v),
        })
    }
    pub fn send_timeout(&self, v: T, d: Duration) -> Result<(), SendTimeoutError<T>> {
        self.0.send(v, Some(d)).map_err(|e| match e {
            TrySend::Full(v) => SendTimeoutError::Timeout(v),
            TrySend::Disconnected(v) => SendTimeoutError::Disconnected(v),
        })
    }
    pub fn is_empty(&self) -> bool {
        self.0.len() == 0
    }
    pub fn is_full(&self) -> bool {
        let n = self.0.len();
        self.0.cap().map_or(false, |c| n >= c)
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn capacity(&self) -> Option<usize> {
        self.0.cap()
    }
}

impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> {
        self.0.recv(None).map_err(|_| RecvError)
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        self.0.recv(Some(d)).map_err(|e| match e {
            TryRecv::Empty => RecvTimeoutError::Timeout,
            TryRecv::Disconnected => RecvTimeoutError::Disconnected,
        })
    }
    pub fn recv_deadline(&self, d: Instant) -> Result<T, RecvTimeoutError> {
        self.recv_timeout(d.saturating_duration_since(Instant::now()))
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        self.0.try_recv().map_err(|e| match e {
            TryRecv::Empty => TryRecvError::Empty,
            TryRecv::Disconnected => TryRecvError::Disconnected,
        })
    }
    pub fn is_empty(&self) -> bool {
        self.0.len() == 0
    }
    pub fn is_full(&self) -> bool {
        let n = self.0.len();
        self.0.cap().map_or(false, |c| n >= c)
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn capacity(&self) -> Option<usize> {
        self.0.cap()
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter(self)
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter(self)
    }
}
pub struct Iter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for Iter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
pub struct TryIter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for TryIter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.try_recv().ok()
    }
}
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self)
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}

// ---- select!

pub enum Wait {
    Forever,
    Now,
    Timeout(Duration),
}

pub trait Selectable {
    fn ready(&self) -> bool;
}
impl<T> Selectable for Receiver<T> {
    fn ready(&self) -> bool {
        self.0.ready()
    }
}
impl<S: Selectable + ?Sized> Selectable for &S {
    fn ready(&self) -> bool {
        (**self).ready()
    }
}
#[doc(hidden)]
pub fn as_selectable<'a, S: Selectable>(s: &'a S) -> &'a dyn Selectable {
    s
}
pub trait AsReceiver<T> {
    fn as_rx(&self) -> &Receiver<T>;
}
impl<T> AsReceiver<T> for Receiver<T> {
    fn as_rx(&self) -> &Receiver<T> {
        self
    }
}
impl<T, R: AsReceiver<T>> AsReceiver<T> for &R {
    fn as_rx(&self) -> &Receiver<T> {
        (**self).as_rx()
    }
}
#[doc(hidden)]
pub fn take_ready<T>(r: &impl AsReceiver<T>) -> Result<T, RecvError> {
    r.as_rx().recv()
}
#[doc(hidden)]
pub fn select_ready(arms: &[&dyn Selectable], wait: Wait) -> Option<usize> {
    let ready = || -> Vec<usize> { (0..arms.len()).filter(|&i| arms[i].ready()).collect() };
    if mcrt::active() {
        match wait {
            Wait::Forever => mcrt::block_until("select", || !ready().is_empty()),
            Wait::Now => mcrt::point("select"),
            Wait::Timeout(d) => {
                let dl = mcrt::now().unwrap().saturating_add((d.as_nanos() as u64).max(1));
                mcrt::block_until_deadline("select", Some(dl), || !ready().is_empty());
            }
        }
        let r = ready();
        return match r.len() {
            0 => None,
            n => Some(r[mcrt::choose(n, "select arm")]),
        };
    }
    let start = Instant::now();
    loop {
        if let Some(i) = ready().first() {
            return Some(*i);
        }
        match wait {
            Wait::Now => return None,
            Wait::Timeout(d) if start.elapsed() >= d => return None,
            _ => std::thread::sleep(Duration::from_micros(200)),
        }
    }
}
