pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
use ::std::sync::Arc;
use ::std::time::Duration;
use mcrt::chan::{Core, TryRecv, TrySend};

pub struct Sender<T>(Arc<Core<T>>);
pub struct SyncSender<T>(Arc<Core<T>>);
pub struct Receiver<T>(Arc<Core<T>>);
unsafe impl<T: Send> Send for Receiver<T> {}

pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let c = Core::new(None);
    (Sender(c.clone()), Receiver(c))
}
pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
    let c = Core::new(Some(n));
    (SyncSender(c.clone()), Receiver(c))
}

macro_rules! sender {
    ($t:ident) => {
        impl<T> $t<T> {
            pub fn send(&self, v: T) -> Result<(), SendError<T>> {
                match self.0.send(v, None) {
                    Ok(()) => Ok(()),
                    Err(TrySend::Full(v) | TrySend::Disconnected(v)) => Err(SendError(v)),
                }
            }
        }
        impl<T> Clone for $t<T> {
            fn clone(&self) -> Self {
                self.0.add_sender();
                $t(self.0.clone())
            }
        }
        impl<T> Drop for $t<T> {
            fn drop(&mut self) {
                self.0.drop_sender()
            }
        }
        impl<T> ::std::fmt::Debug for $t<T> {
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                f.write_str(stringify!($t))
            }
        }
    };
}
sender!(Sender);
sender!(SyncSender);

impl<T> SyncSender<T> {
    pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
        self.0.try_send(v).map_err(|e| match e {
            TrySend::Full(v) => TrySendError::Full(v),
            TrySend::Disconnected(v) => TrySendError::Disconnected(v),
        })
    }
}

impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        self.0.drop_receiver()
    }
}
impl<T> ::std::fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.write_str("Receiver")
    }
}
impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> {
        self.0.recv(None).map_err(|_| RecvError)
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        self.0.recv(Some(d)).map_err(|e| match e {
            TryRecv::Empty => RecvTimeoutError::Timeout,
            TryRecv::Disconnected => RecvTimeoutError::Disconnected,
        })
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        self.0.try_recv().map_err(|e| match e {
            TryRecv::Empty => TryRecvError::Empty,
            TryRecv::Disconnected => TryRecvError::Disconnected,
        })
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter(self)
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter(self)
    }
}
pub struct Iter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for Iter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
pub struct TryIter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for TryIter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.try_recv().ok()
    }
}
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self)
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
