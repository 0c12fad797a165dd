//! Stand-in for the parts of `divvy` which ogma uses (the git dependency is not available offline).
use mc_std::sync::atomic::{AtomicBool, Ordering};
use std::borrow::Borrow;
use std::fmt;
use std::ops::Deref;
use std::sync::Arc;

/// A cheaply cloned string, copied on write.
#[derive(Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Str(Arc<String>);

impl Str {
    pub fn new<S: AsRef<str>>(s: S) -> Str {
        Str(Arc::new(s.as_ref().to_string()))
    }
    pub fn as_str(&self) -> &str {
        &self.0
    }
    pub fn to_mut(&mut self) -> &mut String {
        Arc::make_mut(&mut self.0)
    }
}
impl Deref for Str {
    type Target = str;
    fn deref(&self) -> &str {
        &self.0
    }
}
impl AsRef<str> for Str {
    fn as_ref(&self) -> &str {
        &self.0
    }
}
impl Borrow<str> for Str {
    fn borrow(&self) -> &str {
        &self.0
    }
}
impl fmt::Display for Str {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&**self, f)
    }
}
impl fmt::Debug for Str {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&**self, f)
    }
}
impl From<&str> for Str {
    fn from(s: &str) -> Str {
        Str::new(s)
    }
}
impl From<&String> for Str {
    fn from(s: &String) -> Str {
        Str::new(s)
    }
}
impl From<String> for Str {
    fn from(s: String) -> Str {
        Str(Arc::new(s))
    }
}
impl From<char> for Str {
    fn from(c: char) -> Str {
        Str(Arc::new(c.to_string()))
    }
}
impl From<Str> for String {
    fn from(s: Str) -> String {
        s.to_string()
    }
}
impl FromIterator<char> for Str {
    fn from_iter<I: IntoIterator<Item = char>>(i: I) -> Str {
        Str(Arc::new(i.into_iter().collect()))
    }
}
impl PartialEq<str> for Str {
    fn eq(&self, o: &str) -> bool {
        &**self == o
    }
}
impl PartialEq<&str> for Str {
    fn eq(&self, o: &&str) -> bool {
        &**self == *o
    }
}
impl PartialEq<Str> for str {
    fn eq(&self, o: &Str) -> bool {
        self == &**o
    }
}
impl PartialEq<Str> for &str {
    fn eq(&self, o: &Str) -> bool {
        *self == &**o
    }
}
impl PartialEq<String> for Str {
    fn eq(&self, o: &String) -> bool {
        &**self == o
    }
}

/// A switch which can be flipped on, shared by its clones.
#[derive(Clone, Debug, Default)]
pub struct Switch(Arc<AtomicBool>);
impl Switch {
    pub fn off() -> Switch {
        Switch(Arc::new(AtomicBool::new(false)))
    }
    pub fn on() -> Switch {
        Switch(Arc::new(AtomicBool::new(true)))
    }
    pub fn flip_on(&self) {
        self.0.store(true, Ordering::SeqCst)
    }
    pub fn flip_off(&self) {
        self.0.store(false, Ordering::SeqCst)
    }
    pub fn get(&self) -> bool {
        self.0.load(Ordering::SeqCst)
    }
}

/// The sending half of a progress report, with a cancellation switch.
#[derive(Clone)]
pub struct ProgressTx {
    cancel: Switch,
    sink: Arc<dyn Fn(Option<f32>, String) + Send + Sync>,
}
impl ProgressTx {
    pub fn dummy() -> Self {
        ProgressTx { cancel: Switch::off(), sink: Arc::new(|_, _| ()) }
    }
    /// (of the stand-in) a progress which hands every report to `sink`.
    pub fn to(cancel: Switch, sink: impl Fn(Option<f32>, String) + Send + Sync + 'static) -> Self {
        ProgressTx { cancel, sink: Arc::new(sink) }
    }
    pub fn cancelled(&self) -> bool {
        self.cancel.get()
    }
    pub fn send<S: Into<String>>(&self, p: Option<f32>, s: S) {
        (self.sink)(p, s.into())
    }
}
impl PartialOrd<str> for Str {
    fn partial_cmp(&self, o: &str) -> Option<std::cmp::Ordering> {
        (**self).partial_cmp(o)
    }
}
