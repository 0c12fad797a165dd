//! The standard library as the language crates see it: threads, locks and channels belong to the
//! scheduler, detached clean-up threads run inline, time can be stopped, and nothing outside the
//! process's scratch folder can be written.
pub use mc_std::*;

pub mod ctl {
    use ::std::sync::atomic::{AtomicBool, Ordering};
    use ::std::sync::{Mutex, RwLock};
    use ::std::path::PathBuf;
    /// `thread::spawn` of the crate (clean-up of dropped tables) starts a task of its own.
    pub static SPAWN: AtomicBool = AtomicBool::new(false);
    /// Where files may be written (absolute); elsewhere the attempt is recorded and refused.
    pub static SANDBOX: RwLock<Option<PathBuf>> = RwLock::new(None);
    pub static ESCAPES: Mutex<Vec<PathBuf>> = Mutex::new(Vec::new());
    pub fn set_sandbox(p: impl Into<PathBuf>) {
        *SANDBOX.write().unwrap() = Some(p.into());
    }
    pub fn take_escapes() -> Vec<PathBuf> {
        ::std::mem::take(&mut *ESCAPES.lock().unwrap())
    }
    thread_local!(
        /// How long (virtual time) it takes until what was read from a file is at hand.
        pub static READING: ::std::cell::Cell<u64> = const { ::std::cell::Cell::new(0) };
        /// Told of every file the crate wrote.
        pub static WROTE: ::std::cell::Cell<Option<fn(&::std::path::Path)>> = const { ::std::cell::Cell::new(None) };
    );
    pub(crate) fn reading() {
        let ms = READING.with(|r| r.get());
        if ms > 0 && mcrt::active() {
            mcrt::sleep(::std::time::Duration::from_millis(ms));
        }
    }
    pub(crate) fn wrote(p: &::std::path::Path) {
        if let Some(f) = WROTE.with(|w| w.get()) {
            f(p)
        }
    }
    /// Ordinary threads and time outside of the scheduler (the crates' own tests are run so).
    pub(crate) fn real() -> bool {
        static REAL: ::std::sync::OnceLock<bool> = ::std::sync::OnceLock::new();
        *REAL.get_or_init(|| ::std::env::var_os("MC_REAL_THREADS").is_some())
    }
    pub(crate) fn spawns() -> bool {
        SPAWN.load(Ordering::Relaxed)
    }
}

pub mod thread {
    pub use mc_std::thread::*;
    pub fn spawn<F, T>(f: F) -> JoinHandle<T>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        if crate::ctl::spawns() {
            mc_std::thread::spawn(f)
        } else {
            let r = f();
            mc_std::thread::ready(r)
        }
    }
    /// Background threads run under the scheduler only (the file watcher and the cache cleaner).
    #[derive(Debug, Default)]
    pub struct Builder(mc_std::thread::Builder);
    impl Builder {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn name(self, n: String) -> Self {
            Builder(self.0.name(n))
        }
        pub fn stack_size(self, n: usize) -> Self {
            Builder(self.0.stack_size(n))
        }
        pub fn spawn<F, T>(self, f: F) -> ::std::io::Result<JoinHandle<T>>
        where
            F: FnOnce() -> T + Send + 'static,
            T: Send + 'static,
        {
            if mcrt::active() || crate::ctl::real() {
                self.0.spawn(f)
            } else {
                Ok(mc_std::thread::never())
            }
        }
    }
    pub fn sleep(d: ::std::time::Duration) {
        if mcrt::active() || crate::ctl::real() {
            mc_std::thread::sleep(d)
        }
    }
}

pub mod fs {
    pub use ::std::fs::*;
    use ::std::io;
    use ::std::path::{Component, Path, PathBuf};

    /// Where `p` leads, links included as far as it exists.
    fn resolve(p: &Path) -> PathBuf {
        let mut out = ::std::env::current_dir().unwrap_or_default();
        for c in p.components() {
            match c {
                Component::CurDir => (),
                Component::ParentDir => {
                    out.pop();
                }
                c => {
                    out.push(c);
                    if let Ok(r) = out.canonicalize() {
                        out = r
                    }
                }
            }
        }
        out
    }
    fn guard(p: &Path) -> io::Result<()> {
        if let Some(b) = &*crate::ctl::SANDBOX.read().unwrap() {
            let r = resolve(p);
            if !r.starts_with(b) {
                crate::ctl::ESCAPES.lock().unwrap().push(r);
                return Err(io::Error::new(io::ErrorKind::PermissionDenied, "outside of the sandbox"));
            }
        }
        Ok(())
    }
    macro_rules! guarded {
        ($($f:ident),*) => { $(
            pub fn $f<P: AsRef<Path>>(p: P) -> io::Result<()> {
                guard(p.as_ref())?;
                ::std::fs::$f(p)
            }
        )* };
    }
    guarded!(create_dir, create_dir_all, remove_file, remove_dir, remove_dir_all);
    macro_rules! guarded_both {
        ($($f:ident -> $r:ty),*) => { $(
            pub fn $f<P: AsRef<Path>, Q: AsRef<Path>>(p: P, q: Q) -> io::Result<$r> {
                guard(p.as_ref())?;
                guard(q.as_ref())?;
                ::std::fs::$f(p, q)
            }
        )* };
    }
    guarded_both!(rename -> (), copy -> u64, hard_link -> ());
    pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(p: P, c: C) -> io::Result<()> {
        guard(p.as_ref())?;
        ::std::fs::write(&p, c)?;
        crate::ctl::wrote(p.as_ref());
        Ok(())
    }
    pub fn read<P: AsRef<Path>>(p: P) -> io::Result<Vec<u8>> {
        let r = ::std::fs::read(p);
        crate::ctl::reading();
        r
    }
    pub fn read_to_string<P: AsRef<Path>>(p: P) -> io::Result<String> {
        let r = ::std::fs::read_to_string(p);
        crate::ctl::reading();
        r
    }
    pub fn set_permissions<P: AsRef<Path>>(p: P, m: Permissions) -> io::Result<()> {
        guard(p.as_ref())?;
        ::std::fs::set_permissions(p, m)
    }
    #[derive(Debug)]
    pub struct File(::std::fs::File, Option<PathBuf>);
    impl Drop for File {
        fn drop(&mut self) {
            if let Some(p) = self.1.take() {
                crate::ctl::wrote(&p);
            }
        }
    }
    impl File {
        pub fn create<P: AsRef<Path>>(p: P) -> io::Result<File> {
            guard(p.as_ref())?;
            let at = p.as_ref().to_path_buf();
            ::std::fs::File::create(p).map(|f| File(f, Some(at)))
        }
        pub fn open<P: AsRef<Path>>(p: P) -> io::Result<File> {
            ::std::fs::File::open(p).map(|f| File(f, None))
        }
        pub fn options() -> OpenOptions {
            OpenOptions::new()
        }
    }
    impl ::std::ops::Deref for File {
        type Target = ::std::fs::File;
        fn deref(&self) -> &::std::fs::File {
            &self.0
        }
    }
    impl ::std::ops::DerefMut for File {
        fn deref_mut(&mut self) -> &mut ::std::fs::File {
            &mut self.0
        }
    }
    impl io::Write for File {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> {
            self.0.write(b)
        }
        fn flush(&mut self) -> io::Result<()> {
            self.0.flush()
        }
    }
    impl io::Read for File {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            let n = self.0.read(b)?;
            if n == 0 {
                crate::ctl::reading();
            }
            Ok(n)
        }
    }
    impl io::Seek for File {
        fn seek(&mut self, s: io::SeekFrom) -> io::Result<u64> {
            self.0.seek(s)
        }
    }
    #[derive(Clone, Debug)]
    pub struct OpenOptions(::std::fs::OpenOptions, bool);
    impl OpenOptions {
        #[allow(clippy::new_without_default)]
        pub fn new() -> Self {
            OpenOptions(::std::fs::OpenOptions::new(), false)
        }
        pub fn read(&mut self, x: bool) -> &mut Self {
            self.0.read(x);
            self
        }
        pub fn open<P: AsRef<Path>>(&self, p: P) -> io::Result<File> {
            if self.1 {
                guard(p.as_ref())?;
            }
            let at = self.1.then(|| p.as_ref().to_path_buf());
            self.0.open(p).map(|f| File(f, at))
        }
    }
    macro_rules! writing {
        ($($f:ident),*) => { impl OpenOptions { $(
            pub fn $f(&mut self, x: bool) -> &mut Self {
                self.0.$f(x);
                self.1 |= x;
                self
            }
        )* } };
    }
    writing!(write, append, truncate, create, create_new);
}
