//! Data parallelism under the scheduler: the items are cut into contiguous chunks at
//! nondeterministic points, each chunk runs on a virtual thread of its own (with its own `init`
//! value), results are put back in order. Outside the scheduler the chunks run one after another
//! on the calling thread, cut as [`plan`] says.
use std::cell::Cell;

thread_local!(static PLAN: Cell<(u64, bool)> = const { Cell::new((0, false)) });
/// Outside the scheduler: cut after item `i` iff bit `i` of `cuts` is set; `rev`: last chunk first.
pub fn plan(cuts: u64, rev: bool) {
    PLAN.with(|p| p.set((cuts, rev)))
}

thread_local!(static LEFT: Cell<usize> = const { Cell::new(usize::MAX) });
/// Under the scheduler: at most so many cuts in the rest of this execution (all tasks of an execution
/// run on one OS thread).
pub fn budget(n: usize) {
    LEFT.with(|l| l.set(n));
}

fn cuts(n: usize) -> Vec<usize> {
    // start index of each chunk
    let mut v = vec![0];
    if mcrt::active() {
        while v.len() < 3 {
            let at = *v.last().unwrap();
            let left = n.saturating_sub(at);
            if left < 2 || LEFT.with(|l| l.get()) == 0 {
                break;
            }
            match mcrt::choose(left.min(6), "rayon: cut") {
                0 => break,
                k => {
                    v.push(at + k);
                    LEFT.with(|l| l.set(l.get().saturating_sub(1)));
                }
            }
        }
    } else {
        let (c, _) = PLAN.with(|p| p.get());
        v.extend((1..n.min(64)).filter(|i| c >> (i - 1) & 1 == 1));
    }
    v
}

fn run<T: Send, S, R: Send>(
    items: Vec<T>,
    init: impl Fn() -> S + Sync,
    f: impl Fn(&mut S, T) -> R + Sync,
) -> Vec<R> {
    let starts = cuts(items.len());
    let mut it = items.into_iter();
    let mut chunks: Vec<Vec<T>> = Vec::new();
    for (k, s) in starts.iter().enumerate() {
        chunks.push(match starts.get(k + 1) {
            Some(e) => it.by_ref().take(e - s).collect(),
            None => it.by_ref().collect(),
        });
    }
    let work = |c: Vec<T>| {
        let mut s = init();
        c.into_iter().map(|x| f(&mut s, x)).collect::<Vec<R>>()
    };
    if chunks.len() == 1 {
        return work(chunks.pop().unwrap());
    }
    if mcrt::active() {
        let w = &work;
        mc_std::thread::scope(|s| {
            let hs: Vec<_> = chunks.into_iter().map(|c| s.spawn(move || w(c))).collect();
            let rs: Vec<_> = hs.into_iter().map(|h| h.join()).collect();
            let mut out = Vec::new();
            for r in rs {
                match r {
                    Ok(v) => out.extend(v),
                    Err(e) => std::panic::resume_unwind(e),
                }
            }
            out
        })
    } else {
        let rev = PLAN.with(|p| p.get()).1;
        let mut out: Vec<(usize, Vec<R>)> = Vec::new();
        let mut idx: Vec<_> = chunks.into_iter().enumerate().collect();
        if rev {
            idx.reverse()
        }
        for (k, c) in idx {
            out.push((k, work(c)));
        }
        out.sort_by_key(|x| x.0);
        out.into_iter().flat_map(|x| x.1).collect()
    }
}

pub struct Par<T>(Vec<T>);
pub struct ParMap<T, F>(Vec<T>, F);

impl<T: Send> Par<T> {
    pub fn enumerate(self) -> Par<(usize, T)> {
        Par(self.0.into_iter().enumerate().collect())
    }
    pub fn skip(self, n: usize) -> Par<T> {
        Par(self.0.into_iter().skip(n).collect())
    }
    pub fn take(self, n: usize) -> Par<T> {
        Par(self.0.into_iter().take(n).collect())
    }
    pub fn map<R: Send, F: Fn(T) -> R + Sync>(self, f: F) -> ParMap<T, F> {
        ParMap(self.0, f)
    }
    pub fn filter(self, f: impl Fn(&T) -> bool + Sync) -> Par<T> {
        let v = run(self.0, || (), |_, x| f(&x).then_some(x));
        Par(v.into_iter().flatten().collect())
    }
    pub fn count(self) -> usize {
        self.0.len()
    }
    pub fn all(self, f: impl Fn(T) -> bool + Sync) -> bool {
        run(self.0, || (), |_, x| f(x)).into_iter().all(|x| x)
    }
    pub fn any(self, f: impl Fn(T) -> bool + Sync) -> bool {
        run(self.0, || (), |_, x| f(x)).into_iter().any(|x| x)
    }
    pub fn for_each(self, f: impl Fn(T) + Sync) {
        run(self.0, || (), |_, x| f(x));
    }
    pub fn for_each_init<S>(self, init: impl Fn() -> S + Sync, f: impl Fn(&mut S, T) + Sync) {
        run(self.0, init, |s, x| f(s, x));
    }
    pub fn collect<C: FromIterator<T>>(self) -> C {
        self.0.into_iter().collect()
    }
}
impl<T: Send, R: Send, F: Fn(T) -> R + Sync> ParMap<T, F> {
    pub fn go(self) -> Vec<R> {
        let f = self.1;
        run(self.0, || (), |_, x| f(x))
    }
    pub fn collect<C: FromIterator<R>>(self) -> C {
        self.go().into_iter().collect()
    }
    pub fn for_each(self, f: impl Fn(R) + Sync) {
        let g = self.1;
        run(self.0, || (), |_, x| f(g(x)));
    }
}

pub trait IntoParallelIterator {
    type Item: Send;
    fn into_par_iter(self) -> Par<Self::Item>;
}
impl<I: IntoIterator> IntoParallelIterator for I
where
    I::Item: Send,
{
    type Item = I::Item;
    fn into_par_iter(self) -> Par<I::Item> {
        Par(self.into_iter().collect())
    }
}
pub trait IntoParallelRefIterator<'a> {
    type Item: Send;
    fn par_iter(&'a self) -> Par<Self::Item>;
}
impl<'a, T: Sync + 'a> IntoParallelRefIterator<'a> for [T] {
    type Item = &'a T;
    fn par_iter(&'a self) -> Par<&'a T> {
        Par(self.iter().collect())
    }
}
pub trait IntoParallelRefMutIterator<'a> {
    type Item: Send;
    fn par_iter_mut(&'a mut self) -> Par<Self::Item>;
}
impl<'a, T: Send + 'a> IntoParallelRefMutIterator<'a> for [T] {
    type Item = &'a mut T;
    fn par_iter_mut(&'a mut self) -> Par<&'a mut T> {
        Par(self.iter_mut().collect())
    }
}
pub trait ParallelExtend<T: Send> {
    fn par_extend<R: Send, F: Fn(R) -> T + Sync>(&mut self, it: ParMap<R, F>);
}
impl<T: Send> ParallelExtend<T> for Vec<T> {
    fn par_extend<R: Send, F: Fn(R) -> T + Sync>(&mut self, it: ParMap<R, F>) {
        self.extend(it.go())
    }
}
pub mod prelude {
    pub use crate::{
        IntoParallelIterator, IntoParallelRefIterator, IntoParallelRefMutIterator, Par,
        ParallelExtend,
    };
}
/// A detached task of the pool.
pub fn spawn(f: impl FnOnce() + Send + 'static) {
    mc_std::thread::spawn(f);
}
