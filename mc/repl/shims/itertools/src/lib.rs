//! Stand-in for the parts of `itertools` which ogma-ls uses.
pub trait Itertools: Iterator {
    /// Consecutive equal items once.
    fn dedup(self) -> Dedup<Self>
    where
        Self: Sized,
        Self::Item: PartialEq,
    {
        Dedup { last: None, it: self }
    }
    fn unique(self) -> std::vec::IntoIter<Self::Item>
    where
        Self: Sized,
        Self::Item: PartialEq + Clone,
    {
        let mut v: Vec<Self::Item> = Vec::new();
        for x in self {
            if !v.contains(&x) {
                v.push(x)
            }
        }
        v.into_iter()
    }
    fn sorted(self) -> std::vec::IntoIter<Self::Item>
    where
        Self: Sized,
        Self::Item: Ord,
    {
        let mut v: Vec<_> = self.collect();
        v.sort();
        v.into_iter()
    }
    fn join(&mut self, sep: &str) -> String
    where
        Self::Item: std::fmt::Display,
    {
        self.map(|x| x.to_string()).collect::<Vec<_>>().join(sep)
    }
    fn collect_vec(self) -> Vec<Self::Item>
    where
        Self: Sized,
    {
        self.collect()
    }
}
impl<I: Iterator + ?Sized> Itertools for I {}
pub struct Dedup<I: Iterator> {
    last: Option<I::Item>,
    it: I,
}
impl<I: Iterator> Iterator for Dedup<I>
where
    I::Item: PartialEq,
{
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        let cur = match self.last.take() {
            Some(x) => x,
            None => self.it.next()?,
        };
        for x in self.it.by_ref() {
            if x != cur {
                self.last = Some(x);
                break;
            }
        }
        Some(cur)
    }
}
