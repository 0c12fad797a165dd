//! Stand-in for `simsearch`: candidates whose edit distance is at most a third of the longer name.
pub struct SimSearch<I>(Vec<(I, String)>);
impl<I: Clone> SimSearch<I> {
    pub fn new() -> Self {
        SimSearch(Vec::new())
    }
    pub fn insert(&mut self, id: I, s: &str) {
        self.0.push((id, s.to_lowercase()))
    }
    pub fn search(&self, p: &str) -> Vec<I> {
        let p = p.to_lowercase();
        let mut v: Vec<_> = self
            .0
            .iter()
            .enumerate()
            .map(|(k, (i, s))| (dist(&p, s), k, i))
            .filter(|(d, k, _)| d * 3 <= p.chars().count().max(self.0[*k].1.chars().count()))
            .collect();
        v.sort_by_key(|x| (x.0, x.1));
        v.into_iter().map(|x| x.2.clone()).collect()
    }
}
fn dist(a: &str, b: &str) -> usize {
    let b: Vec<char> = b.chars().collect();
    let mut d: Vec<usize> = (0..=b.len()).collect();
    for (i, c) in a.chars().enumerate() {
        let mut p = d[0];
        d[0] = i + 1;
        for j in 0..b.len() {
            let x = (p + (b[j] != c) as usize).min(d[j] + 1).min(d[j + 1] + 1);
            p = std::mem::replace(&mut d[j + 1], x);
        }
    }
    d[b.len()]
}
