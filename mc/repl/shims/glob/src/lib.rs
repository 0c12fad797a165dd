//! Stand-in for the part of `glob` which ogma uses: `*` and `?` in each component of a path; the
//! paths in order.
use std::{fmt, path::PathBuf};

#[derive(Debug)]
pub struct PatternError;
impl fmt::Display for PatternError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Pattern syntax error near position 0: invalid range pattern")
    }
}
#[derive(Debug)]
pub struct GlobError;
pub type Paths = std::vec::IntoIter<Result<PathBuf, GlobError>>;

fn matches(p: &[char], s: &[char]) -> bool {
    match p {
        [] => s.is_empty(),
        ['*', p @ ..] => (0..=s.len()).any(|i| matches(p, &s[i..])),
        ['?', p @ ..] => !s.is_empty() && matches(p, &s[1..]),
        [c, p @ ..] => s.first() == Some(c) && matches(p, &s[1..]),
    }
}
pub fn glob(pattern: &str) -> Result<Paths, PatternError> {
    if pattern.contains(['[', ']']) {
        return Err(PatternError);
    }
    let mut at: Vec<PathBuf> = vec![if pattern.starts_with('/') { "/".into() } else { PathBuf::new() }];
    for c in pattern.split('/').filter(|c| !c.is_empty()) {
        let p: Vec<char> = c.chars().collect();
        let mut next = Vec::new();
        for dir in at {
            if !c.contains(['*', '?']) {
                let x = dir.join(c);
                if x.exists() {
                    next.push(x);
                }
                continue;
            }
            let d = if dir.as_os_str().is_empty() { ".".into() } else { dir.clone() };
            let mut names: Vec<String> = std::fs::read_dir(d).into_iter().flatten().flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect();
            names.sort();
            next.extend(names.into_iter().filter(|n| matches(&p, &n.chars().collect::<Vec<_>>())).map(|n| dir.join(n)));
        }
        at = next;
    }
    Ok(at.into_iter().map(Ok).collect::<Vec<_>>().into_iter())
}
