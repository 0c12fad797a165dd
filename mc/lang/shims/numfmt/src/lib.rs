//! Stand-in for the parts of `numfmt` which ogma uses (the git dependency is not available offline).
use std::fmt;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Scale {
    None,
    Short,
    Metric,
    Binary,
}
#[derive(Clone, Debug)]
pub struct Formatter {
    sep: Option<char>,
    decimals: Option<usize>,
    scale: Scale,
    percent: bool,
    prefix: String,
    suffix: String,
    buf: String,
}
#[derive(Debug)]
pub struct ParseError(String);
impl fmt::Display for ParseError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl Formatter {
    pub fn new() -> Self {
        Formatter {
            sep: None,
            decimals: None,
            scale: Scale::None,
            percent: false,
            prefix: String::new(),
            suffix: String::new(),
            buf: String::new(),
        }
    }
    pub fn fmt(&mut self, n: f64) -> &str {
        self.buf = self.render(n);
        &self.buf
    }
    fn render(&self, n: f64) -> String {
        let wrap = |s: String| format!("{}{}{}", self.prefix, s, self.suffix);
        if n == 0.0 {
            return wrap("0".into());
        }
        if n.is_nan() {
            return "NaN".into();
        }
        if n.is_infinite() {
            return if n > 0.0 { "∞".into() } else { "-∞".into() };
        }
        let mut x = n.abs();
        if self.percent {
            x *= 100.0;
        }
        let (base, units): (f64, &[&str]) = match self.scale {
            Scale::None => (1.0, &[""]),
            Scale::Short => (1000.0, &["", " K", " M", " B", " T", " P", " E", " Z", " Y"]),
            Scale::Metric => (1000.0, &["", " k", " M", " G", " T", " P", " E", " Z", " Y"]),
            Scale::Binary => (1024.0, &["", " ki", " Mi", " Gi", " Ti", " Pi", " Ei", " Zi", " Yi"]),
        };
        let mut u = 0;
        while u + 1 < units.len() && x >= base {
            x /= base;
            u += 1;
        }
        let mut s = format!("{x}");
        if !s.contains('.') {
            s.push_str(".0");
        }
        let (i, f) = s.split_once('.').unwrap();
        let f = match self.decimals {
            Some(0) => String::new(),
            Some(d) => format!(".{}", &f[..f.len().min(d)]),
            None => format!(".{f}"),
        };
        let mut o = String::new();
        for (k, c) in i.chars().enumerate() {
            if let (true, Some(sep)) = (k > 0 && (i.len() - k) % 3 == 0, self.sep) {
                o.push(sep);
            }
            o.push(c);
        }
        let sign = if n < 0.0 { "-" } else { "" };
        wrap(format!("{sign}{o}{f}{}{}", units[u], if self.percent { "%" } else { "" }))
    }
}
impl Default for Formatter {
    fn default() -> Self {
        Formatter { sep: Some(','), decimals: Some(3), scale: Scale::Short, ..Formatter::new() }
    }
}
impl std::str::FromStr for Formatter {
    type Err = ParseError;
    fn from_str(s: &str) -> Result<Self, ParseError> {
        let mut f = Formatter::default();
        let Some(a) = s.find('[') else {
            f.prefix = s.to_string();
            return Ok(f);
        };
        f.prefix = s[..a].into();
        let mut it = s[a + 1..].char_indices().peekable();
        while let Some((i, c)) = it.next() {
            match c {
                '.' | '~' => {
                    let mut d = String::new();
                    while it.peek().map_or(false, |c| c.1.is_ascii_digit()) {
                        d.push(it.next().unwrap().1);
                    }
                    f.decimals = d.parse().ok();
                }
                '%' => f.percent = true,
                's' => f.scale = Scale::Short,
                'm' => f.scale = Scale::Metric,
                'b' => f.scale = Scale::Binary,
                'n' => f.scale = Scale::None,
                '/' => f.sep = it.next().map(|c| c.1),
                ']' => {
                    f.suffix = s[a + 1 + i + 1..].into();
                    return Ok(f);
                }
                c => {
                    return Err(ParseError(format!(
                        "unexpected character. expected a ., ~, %, s, m, b, n, /, ] but found '{c}'"
                    )))
                }
            }
        }
        Err(ParseError("did not find ending number format bracket".into()))
    }
}
