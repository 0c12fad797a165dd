//! Stand-in for the parts of `comfy-table` which ogma uses: one fixed style (the UTF8_FULL preset
//! without horizontal lines and inner intersections), columns as wide as their widest cell.
use std::fmt;

pub mod presets {
    pub const UTF8_FULL: &str = "││──╞═╪╡┆╌┼├┤┬┴┌┐└┘";
}
#[allow(dead_code)]
#[derive(Clone, Copy)]
pub enum TableComponent {
    HorizontalLines,
    MiddleIntersections,
    LeftBorderIntersections,
    RightBorderIntersections,
}
#[derive(Default)]
pub struct Table {
    header: Option<Vec<String>>,
    rows: Vec<Vec<String>>,
}
impl Table {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn set_header<R: IntoIterator>(&mut self, r: R) -> &mut Self
    where
        R::Item: ToString,
    {
        self.header = Some(r.into_iter().map(|x| x.to_string()).collect());
        self
    }
    pub fn add_row<R: IntoIterator>(&mut self, r: R) -> &mut Self
    where
        R::Item: ToString,
    {
        self.rows.push(r.into_iter().map(|x| x.to_string()).collect());
        self
    }
    pub fn load_preset(&mut self, _: &str) -> &mut Self {
        self
    }
    pub fn remove_style(&mut self, _: TableComponent) -> &mut Self {
        self
    }
}
impl fmt::Display for Table {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut w: Vec<usize> = Vec::new();
        let lines = |c: &str| c.split('\n').map(str::to_string).collect::<Vec<_>>();
        for r in self.header.iter().chain(&self.rows) {
            for (i, c) in r.iter().enumerate() {
                if i == w.len() {
                    w.push(0)
                }
                w[i] = w[i].max(lines(c).iter().map(|l| l.chars().count()).max().unwrap_or(0));
            }
        }
        let bar = |l: &str, fill: &str, m: &str, r: &str| {
            let v: Vec<String> = w.iter().map(|n| fill.repeat(n + 2)).collect();
            format!("{l}{}{r}", v.join(m))
        };
        let mut out = vec![bar("┌", "─", "┬", "┐")];
        let row = |r: &Vec<String>, out: &mut Vec<String>| {
            let cells: Vec<Vec<String>> =
                (0..w.len()).map(|i| lines(r.get(i).map_or("", |x| x))).collect();
            for k in 0..cells.iter().map(Vec::len).max().unwrap_or(0) {
                let v: Vec<String> = cells
                    .iter()
                    .zip(&w)
                    .map(|(c, n)| {
                        let s = c.get(k).map_or("", |x| x);
                        format!(" {s}{} ", " ".repeat(n - s.chars().count()))
                    })
                    .collect();
                out.push(format!("│{}│", v.join("┆")));
            }
        };
        if let Some(h) = &self.header {
            row(h, &mut out);
            out.push(bar("╞", "═", "╪", "╡"));
        }
        for r in &self.rows {
            row(r, &mut out);
        }
        out.push(bar("└", "─", "┴", "┘"));
        f.write_str(&out.join("\n"))
    }
}
