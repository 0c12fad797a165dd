//! Stand-in for `cansi` 2.2: texts with SGR sequences taken apart.
pub mod v3 {
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub enum Color {
        Black,
        Red,
        Green,
        Yellow,
        Blue,
        Magenta,
        Cyan,
        White,
        BrightBlack,
        BrightRed,
        BrightGreen,
        BrightYellow,
        BrightBlue,
        BrightMagenta,
        BrightCyan,
        BrightWhite,
    }
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub enum Intensity {
        Normal,
        Bold,
        Faint,
    }
    #[derive(Copy, Clone, Debug, PartialEq, Eq, Default)]
    struct Sgr {
        fg: Option<Color>,
        bg: Option<Color>,
        intensity: Option<Intensity>,
        italic: Option<bool>,
        underline: Option<bool>,
        blink: Option<bool>,
        reversed: Option<bool>,
        hidden: Option<bool>,
        strikethrough: Option<bool>,
    }
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub struct CategorisedSlice<'text> {
        pub text: &'text str,
        pub start: usize,
        pub end: usize,
        pub fg: Option<Color>,
        pub bg: Option<Color>,
        pub intensity: Option<Intensity>,
        pub italic: Option<bool>,
        pub underline: Option<bool>,
        pub blink: Option<bool>,
        pub reversed: Option<bool>,
        pub hidden: Option<bool>,
        pub strikethrough: Option<bool>,
    }
    pub type CategorisedSlices<'text> = Vec<CategorisedSlice<'text>>;
    pub type CategorisedLine<'text> = Vec<CategorisedSlice<'text>>;

    const COLOURS: [Color; 16] = {
        use Color::*;
        [
            Black, Red, Green, Yellow, Blue, Magenta, Cyan, White, BrightBlack, BrightRed, BrightGreen, BrightYellow, BrightBlue,
            BrightMagenta, BrightCyan, BrightWhite,
        ]
    };
    fn slice<'t>(s: Sgr, text: &'t str, start: usize, end: usize) -> CategorisedSlice<'t> {
        let Sgr { fg, bg, intensity, italic, underline, blink, reversed, hidden, strikethrough } = s;
        CategorisedSlice { text: &text[start..end], start, end, fg, bg, intensity, italic, underline, blink, reversed, hidden, strikethrough }
    }
    fn adjust(mut s: Sgr, codes: &str) -> Sgr {
        if codes.is_empty() {
            return Sgr::default();
        }
        for c in codes.split(';') {
            let Ok(k) = c.parse::<u32>() else { continue };
            match k {
                0 => s = Sgr::default(),
                1 => s.intensity = Some(Intensity::Bold),
                2 => s.intensity = Some(Intensity::Faint),
                3 => s.italic = Some(true),
                4 => s.underline = Some(true),
                5 => s.blink = Some(true),
                7 => s.reversed = Some(true),
                8 => s.hidden = Some(true),
                9 => s.strikethrough = Some(true),
                22 => s.intensity = Some(Intensity::Normal),
                23 => s.italic = Some(false),
                24 => s.underline = Some(false),
                25 => s.blink = Some(false),
                27 => s.reversed = Some(false),
                28 => s.hidden = Some(false),
                29 => s.strikethrough = Some(false),
                30..=37 => s.fg = Some(COLOURS[k as usize - 30]),
                39 => s.fg = None,
                40..=47 => s.bg = Some(COLOURS[k as usize - 40]),
                49 => s.bg = None,
                90..=97 => s.fg = Some(COLOURS[k as usize - 82]),
                100..=107 => s.bg = Some(COLOURS[k as usize - 92]),
                _ => (),
            }
        }
        s
    }
    /// The text without its control sequences, cut where the style changes.
    pub fn categorise_text(text: &str) -> CategorisedSlices<'_> {
        let mut out = Vec::new();
        let mut sgr = Sgr::default();
        let (mut lo, mut at) = (0, 0);
        while let Some(i) = text[at..].find("\x1b[").map(|i| i + at) {
            let Some(e) = text[i + 2..].find(|c: char| ('\x40'..='\x7e').contains(&c)).map(|e| e + i + 2) else { break };
            if i != lo {
                out.push(slice(sgr, text, lo, i));
            }
            if &text[e..=e] == "m" {
                sgr = adjust(sgr, &text[i + 2..e]);
            }
            lo = e + 1;
            at = lo;
        }
        if lo != text.len() {
            out.push(slice(sgr, text, lo, text.len()));
        }
        out
    }
    /// Slices line by line, without the line endings; no line after a last line ending.
    pub fn line_iter<'t>(slices: &CategorisedSlices<'t>) -> std::vec::IntoIter<CategorisedLine<'t>> {
        let mut lines = Vec::new();
        let mut line: CategorisedLine<'t> = Vec::new();
        let mut open = false;
        for s in slices {
            let mut lo = 0;
            while let Some(i) = s.text[lo..].find('\n').map(|i| i + lo) {
                let end = if s.text[lo..i].ends_with('\r') { i - 1 } else { i };
                line.push(CategorisedSlice { text: &s.text[lo..end], start: s.start + lo, end: s.start + end, ..*s });
                lines.push(std::mem::take(&mut line));
                open = false;
                lo = i + 1;
            }
            if lo < s.text.len() {
                line.push(CategorisedSlice { text: &s.text[lo..], start: s.start + lo, ..*s });
                open = true;
            }
        }
        if open {
            lines.push(line);
        }
        lines.into_iter()
    }
    /// The text without its control sequences.
    pub fn construct_text_no_codes(slices: &CategorisedSlices) -> String {
        slices.iter().map(|s| s.text).collect()
    }
}
