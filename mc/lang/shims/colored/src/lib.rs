//! Stand-in for `colored` 2: colours only when forced.
use std::fmt;
pub mod control {
    use std::sync::atomic::{AtomicBool, Ordering};
    static ON: AtomicBool = AtomicBool::new(false);
    pub fn set_override(b: bool) {
        ON.store(b, Ordering::Relaxed)
    }
    pub fn unset_override() {
        set_override(false)
    }
    pub fn set_virtual_terminal(_: bool) -> Result<(), ()> {
        Ok(())
    }
    pub(crate) fn on() -> bool {
        ON.load(Ordering::Relaxed)
    }
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct ColoredString {
    s: String,
    fg: Option<u8>,
    bg: Option<u8>,
    styles: u16,
}
impl ColoredString {
    fn codes(&self) -> String {
        // in the order of the original
        let styles = [1u8, 2, 4, 7, 3, 5, 8, 9].into_iter().filter(|k| self.styles & (1 << k) != 0);
        let c: Vec<String> = styles.chain(self.bg).chain(self.fg).map(|x| x.to_string()).collect();
        format!("\x1b[{}m", c.join(";"))
    }
    pub fn clear(mut self) -> Self {
        (self.fg, self.bg, self.styles) = (None, None, 0);
        self
    }
}
impl std::ops::Deref for ColoredString {
    type Target = str;
    fn deref(&self) -> &str {
        &self.s
    }
}
impl From<&str> for ColoredString {
    fn from(s: &str) -> Self {
        s.cs()
    }
}
impl fmt::Display for ColoredString {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if !control::on() || self.fg.is_none() && self.bg.is_none() && self.styles == 0 {
            return fmt::Display::fmt(&self.s, f);
        }
        let codes = self.codes();
        f.write_str(&codes)?;
        // what is inside and resets goes on in this style
        fmt::Display::fmt(&self.s.replace("\x1b[0m", &format!("\x1b[0m{codes}")), f)?;
        f.write_str("\x1b[0m")
    }
}
macro_rules! styles {
    ($($n:ident $f:ident $c:literal)*) => {
        pub trait Colorize: Sized {
            fn cs(self) -> ColoredString;
            fn normal(self) -> ColoredString { self.cs().clear() }
            $(fn $n(self) -> ColoredString { let mut c = self.cs(); styles!(@ c $f $c); c })*
        }
    };
    (@ $x:ident fg $c:literal) => { $x.fg = Some($c) };
    (@ $x:ident bg $c:literal) => { $x.bg = Some($c) };
    (@ $x:ident st $c:literal) => { $x.styles |= 1 << $c };
}
styles!(black fg 30 red fg 31 green fg 32 yellow fg 33 blue fg 34 magenta fg 35 purple fg 35 cyan fg 36 white fg 37
  bright_black fg 90 bright_red fg 91 bright_green fg 92 bright_yellow fg 93 bright_blue fg 94 bright_magenta fg 95 bright_purple fg 95 bright_cyan fg 96 bright_white fg 97
  on_black bg 40 on_red bg 41 on_green bg 42 on_yellow bg 43 on_blue bg 44 on_magenta bg 45 on_purple bg 45 on_cyan bg 46 on_white bg 47
  on_bright_black bg 100 on_bright_red bg 101 on_bright_green bg 102 on_bright_yellow bg 103 on_bright_blue bg 104 on_bright_magenta bg 105 on_bright_purple bg 105 on_bright_cyan bg 106 on_bright_white bg 107
  bold st 1 dimmed st 2 italic st 3 underline st 4 blink st 5 reverse st 7 reversed st 7 hidden st 8 strikethrough st 9);
impl Colorize for &str {
    fn cs(self) -> ColoredString {
        ColoredString { s: self.to_string(), ..Default::default() }
    }
}
impl Colorize for ColoredString {
    fn cs(self) -> ColoredString {
        self
    }
}
