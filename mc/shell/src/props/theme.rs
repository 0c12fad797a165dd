use crate::interface::theme::Theme;
use mcrt::driver::Ctx;
use tui::style::{Color, Color::*, Modifier, Style};

fn light(c: Color) -> Color {
    let map = [
        (White, Black),
        (Magenta, LightMagenta),
        (LightCyan, Cyan),
        (LightRed, Red),
        (Yellow, Rgb(210, 105, 30)),
        (LightYellow, Rgb(255, 140, 0)),
        (Rgb(192, 192, 192), Rgb(55, 55, 55)),
    ];
    map.iter().find(|(a, _)| *a == c).map_or(c, |(_, b)| *b)
}

fn expect(s: Style, t: u8) -> Style {
    if t % 2 == 0 {
        return s;
    }
    Style { fg: s.fg.map(light), bg: s.bg.map(light), ..s }
}

fn check(s: Style, t: u8) -> Result<(), String> {
    let r = s.theme(t);
    let e = expect(s, t);
    if r != e {
        return Err(format!("{s:?} under theme {t} is {r:?}, should be {e:?}"));
    }
    // two steps of the theme switch come back to the same look
    if s.theme(t.wrapping_add(2)) != r {
        return Err(format!("themes {t} and {} differ on {s:?}", t.wrapping_add(2)));
    }
    // decorating twice changes nothing more
    if r.theme(t) != r {
        return Err(format!("theme {t} applied twice to {s:?} gives {:?}", r.theme(t)));
    }
    Ok(())
}

fn style(fg: Option<Color>, bg: Option<Color>, add: u16, sub: u16) -> Style {
    let mut s = Style::default();
    s.fg = fg;
    s.bg = bg;
    s.add_modifier = Modifier::from_bits_truncate(add);
    s.sub_modifier = Modifier::from_bits_truncate(sub);
    s
}

pub fn mapping(cx: &mut Ctx) {
    let mut cols: Vec<Option<Color>> = vec![
        None, Some(Reset), Some(Black), Some(Red), Some(Green), Some(Yellow), Some(Blue), Some(Magenta), Some(Cyan), Some(Gray),
        Some(DarkGray), Some(LightRed), Some(LightGreen), Some(LightYellow), Some(LightBlue), Some(LightMagenta), Some(LightCyan),
        Some(White), Some(Rgb(192, 192, 192)), Some(Rgb(55, 55, 55)), Some(Rgb(210, 105, 30)), Some(Rgb(255, 140, 0)),
        Some(Rgb(192, 192, 193)), Some(Rgb(0, 0, 0)), Some(Rgb(255, 255, 255)),
    ];
    let named = cols.len();
    cols.extend((0..=255).map(|i| Some(Indexed(i))));
    let n = cols.len() as u64;
    // foreground x background x theme number
    cx.cases(
        "theme-colours",
        n * n * 256,
        |i| format!("fg {:?} bg {:?} theme {}", cols[(i / 256 / n) as usize], cols[(i / 256 % n) as usize], i % 256),
        |i| check(style(cols[(i / 256 / n) as usize], cols[(i / 256 % n) as usize], 0, 0), (i % 256) as u8).map(|_| 4),
    );
    // modifiers: every set added x every set removed x colours x both parities
    let cs = [None, Some(White), Some(Yellow), Some(Blue)];
    cx.cases(
        "theme-modifiers",
        512 * 512 * 16 * 2,
        |i| format!("add {:#b} sub {:#b} case {}", i & 511, (i >> 9) & 511, i >> 18),
        |i| {
            let c = i >> 18;
            check(style(cs[(c & 3) as usize], cs[((c >> 2) & 3) as usize], (i & 511) as u16, ((i >> 9) & 511) as u16), (c >> 4) as u8 + 2).map(|_| 4)
        },
    );
    // every RGB colour
    cx.cases(
        "theme-rgb",
        1 << 24,
        |i| format!("rgb {i:06x}"),
        |i| {
            let c = Some(Rgb((i >> 16) as u8, (i >> 8) as u8, i as u8));
            check(style(c, None, 1, 0), 1)?;
            check(style(Some(Red), c, 0, 0), 1)?;
            check(style(c, c, 0, 0), 0).map(|_| 12)
        },
    );
    let _ = named;
}
