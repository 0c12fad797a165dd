//! Stand-in for `encoding::decode` with `UTF_8` as the fallback encoding.
use std::borrow::Cow;
pub struct Utf8;
pub mod all {
    pub const UTF_8: &super::Utf8 = &super::Utf8;
}
#[derive(Clone, Copy)]
pub enum DecoderTrap {
    Strict,
}
pub fn decode(b: &[u8], _: DecoderTrap, f: &'static Utf8) -> (Result<String, Cow<'static, str>>, &'static Utf8) {
    let e = || Cow::Borrowed("invalid sequence");
    let u16s = |b: &[u8], le: bool| {
        if b.len() % 2 == 1 {
            return Err(e());
        }
        let v: Vec<u16> = b.chunks(2).map(|c| if le { u16::from_le_bytes([c[0], c[1]]) } else { u16::from_be_bytes([c[0], c[1]]) }).collect();
        String::from_utf16(&v).map_err(|_| e())
    };
    let r = match b {
        [0xef, 0xbb, 0xbf, r @ ..] => String::from_utf8(r.to_vec()).map_err(|_| e()),
        [0xfe, 0xff, r @ ..] => u16s(r, false),
        [0xff, 0xfe, r @ ..] => u16s(r, true),
        r => String::from_utf8(r.to_vec()).map_err(|_| e()),
    };
    (r, f)
}
