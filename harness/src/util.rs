use crate::sym;
use minimad::{Alignment, Compound};
use termimad::crossterm::style::{Attribute, Color};
use termimad::*;

/// a character which isn't a control and whose display width doesn't depend on its neighbours:
/// width one (ASCII, Latin, ideographic rule...), two (CJK) or zero (combining diacritics)
pub fn plain(c: char) -> bool {
    let u = c as u32;
    if u < 0x80 {
        u >= 0x20 && u != 0x7f
    } else if u < 0x800 {
        (u >= 0xa1 && u != 0xad && u < 0x2b0) || (u >= 0x300 && u < 0x34f)
    } else if u < 0x10000 {
        (u >= 0x4e00 && u < 0x9fff) || (u >= 0x2500 && u < 0x2580)
    } else {
        u >= 0x20000 && u < 0x2a000
    }
}
pub fn plain_char(classes: u32) -> char {
    if classes == 0 {
        // only letters and spaces
        let c = sym::chr(1);
        sym::assume(c == 'a' || c == ' ');
        return c;
    }
    let c = sym::chr(classes);
    sym::assume(plain(c));
    c
}
/// a plain char or a space, so that texts aren't longer than needed
pub fn plain_string(n: usize, classes: u32) -> (String, Vec<char>) {
    let mut s = String::new();
    let mut v = Vec::new();
    for _ in 0..n {
        let c = plain_char(classes);
        s.push(c);
        v.push(c);
    }
    (s, v)
}
/// printable char of width one
pub fn narrow_char(classes: u32) -> char {
    let c = plain_char(classes);
    sym::assume(crate::term::cw(c) == 1);
    c
}
pub fn align(i: usize) -> Alignment {
    match i {
        0 => Alignment::Unspecified,
        1 => Alignment::Left,
        2 => Alignment::Center,
        _ => Alignment::Right,
    }
}
pub fn pick_align() -> Alignment {
    align(sym::pick(4))
}
/// a style with both colors and an attribute
pub fn some_style() -> CompoundStyle {
    CompoundStyle::new(Some(Color::AnsiValue(17)), Some(Color::AnsiValue(3)), Attribute::Bold.into())
}
/// compounds with different styles
pub fn restyle(c: Compound<'_>, i: usize) -> Compound<'_> {
    match i % 6 {
        0 => c,
        1 => c.bold(),
        2 => c.italic(),
        3 => c.code(),
        4 => c.bold().italic(),
        _ => c.strikeout(),
    }
}
pub fn style_bits(c: &Compound<'_>) -> u32 {
    (c.bold as u32) | (c.italic as u32) << 1 | (c.code as u32) << 2 | (c.strikeout as u32) << 3
}
