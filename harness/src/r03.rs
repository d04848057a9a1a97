//! composition of styles, styled chars
use crate::{sym, term::{Sty, Term}, util::*};
use std::io::Write;
use termimad::crossterm::style::{Attribute, Attributes, Color};
use termimad::*;

/// the attributes whose bits may be set
const ATTRS: [Attribute; 10] = [
    Attribute::Bold, Attribute::Dim, Attribute::Italic, Attribute::Underlined, Attribute::SlowBlink,
    Attribute::Reverse, Attribute::Hidden, Attribute::CrossedOut, Attribute::Encircled, Attribute::OverLined,
];
const SGR: [u32; 10] = [1, 2, 3, 4, 5, 7, 8, 9, 12, 13];
/// any color of a few kinds
fn color(k: usize) -> Option<Color> {
    match k {
        0 => None,
        1 => Some(Color::AnsiValue(sym::u8())),
        2 => Some(Color::Rgb { r: sym::u8(), g: sym::u8(), b: sym::u8() }),
        3 => Some(Color::DarkRed),
        _ => Some(Color::White),
    }
}
fn attrs(first: usize, n: usize) -> (Attributes, u32) {
    let mut a = Attributes::default();
    let mut bits = 0;
    for i in first..first + n {
        if sym::pick(2) == 1 {
            a.set(ATTRS[i]);
            bits |= 1 << i;
        }
    }
    (a, bits)
}
fn bits_of(s: &CompoundStyle) -> u32 {
    let mut b = 0;
    for i in 0..10 {
        if s.has_attr(ATTRS[i]) {
            b |= 1 << i;
        }
    }
    b
}

/// params: kinds of colors, first attribute, attributes
pub fn r03_overwrite() {
    let k = sym::param(0);
    let (a, n) = (sym::param(1), sym::param(2));
    let (f1, b1) = (color(sym::pick(k)), color(sym::pick(k)));
    let (f2, b2) = (color(sym::pick(k)), color(sym::pick(k)));
    let (a1, m1) = attrs(a, n);
    let (a2, m2) = attrs(a, n);
    let mut s = CompoundStyle::new(f1, b1, a1);
    let o = CompoundStyle::new(f2, b2, a2);
    s.overwrite_with(&o);
    sym::check(s.get_fg() == if f2.is_some() { f2 } else { f1 }, "foreground");
    sym::check(s.get_bg() == if b2.is_some() { b2 } else { b1 }, "background");
    sym::check(bits_of(&s) == m1 | m2, "attributes");
    sym::check(o.get_fg() == f2 && o.get_bg() == b2 && bits_of(&o) == m2, "overlay unchanged");
    sym::reach("overlaid");
}
/// changes of a style; the attributes it has are the ones set
pub fn r03_setters() {
    let mut s = CompoundStyle::default();
    let (mut fg, mut bg, mut bits) = (None, None, 0);
    for _ in 0..sym::param(0) {
        match sym::pick(6) {
            0 => {
                fg = color(1);
                s.set_fg(fg.unwrap());
            }
            1 => {
                bg = color(2);
                s.set_bg(bg.unwrap());
            }
            2 => {
                fg = color(2);
                bg = color(1);
                s.set_fgbg(fg.unwrap(), bg.unwrap());
            }
            3 => {
                let i = sym::pick(10);
                s.add_attr(ATTRS[i]);
                bits |= 1 << i;
            }
            4 => {
                let i = sym::pick(10);
                s.remove_attr(ATTRS[i]);
                bits &= !(1 << i);
            }
            _ => {
                let o = CompoundStyle::with_attr(Attribute::Italic);
                s.overwrite_with(&o);
                bits |= 4;
            }
        }
    }
    sym::check(s.get_fg() == fg && s.get_bg() == bg, "colors");
    sym::check(bits_of(&s) == bits, "attributes");
    sym::reach("set");
}

fn sty(s: &CompoundStyle) -> Sty {
    let code = |c: Option<Color>| match c {
        None => 0,
        Some(Color::AnsiValue(v)) => 0x1000000 + v as u32,
        Some(Color::Rgb { r, g, b }) => 0x2000000 + ((r as u32) << 16) + ((g as u32) << 8) + b as u32,
        Some(Color::DarkRed) => 0x1000001,
        Some(Color::White) => 0x100000f,
        Some(_) => 0xffffffff,
    };
    let bits = bits_of(s);
    let mut attrs = 0;
    for i in 0..10 {
        if bits & (1 << i) != 0 {
            attrs |= 1 << SGR[i];
        }
    }
    Sty { fg: code(s.get_fg()), bg: code(s.get_bg()), attrs }
}
fn printed(term: &Term, n: usize, c: char, sty: Sty, what: &'static str) {
    sym::check(term.unknown == 0 && term.chars.len() == n, what);
    for cell in &term.cells {
        sym::check(cell.c == c, what);
        sym::check(cell.sty == sty, what);
    }
}
/// colors whose digits are known, so that what is printed may be read
fn known_color(i: usize) -> Color {
    match i {
        0 => Color::AnsiValue(17),
        1 => Color::Rgb { r: 250, g: 99, b: 7 },
        2 => Color::DarkRed,
        _ => Color::White,
    }
}
/// params: operations, classes of the chars
pub fn r03_styled_char() {
    let classes = sym::param(1) as u32;
    let mut ch = plain_char(classes);
    let mut sc = if sym::pick(2) == 0 {
        StyledChar::from_fg_char(known_color(0), ch)
    } else {
        StyledChar::nude(ch)
    };
    let (mut fg, mut bg, mut bits) = (sc.get_fg(), None, 0);
    let mut blended = false;
    for _ in 0..sym::param(0) {
        match sym::pick(7) {
            0 => {
                ch = plain_char(classes);
                sc.set_char(ch);
            }
            1 => {
                let c = known_color(sym::pick(4));
                sc.set_fg(c);
                fg = Some(c);
            }
            2 => {
                let c = known_color(sym::pick(4));
                sc.set_bg(c);
                bg = Some(c);
            }
            3 => {
                let mut s = CompoundStyle::with_fgbg(known_color(1), known_color(2));
                let i = sym::pick(10);
                s.add_attr(ATTRS[i]);
                fg = s.get_fg();
                bg = s.get_bg();
                bits = 1 << i;
                sc.set_compound_style(s);
            }
            4 => {
                fg = None;
                bg = None;
                bits = 1 << 3;
                sc.set_compound_style(CompoundStyle::with_attr(Attribute::Underlined));
            }
            5 => {
                sc.blend_with(coolor::Rgb::new(10, 200, 30), 0.5);
                sym::check(sc.get_fg().is_some() == fg.is_some(), "blending doesn't define the foreground");
                sym::check(sc.get_bg().is_some() == bg.is_some(), "blending doesn't define the background");
                fg = sc.get_fg();
                bg = sc.get_bg();
                blended = true;
            }
            _ => {
                let c = sc.clone();
                sym::check(c == sc, "same clone");
                sc = c;
            }
        }
    }
    if blended {
        sym::reach("blended");
    }
    sym::check(sc.get_char() == ch && sc.nude_char() == ch, "char");
    sym::check(sc.get_fg() == fg && sc.get_bg() == bg, "colors");
    let style = sc.compound_style().clone();
    sym::check(style.get_fg() == fg && style.get_bg() == bg && bits_of(&style) == bits, "style");
    let sty = sty(&style);
    let mut t = Term::new();
    write!(t, "{}", sc).unwrap();
    printed(&t, 1, ch, sty, "displayed");
    let mut t = Term::new();
    sc.queue(&mut t).unwrap();
    printed(&t, 1, ch, sty, "queued");
    let n = sym::pick(4);
    let mut t = Term::new();
    sc.queue_repeat(&mut t, n).unwrap();
    printed(&t, n, ch, sty, "queued several times");
    let mut t = Term::new();
    write!(t, "{}", sc.repeated(n)).unwrap();
    printed(&t, n, ch, sty, "repeated");
    sym::check(t.sty == Sty::default(), "style reset at the end");
    let mut t = Term::new();
    style.queue(&mut t, ch).unwrap();
    printed(&t, 1, ch, sty, "queued with its style");
    sym::check(StyledChar::new(style, ch) == sc, "same as a new one");
    sym::reach("printed");
}

fn near(a: Option<Color>, b: Option<Color>) -> bool {
    let rgb = |c: Color| {
        let c: coolor::Color = c.into();
        c.rgb()
    };
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => {
            let (a, b) = (rgb(a), rgb(b));
            let d = |x: u8, y: u8| (x as i32 - y as i32).abs() <= 3;
            d(a.r, b.r) && d(a.g, b.g) && d(a.b, b.b)
        }
        _ => false,
    }
}
fn blend_color(i: usize) -> Option<Color> {
    match i {
        0 => None,
        1 => Some(Color::AnsiValue(200)),
        2 => Some(Color::Rgb { r: 12, g: 250, b: 99 }),
        3 => Some(Color::Black),
        4 => Some(Color::Rgb { r: 128, g: 128, b: 128 }),
        _ => Some(Color::DarkYellow),
    }
}
/// blending with a weight of zero or one
pub fn r03_blend() {
    let fg = blend_color(sym::pick(6));
    let bg = blend_color(sym::pick(6));
    let dest = blend_color(1 + sym::pick(5)).unwrap();
    let (a, bits) = attrs(0, 2);
    let mut s = CompoundStyle::new(fg, bg, a);
    let full = sym::pick(2) == 1;
    s.blend_with(dest, if full { 1.0 } else { 0.0 });
    sym::check(bits_of(&s) == bits, "attributes unchanged");
    if full {
        sym::check(near(s.get_fg(), fg.map(|_| dest)), "foreground moved to the destination");
        sym::check(near(s.get_bg(), bg.map(|_| dest)), "background moved to the destination");
    } else {
        sym::check(near(s.get_fg(), fg), "foreground unchanged");
        sym::check(near(s.get_bg(), bg), "background unchanged");
    }
    sym::reach("blended");
}
