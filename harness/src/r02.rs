//! templates
use crate::{sym, term::{Sty, Term}, util::*};
use termimad::crossterm::style::{Attribute, Color};
use termimad::*;

const N: Sty = Sty { fg: 0, bg: 0, attrs: 0 };
const B: Sty = Sty { fg: 0x1000005, bg: 0, attrs: 2 };
const I: Sty = Sty { fg: 0, bg: 0x1000006, attrs: 8 };
const C: Sty = Sty { fg: 0x1000007, bg: 0x1000008, attrs: 0 };

fn skin() -> MadSkin {
    let mut skin = MadSkin::no_style();
    skin.bold = CompoundStyle::new(Some(Color::AnsiValue(5)), None, Attribute::Bold.into());
    skin.italic = CompoundStyle::new(None, Some(Color::AnsiValue(6)), Attribute::Italic.into());
    skin.inline_code = CompoundStyle::new(Some(Color::AnsiValue(7)), Some(Color::AnsiValue(8)), Default::default());
    skin
}
fn add(v: &mut Vec<(char, Sty)>, s: &str, sty: Sty) {
    for c in s.chars() {
        v.push((c, sty));
    }
}
/// params: classes, chars of the args (+1), templates, first template
pub fn r02_args() {
    let classes = sym::param(0) as u32;
    let a = plain_string(sym::param(1), classes).0;
    let b = plain_string(sym::param(2), classes).0;
    let skin = skin();
    let mut t = Term::new();
    let mut e = Vec::new();
    match sym::param(4) + sym::pick(sym::param(3)) {
        0 => {
            mad_write_inline!(&mut t, &skin, "a$0b", a).unwrap();
            add(&mut e, "a", N);
            add(&mut e, &a, N);
            add(&mut e, "b", N);
        }
        1 => {
            mad_write_inline!(&mut t, &skin, "**$0 formula:** *$1*", a, &b).unwrap();
            add(&mut e, &a, B);
            add(&mut e, " formula:", B);
            add(&mut e, " ", N);
            add(&mut e, &b, I);
        }
        2 => {
            // unordered, repeated
            mad_write_inline!(&mut t, &skin, "$1 `$0`$1", a, b).unwrap();
            add(&mut e, &b, N);
            add(&mut e, " ", N);
            add(&mut e, &a, C);
            add(&mut e, &b, N);
        }
        3 => {
            // a repeated one, an unused argument
            mad_write_inline!(&mut t, &skin, "$0*$0*", a, b).unwrap();
            add(&mut e, &a, N);
            add(&mut e, &a, I);
        }
        4 => {
            // many
            mad_write_inline!(&mut t, &skin, "$9$8**$0**$4", a, "b", "c", "d", b, "f", "g", "h", "i", "j").unwrap();
            add(&mut e, "ji", N);
            add(&mut e, &a, B);
            add(&mut e, &b, N);
        }
        5 => {
            // a missing argument
            mad_write_inline!(&mut t, &skin, "*$1*$0", a).unwrap();
            add(&mut e, "$1", I);
            add(&mut e, &a, N);
        }
        6 => {
            mad_write_inline!(&mut t, &skin, "no `arg`").unwrap();
            add(&mut e, "no ", N);
            add(&mut e, "arg", C);
        }
        7 => {
            // first argument unused, trailing comma, not only strings
            mad_write_inline!(&mut t, &skin, "> *$2* $1", a, 12, b,).unwrap();
            add(&mut e, "> ", N);
            add(&mut e, &b, I);
            add(&mut e, " 12", N);
        }
        _ => {
            // the template is built once and used again
            let mut u = Term::new();
            for i in 0..2 {
                let t = if i == 0 { &mut u } else { &mut t };
                let x = if i == 0 { &b } else { &a };
                mad_write_inline!(t, &skin, "**$0**$1", x, "z").unwrap();
            }
            add(&mut e, &b, B);
            add(&mut e, "z", N);
            compare(&u, &e);
            e.clear();
            add(&mut e, &a, B);
            add(&mut e, "z", N);
        }
    }
    compare(&t, &e);
    sym::reach("rendered");
}
fn compare(t: &Term, e: &[(char, Sty)]) {
    sym::check(t.unknown == 0 && t.moves == 0 && t.erases == 0 && t.newlines == 0, "only styled chars");
    sym::check(t.cells.len() == e.len(), "as many chars as expected");
    if t.cells.len() == e.len() {
        for i in 0..e.len() {
            sym::check(t.cells[i].c == e[i].0, "char");
            sym::check(t.cells[i].sty == e[i].1, "style of the template");
        }
    }
}
