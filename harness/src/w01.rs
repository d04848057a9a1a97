//! progress bars and rectangles
use crate::{sym, term::{Sty, Term}, util::*};
use termimad::crossterm::style::Color;
use termimad::*;

const BLOCKS: [char; 8] = ['▏', '▎', '▍', '▌', '▋', '▊', '▉', '█'];

/// the number of eighths of a bar
fn eighths(bar: &str, len: usize) -> usize {
    let mut n = 0;
    let mut chars = 0;
    let mut ended = false;
    for c in bar.chars() {
        chars += 1;
        let mut v = 0;
        for i in 0..8 {
            if BLOCKS[i] == c {
                v = i + 1;
            }
        }
        sym::check(v > 0, "only blocks");
        sym::check(!ended, "one partial block, at the end");
        if v < 8 {
            ended = true;
        }
        n += v;
    }
    sym::check(chars <= len, "not longer than its length");
    n
}
/// a part: mantissa (24 bits) and negative exponent: part = m / 2^(23 + e)
struct Part {
    part: f32,
    m: u64,
    e: u32,
}
/// any part between 0 and 1. One path per exponent down to 2^-n, and one for smaller parts
fn some_part(n: usize) -> Part {
    let i = sym::pick(n + 3);
    if i == 0 {
        return Part { part: 0.0, m: 0, e: 0 };
    }
    if i == 1 {
        return Part { part: 1.0, m: 1 << 23, e: 0 };
    }
    if i == 2 {
        let part = f32::from_bits(sym::u32());
        sym::assume(part > 0.0 && part < 1.0 / (1u64 << n) as f32);
        return Part { part, m: 1, e: 0 };
    }
    let e = (i - 2) as u32;
    let m = sym::range(0, (1 << 23) - 1);
    Part { part: f32::from_bits(((127 - e) << 23) | m as u32), m: m | (1 << 23), e }
}
fn eighths_of(p: &Part, len: usize) -> usize {
    eighths(&ProgressBar::new(p.part, len).to_string(), len)
}
/// params: first length, lengths, exponents
pub fn w01_bar() {
    let len = sym::param(0) + sym::pick(sym::param(1));
    let p = some_part(sym::param(2));
    let e = eighths_of(&p, len) as u64;
    if p.m == 1 {
        // under 2^-n
        sym::check(e <= ((len as u64 * 8) >> sym::param(2)) + 1, "not too long for a small part");
        sym::reach("small");
        return;
    }
    // within an eighth of a char
    let exact = p.m * (len as u64 * 8);
    sym::check((e + 1) << (23 + p.e) >= exact, "not too short");
    sym::check(e == 0 || (e - 1) << (23 + p.e) <= exact, "not too long");
    if p.m == 0 {
        sym::check(e == 0, "empty");
    }
    if p.part == 1.0 {
        sym::check(e == len as u64 * 8, "full");
        sym::reach("full");
    }
    sym::reach("bar");
}
/// params: first length, lengths, exponents
pub fn w01_growing() {
    let len = sym::param(0) + sym::pick(sym::param(1));
    let p = some_part(sym::param(2));
    let q = some_part(sym::param(2));
    sym::assume(p.part.to_bits() <= q.part.to_bits());
    let a = eighths_of(&p, len);
    let b = eighths_of(&q, len);
    sym::check(a <= b, "never shrinks");
    sym::reach("compared");
}
/// with symbolic placement
/// params: max width, max height
pub fn w02_rect() {
    let w = 2 + sym::pick(sym::param(0) - 1);
    let h = 2 + sym::pick(sym::param(1) - 1);
    let far = sym::pick(2) == 1;
    let (left, top) = if far { (65535 - w, 65535 - h) } else { (sym::urange(0, 300), sym::urange(0, 99)) };
    let style = match sym::pick(3) {
        0 => CompoundStyle::default(),
        1 => some_style(),
        _ => CompoundStyle::with_bg(Color::AnsiValue(9)),
    };
    let sty = match (style.get_fg(), style.get_bg()) {
        (None, None) => Sty::default(),
        (None, _) => Sty { fg: 0, bg: 0x1000009, attrs: 0 },
        _ => Sty { fg: 0x1000011, bg: 0x1000003, attrs: 2 },
    };
    let mut rect = Rect::new(Area::new(left as u16, top as u16, w as u16, h as u16), style);
    let fill = sym::flag();
    rect.set_fill(fill);
    let border = sym::pick(4);
    let b: [char; 8] = match border {
        0 => {
            rect.set_border_style(BORDER_STYLE_MIDDLE_SQUARE_LINE);
            ['┌', '─', '┐', '│', '┘', '─', '└', '│']
        }
        1 => {
            rect.set_border_style(BORDER_STYLE_HALF_WIDTH_OUTSIDE);
            ['▛', '▀', '▜', '▐', '▟', '▄', '▙', '▌']
        }
        2 => {
            rect.set_border_style(BORDER_STYLE_MIDDLE_ROUND_LINE);
            ['╭', '─', '╮', '│', '╯', '─', '╰', '│']
        }
        _ => [' '; 8],
    };
    let mut t = Term::new();
    rect.draw(&mut t).unwrap();
    sym::check(t.unknown == 0 && t.controls == 0 && t.erases == 0 && t.newlines == 0, "only chars and moves");
    let mut seen = vec![0u8; w * h];
    for c in &t.cells {
        let inside = c.x >= left && c.x < left + w && c.y >= top && c.y < top + h;
        sym::check(inside, "inside the area");
        let (x, y) = (sym::concretize(c.x - left), sym::concretize(c.y - top));
        if x >= w || y >= h {
            return;
        }
        seen[y * w + x] += 1;
        let expected = match (x, y) {
            (0, 0) => b[0],
            (x, 0) if x == w - 1 => b[2],
            (_, 0) => b[1],
            (0, y) if y == h - 1 => b[6],
            (x, y) if y == h - 1 && x == w - 1 => b[4],
            (_, y) if y == h - 1 => b[5],
            (0, _) => b[7],
            (x, _) if x == w - 1 => b[3],
            _ => {
                sym::check(fill, "nothing inside when not filled");
                ' '
            }
        };
        sym::check(c.c == expected, "right character");
        sym::check(c.sty == sty, "colors of the rectangle");
    }
    for y in 0..h {
        for x in 0..w {
            let inner = x > 0 && y > 0 && x < w - 1 && y < h - 1;
            if inner {
                sym::check(seen[y * w + x] == fill as u8, "filled once");
            } else {
                sym::check(seen[y * w + x] == 1, "border drawn once");
            }
        }
    }
    if fill {
        sym::reach("filled");
    } else {
        sym::reach("not filled");
    }
}
