use crate::{sym, term::{cw, Term}, util::*};
use minimad::{Alignment, Composite, Compound};
use std::io::Write;
use termimad::*;

/// all widths of 64 bits
pub fn f03_completions() {
    let a = pick_align();
    let inner = sym::u64() as usize;
    let outer = sym::u64() as usize;
    let (l, r) = Spacing::completions(a, inner, outer);
    if inner >= outer {
        sym::check(l == 0 && r == 0, "no completion when wide enough");
    } else {
        let missing = outer - inner;
        sym::check(l <= missing && r <= missing && l + r == missing, "exactly the missing columns");
        match a {
            Alignment::Left | Alignment::Unspecified => sym::check(l == 0, "left aligned"),
            Alignment::Right => sym::check(r == 0, "right aligned"),
            Alignment::Center => sym::check(l <= r + 1 && r <= l + 1, "centered"),
        }
    }
    let sp = Spacing { width: outer, align: a };
    sym::check(sp.completions_for(inner) == (l, r), "completions_for");
    sym::check(Spacing::optional_completions(a, inner, Some(outer)) == (l, r), "optional some");
    sym::check(Spacing::optional_completions(a, inner, None) == (0, 0), "optional none");
    sym::observe(l);
}

/// a one-column-per-char string; params: number of chars, UTF-8 classes
pub fn f03_write_str() {
    let n = sym::param(0);
    let k = sym::param(1) as u32;
    let mut s = String::new();
    let mut v = Vec::new();
    for _ in 0..n {
        let c = narrow_char(k);
        sym::assume(c != ' ');
        s.push(c);
        v.push(c);
    }
    let width = sym::concretize(sym::urange(0, n + 4));
    let a = pick_align();
    let sp = Spacing { width, align: a };
    let mut term = Term::new();
    let sty = some_style();
    if sym::pick(2) == 0 {
        sp.write_str(&mut term, &s, &sty).unwrap();
    } else {
        sp.write_counted_str(&mut term, &s, n, &sty).unwrap();
    }
    sym::check(term.width() == width, "exact width");
    // the text: the whole string (or its start) at the place given by the alignment
    let kept = n.min(width);
    let pad = width - kept;
    let (lo, hi) = match a {
        Alignment::Left | Alignment::Unspecified => (0, 0),
        Alignment::Right => (pad, pad),
        Alignment::Center => (pad / 2, pad - pad / 2),
    };
    let at = |start: usize| {
        let mut ok = true;
        for (i, c) in term.chars.iter().enumerate() {
            let e = if i >= start && i < start + kept { v[i - start] } else { ' ' };
            ok = ok && *c == e;
        }
        ok
    };
    sym::check(at(lo) || at(hi), "text and padding");
    sym::observe(width);
    sym::observe_str(&term.text());
}

/// write_composite_fill: params: chars of the first and second compounds, UTF-8 classes
pub fn f03_fill() {
    let n1 = sym::param(0);
    let n2 = sym::param(1);
    let k = sym::param(2) as u32;
    let (s1, v1) = plain_string(n1, k);
    let (s2, v2) = plain_string(n2, k);
    let mut natural = 0;
    for c in v1.iter().chain(v2.iter()) {
        natural += cw(*c);
        // an ellipsis of the source isn't an ellipsis of the fitter
        sym::assume(*c != '…');
    }
    let width = sym::concretize(sym::urange(0, n1 + n2 + 3));
    let a = pick_align();
    let mut compounds = Vec::new();
    if n1 > 0 {
        compounds.push(Compound::raw_str(&s1));
    }
    if n2 > 0 {
        compounds.push(Compound::raw_str(&s2).bold());
    }
    let mut composite = Composite::new();
    composite.compounds = compounds;
    let skin = if sym::pick(2) == 0 { MadSkin::default() } else { MadSkin::no_style() };
    let mut term = Term::new();
    skin.write_composite_fill(&mut term, composite, width, a).unwrap();
    sym::check(term.width() == width, "exact width");
    if natural <= width {
        // the text itself, with the padding on the right side
        let pad = width - natural;
        let n = n1 + n2;
        let (lo, hi) = match a {
            Alignment::Left | Alignment::Unspecified => (0, 0),
            Alignment::Right => (pad, pad),
            Alignment::Center => (pad / 2, pad - pad / 2),
        };
        let at = |start: usize| {
            if term.chars.len() != n + pad {
                return false;
            }
            let mut ok = true;
            for (i, c) in term.chars.iter().enumerate() {
                let e = if i < start || i >= start + n {
                    ' '
                } else if i - start < n1 {
                    v1[i - start]
                } else {
                    v2[i - start - n1]
                };
                ok = ok && *c == e;
            }
            ok
        };
        sym::check(at(lo) || at(hi), "text and padding");
    } else {
        sym::reach("shortened");
    }
    sym::observe_str(&term.text());
}

/// counts the bytes and compares them with those of the char
struct Count {
    bytes: [u8; 4],
    size: usize,
    len: usize,
    same: bool,
}
impl Write for Count {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        for b in buf {
            self.same = self.same & (*b == self.bytes[self.len % self.size]);
            self.len += 1;
        }
        Ok(buf.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// a filling around the multiples of what one write may do
pub fn f03_filling() {
    let c = sym::chr(15);
    let f = Filling::from_char(c);
    let n = [0, 500, 998, 1500, 1998, 2998][sym::pick(6)] + sym::pick(4);
    let mut bytes = [0; 4];
    c.encode_utf8(&mut bytes);
    let mut w = Count { bytes, size: c.len_utf8(), len: 0, same: true };
    f.queue_unstyled(&mut w, n).unwrap();
    sym::check(w.len == n * c.len_utf8(), "filling length");
    sym::check(w.same, "filling content");
    sym::observe(n);
}

/// a styled filling, on a terminal
pub fn f03_filling_styled() {
    let c = narrow_char(7);
    let f = Filling::from_char(c);
    let lens = [0, 1, 2, 7, 999, 1000, 1001, 2000, 2001];
    let n = lens[sym::pick(lens.len())];
    let mut t = Term::new();
    f.queue_styled(&mut t, &some_style(), n).unwrap();
    sym::check(t.cells.len() == n, "filling length");
    let mut ok = true;
    for cell in &t.cells {
        ok = ok && cell.c == c && cell.sty.attrs == 2;
    }
    sym::check(ok, "filling content");
    sym::observe(n);
}
/// any chars: the whole string or its start, completed
/// params: chars, classes, max width
pub fn f03_write_wide() {
    let (s, v) = plain_string(sym::param(0), sym::param(1) as u32);
    for c in &v {
        sym::assume(*c != ' ');
    }
    let width = sym::pick(sym::param(2) + 1);
    let a = pick_align();
    let mut term = Term::new();
    Spacing { width, align: a }.write_str(&mut term, &s, &some_style()).unwrap();
    sym::check(term.width() == width, "exact width");
    let mut i = 0;
    let (mut l, mut r) = (0, 0);
    for c in &term.chars {
        if *c == ' ' {
            if i == 0 {
                l += 1;
            }
            r += 1;
        } else {
            sym::check(i < v.len() && v[i] == *c, "start of the text");
            i += 1;
            r = 0;
        }
    }
    let mut total = 0;
    for c in &v {
        total += crate::term::cw(*c);
    }
    if total <= width {
        sym::check(i == v.len(), "whole text");
        if i > 0 {
            match a {
                Alignment::Left | Alignment::Unspecified => sym::check(l == 0, "at left"),
                Alignment::Right => sym::check(r == 0, "at right"),
                Alignment::Center => sym::check(l + 1 >= r && r + 1 >= l, "centered"),
            }
        }
        sym::reach("whole");
    } else {
        sym::check(l == 0 || i == 0, "cropped at left");
        sym::check(i < v.len(), "cropped");
        if i < v.len() {
            sym::check(crate::term::cw(v[i]) > r, "not cropped more than needed");
        }
        sym::reach("cropped");
    }
}
