use crate::{sym, term::{cw, Term}, util::*};
use termimad::*;

/// what the model writes of a string in the remaining allowance
fn model_str(chars: &[char], allowed: usize, out: &mut String) -> usize {
    let mut used = 0;
    for c in chars {
        let w = if *c == '\t' { 2 } else { cw(*c) };
        if used + w > allowed {
            break;
        }
        used += w;
        if *c == '\t' {
            out.push_str("  ");
        } else {
            out.push(*c);
        }
    }
    used
}
fn any_char(classes: u32) -> char {
    let c = sym::chr(classes);
    sym::assume(c == '\t' || plain(c));
    c
}

/// params: number of operations, number of chars per string, UTF-8 classes, lowest operation, operations count
pub fn f02_crop() {
    let nops = sym::param(0);
    let nchars = sym::param(1);
    let k = sym::param(2) as u32;
    let op0 = sym::param(3);
    let opn = sym::param(4);
    let limit = sym::pick(nops * (nchars + 1) + 2);
    let sty = some_style();
    let mut term = Term::new();
    let line: &'static Filling = Box::leak(Box::new(Filling::from_char('─')));
    let mut allowed = limit;
    let mut expected = String::new();
    {
        let mut cw_ = CropWriter::new(&mut term, limit);
        for _ in 0..nops {
            let op = op0 + sym::pick(opn);
            match op {
                0 | 1 => {
                    let mut s = String::new();
                    let mut v = Vec::new();
                    for _ in 0..nchars {
                        let c = any_char(k);
                        s.push(c);
                        v.push(c);
                    }
                    if op == 0 {
                        cw_.queue_unstyled_str(&s).unwrap();
                    } else {
                        cw_.queue_str(&sty, &s).unwrap();
                    }
                    if allowed > 0 {
                        allowed -= model_str(&v, allowed, &mut expected);
                    }
                }
                2 | 3 => {
                    let c = any_char(k);
                    // a char without width when nothing is left may be written or not, and a tab
                    // wider than what is left may be cut
                    sym::assume(allowed > 1 || (cw(c) > 0 && c != '\t'));
                    if op == 2 {
                        cw_.queue_unstyled_char(c).unwrap();
                    } else {
                        cw_.queue_char(&sty, c).unwrap();
                    }
                    allowed -= model_str(&[c], allowed, &mut expected);
                }
                4 | 5 => {
                    let mut s = String::new();
                    let mut v = Vec::new();
                    for _ in 0..nchars {
                        let c = narrow_char(k & 5);
                        s.push(c);
                        v.push(c);
                    }
                    if op == 4 {
                        cw_.queue_unstyled_g_string(s).unwrap();
                    } else {
                        cw_.queue_g_string(&sty, s).unwrap();
                    }
                    allowed -= model_str(&v, allowed, &mut expected);
                }
                6 | 7 => {
                    let n = sym::concretize(sym::urange(0, 4));
                    if op == 6 {
                        cw_.repeat(&sty, &SPACE_FILLING, n).unwrap();
                    } else {
                        cw_.repeat_unstyled(line, n).unwrap();
                    }
                    let n = n.min(allowed);
                    for _ in 0..n {
                        expected.push(if op == 6 { ' ' } else { '─' });
                    }
                    allowed -= n;
                }
                _ => {
                    match op {
                        8 => cw_.fill(&sty, line).unwrap(),
                        9 => cw_.fill_unstyled(line).unwrap(),
                        _ => cw_.fill_with_space(&sty).unwrap(),
                    }
                    for _ in 0..allowed {
                        expected.push(if op == 10 { ' ' } else { '─' });
                    }
                    allowed = 0;
                    sym::reach("filled");
                }
            }
            sym::check(cw_.allowed == allowed, "remaining allowance");
            sym::check(cw_.is_full() == (allowed == 0), "is_full");
        }
    }
    let text = term.text();
    sym::check(term.controls == 0, "no raw control char");
    sym::check(term.width() + allowed == limit, "printed width");
    sym::check(text == expected, "printed text");
    sym::observe(allowed);
    sym::observe_str(&text);
}

/// tabs wider than what is left, and chars without width on a full writer: never too many columns
pub fn f02_edge() {
    let limit = sym::pick(3);
    let sty = some_style();
    let mut term = Term::new();
    let mut left = 0;
    {
        let mut w = CropWriter::new(&mut term, limit);
        for _ in 0..2 {
            let c = any_char(7);
            match sym::pick(4) {
                0 => w.queue_char(&sty, c).unwrap(),
                1 => w.queue_unstyled_char(c).unwrap(),
                2 => w.queue_str(&sty, c.encode_utf8(&mut [0; 4])).unwrap(),
                _ => w.queue_unstyled_str(c.encode_utf8(&mut [0; 4])).unwrap(),
            }
            left = w.allowed;
        }
    }
    sym::check(term.controls == 0, "no raw control char");
    sym::check(term.width() + left == limit, "printed width");
    sym::observe(left);
}
