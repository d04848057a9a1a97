use crate::{sym, term::cw};
use termimad::*;

/// params: number of chars, UTF-8 length classes
pub fn f01_strfit() {
    let n = sym::param(0);
    let k = sym::param(1) as u32;
    let mut s = String::new();
    let mut chars = Vec::new();
    for _ in 0..n {
        let c = sym::chr(k);
        chars.push(c);
        s.push(c);
    }
    let max = sym::urange(0, 2 * n + 1);
    // the model
    let mut cols = 0isize;
    let mut bytes = 0;
    let mut out = String::new();
    for c in &chars {
        let w = match *c {
            '\t' => 2,
            '\u{8}' => -1,
            c => cw(c) as isize,
        };
        if cols + w > max as isize {
            sym::reach("cut");
            break;
        }
        cols += w;
        bytes += c.len_utf8();
        if *c == '\t' {
            out.push_str("  ");
        } else {
            out.push(*c);
        }
    }
    let cols = cols.max(0) as usize;
    let (cow, cow_cols) = StrFit::make_cow(&s, max);
    let (string, string_cols) = StrFit::make_string(&s, max);
    let (b, c) = StrFit::count_fitting(&s, max);
    sym::check(cow_cols <= max, "columns within the limit");
    sym::check(cow_cols == cols && string_cols == cols && c == cols, "column count");
    sym::check(b == bytes, "byte count");
    sym::check(*cow == *out, "borrowed text");
    sym::check(string == out, "owned text");
    sym::observe(c);
    sym::observe_str(&string);
}
