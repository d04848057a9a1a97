use crate::{sym, term::cw, util::*};
use minimad::{Alignment, Compound};
use termimad::*;

/// params: UTF-8 classes, then for each compound its number of chars plus one
pub fn f04_fit() {
    let k = sym::param(0) as u32;
    let mut sizes = Vec::new();
    for i in 1..4 {
        if sym::param(i) > 0 {
            sizes.push(sym::param(i) - 1);
        }
    }
    let total: usize = sizes.iter().sum();
    let (s, chars) = plain_string(total, k);
    let mut widths = Vec::new();
    let mut natural = 0;
    for c in &chars {
        sym::assume(*c != '…');
        let w = cw(*c);
        widths.push(w);
        natural += w;
    }
    let skin = MadSkin::default();
    let mut fc = FmtComposite::new();
    let mut starts = Vec::new(); // byte start of each char
    let mut b = 0;
    for c in &chars {
        starts.push(b);
        b += c.len_utf8();
    }
    starts.push(b);
    let mut i = 0;
    let mut bits = Vec::new(); // style of each char
    let mut owner = Vec::new();
    for (j, n) in sizes.iter().enumerate() {
        let c = restyle(Compound::raw_str(&s[starts[i]..starts[i + n]]), j);
        for _ in 0..*n {
            bits.push(style_bits(&c));
            owner.push(j);
        }
        fc.compounds.push(c);
        i += n;
    }
    fc.recompute_width(&skin);
    sym::check(fc.visible_length == natural, "visible length of the source");
    let max = sym::concretize(sym::urange(0, total + 2));
    let a = pick_align();
    Fitter::for_align(a).fit(&mut fc, max, &skin);

    // where each remaining part comes from (parts are slices of the source)
    let base = s.as_ptr() as usize;
    let mut width = 0;
    let mut next = 0; // next source char
    let mut pending = false; // ellipsis just before
    let mut ellipsis = 0;
    let mut kept = 0;
    let mut first_ellipsis_at = usize::MAX;
    let mut ok_parts = true;
    for c in &fc.compounds {
        let p = c.src.as_ptr() as usize;
        if p < base || p > base + s.len() {
            sym::check(c.src == "…", "only ellipsis are added");
            sym::check(style_bits(c) == 0, "style of the ellipsis");
            width += 1;
            ellipsis += 1;
            if first_ellipsis_at == usize::MAX {
                first_ellipsis_at = kept;
            }
            pending = true;
            continue;
        }
        if c.src.is_empty() {
            continue;
        }
        let off = p - base;
        let end = off + c.src.len();
        let mut i0 = usize::MAX;
        let mut i1 = usize::MAX;
        for (j, st) in starts.iter().enumerate() {
            if *st == off {
                i0 = j;
            }
            if *st == end {
                i1 = j;
            }
        }
        if i0 == usize::MAX || i1 == usize::MAX || i0 < next {
            ok_parts = false;
            break;
        }
        if i0 > next {
            sym::check(pending, "removed parts are replaced by an ellipsis");
        } else {
            sym::check(!pending, "an ellipsis replaces something");
        }
        pending = false;
        for j in i0..i1 {
            width += widths[j];
            sym::check(bits[j] == style_bits(c), "styles are kept");
            kept += 1;
        }
        next = i1;
    }
    sym::check(ok_parts, "parts of the source, in order");
    if max > 0 {
        sym::check(pending == (next < total), "a removed end is replaced by an ellipsis");
    }
    sym::check(width == fc.visible_length, "reported length");
    sym::check(width <= max, "fits");
    if natural <= max {
        sym::check(kept == total && ellipsis == 0, "untouched when it fits");
        sym::check(fc.compounds.len() == sizes.len(), "compounds untouched");
    } else {
        sym::reach("shortened");
        if max > 0 {
            sym::check(!fc.compounds.is_empty() && width > 0, "not shortened to nothing");
            sym::check(ellipsis > 0, "an ellipsis shows the text is cut");
        }
        match a {
            Alignment::Left => sym::check(ellipsis <= 1 && (kept == 0 || first_ellipsis_at == kept), "left aligned keeps its start"),
            Alignment::Right => sym::check(ellipsis <= 1 && (kept == 0 || (first_ellipsis_at == 0 && next == total)), "right aligned keeps its end"),
            _ => {}
        }
    }
    sym::observe(width);
    sym::observe(kept);
    sym::observe(ellipsis);
}
