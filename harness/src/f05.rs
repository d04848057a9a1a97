//! wrapping: F05 (width) and F06 (content)
use crate::{sym, term::{cw, Term}, util::*};
use minimad::{Alignment, Compound};
use std::io::Write;
use termimad::*;

pub const WIDTH: u32 = 1;
pub const CONTENT: u32 = 2;

pub fn wrap_skin(i: usize) -> MadSkin {
    let mut skin = MadSkin::no_style();
    match i {
        0 => {}
        1 => skin.list_items_indentation_mode = ListItemsIndentationMode::FirstLineOnly,
        _ => {
            skin.paragraph.left_margin = 1;
            skin.paragraph.right_margin = 1;
            skin.paragraph.align = Alignment::Right;
            skin.code_block.left_margin = 2;
            skin.headers[0].align = Alignment::Center;
            skin.headers[0].right_margin = 2;
        }
    }
    skin
}
fn marker(skin: &MadSkin, kind: CompositeKind) -> usize {
    match kind {
        CompositeKind::ListItem(d) => 2 + d as usize,
        CompositeKind::ListItemFollowUp(d) if skin.list_items_indentation_mode == ListItemsIndentationMode::Block => 2 + d as usize,
        CompositeKind::Quote => 2,
        _ => 0,
    }
}
pub fn str_cols(s: &str) -> usize {
    let mut n = 0;
    for c in s.chars() {
        n += cw(c);
    }
    n
}
fn margins(skin: &MadSkin, kind: CompositeKind, width: usize) -> usize {
    let ls = match kind {
        CompositeKind::Code => &skin.code_block,
        CompositeKind::Header(l) if l as usize <= skin.headers.len() => &skin.headers[l as usize - 1],
        _ => &skin.paragraph,
    };
    let m = ls.left_margin + ls.right_margin;
    if width < m + 3 {
        0
    } else {
        m
    }
}

/// the wrapped lines are not wider than asked
pub fn check_width(skin: &MadSkin, lines: &[FmtLine<'_>], width: usize) {
    for line in lines {
        if let FmtLine::Normal(fc) = line {
            let m = marker(skin, fc.kind);
            let mut content = 0;
            let mut chars = 0;
            for c in &fc.compounds {
                for ch in c.src.chars() {
                    let w = cw(ch);
                    content += w;
                    if w > 0 {
                        chars += 1;
                    }
                }
            }
            sym::check(fc.visible_length == m + content, "reported length");
            sym::check(line.visible_length() == m + content, "reported line length");
            let avail = width - margins(skin, fc.kind, width);
            // the marker and a single char don't fit
            let exempt = m > 0 && chars <= 1;
            sym::check(m + content <= avail || exempt, "line width");
            if exempt && m + content > avail {
                sym::reach("marker wider than the line");
                continue;
            }
        }
        let mut term = Term::new();
        write!(term, "{}", DisplayableLine::new(skin, line, Some(width))).unwrap();
        sym::check(term.width() <= width, "rendered width");
        sym::check(term.controls == 0 && term.newlines == 0, "rendered on one line");
    }
}

struct Seen {
    bits: u32,
    line: usize,
}
/// for each byte of the source, where it is
fn locate(base: usize, len: usize, lines: &[FmtLine<'_>], what: &'static str) -> Vec<Option<Seen>> {
    let mut v: Vec<Option<Seen>> = Vec::new();
    for _ in 0..len {
        v.push(None);
    }
    let mut next = 0;
    for (l, line) in lines.iter().enumerate() {
        if let FmtLine::Normal(fc) = line {
            for c in &fc.compounds {
                if c.src.is_empty() {
                    continue;
                }
                let p = c.src.as_ptr() as usize;
                let ok = p >= base && p + c.src.len() <= base + len && p - base >= next;
                sym::check(ok, what);
                for i in 0..c.src.len() {
                    v[p - base + i] = Some(Seen { bits: style_bits(c), line: l });
                }
                next = p - base + c.src.len();
            }
        }
    }
    v
}
fn follow_up(k: CompositeKind) -> CompositeKind {
    match k {
        CompositeKind::ListItem(d) => CompositeKind::ListItemFollowUp(d),
        k => k,
    }
}
/// no content is lost or changed: `src` and `dst` are the lines before and after
pub fn check_content(skin: &MadSkin, s: &str, src: &[FmtLine<'_>], dst: &[FmtLine<'_>], width: usize) {
    let base = s.as_ptr() as usize;
    let a = locate(base, s.len(), src, "source parts in order");
    let b = locate(base, s.len(), dst, "each part once, in order");
    // source line of each resulting line
    let mut origin: Vec<Option<usize>> = Vec::new();
    for _ in dst {
        origin.push(None);
    }
    for (i, c) in s.char_indices() {
        match (&a[i], &b[i]) {
            (None, None) => {}
            (None, Some(_)) => sym::check(false, "nothing added"),
            (Some(x), Some(y)) => {
                sym::check(x.bits == y.bits, "style kept");
                sym::check(origin[y.line].is_none() || origin[y.line] == Some(x.line), "lines not merged");
                origin[y.line] = Some(x.line);
            }
            (Some(x), None) => {
                sym::check(c.is_whitespace(), "only whitespace is dropped");
                // at a line break: the kept chars before and after aren't in the same line
                let mut before = None;
                for j in (0..i).rev() {
                    if let Some(y) = &b[j] {
                        before = Some(y.line);
                        break;
                    }
                }
                let mut after = None;
                for j in i..s.len() {
                    if let (Some(xx), Some(y)) = (&a[j], &b[j]) {
                        if xx.line == x.line {
                            after = Some(y.line);
                        }
                        break;
                    }
                }
                sym::check(before.is_none() || after.is_none() || before != after, "whitespace dropped at line breaks only");
                sym::reach("dropped whitespace");
            }
        }
    }
    // kinds
    let mut last: Option<usize> = None;
    for (l, line) in dst.iter().enumerate() {
        match line {
            FmtLine::Normal(fc) => {
                if let Some(o) = origin[l] {
                    if let FmtLine::Normal(sfc) = &src[o] {
                        if last == Some(o) {
                            sym::check(fc.kind == follow_up(sfc.kind), "continuation kind");
                            sym::reach("continuation");
                        } else {
                            // an empty first line keeps the kind
                            let first_is_before = l > 0 && origin[l - 1].is_none() && last != Some(o);
                            sym::check(fc.kind == sfc.kind || (first_is_before && fc.kind == follow_up(sfc.kind)), "kind of the first line");
                        }
                    } else {
                        sym::check(false, "normal line");
                    }
                    last = Some(o);
                }
            }
            _ => {}
        }
    }
    // lines which fit
    for (l, line) in src.iter().enumerate() {
        if let FmtLine::Normal(sfc) = line {
            let m = margins(skin, sfc.kind, width);
            let mut cols = marker(skin, sfc.kind);
            for c in &sfc.compounds {
                cols += str_cols(c.src);
            }
            if cols + m <= width && !sfc.compounds.is_empty() {
                let mut n = 0;
                for (k, o) in origin.iter().enumerate() {
                    if *o == Some(l) {
                        n += 1;
                        if let FmtLine::Normal(fc) = &dst[k] {
                            let mut same = fc.compounds.len() == sfc.compounds.len();
                            if same {
                                for (x, y) in fc.compounds.iter().zip(&sfc.compounds) {
                                    same = same && x.src.as_ptr() == y.src.as_ptr() && x.src.len() == y.src.len();
                                }
                            }
                            sym::check(same && fc.kind == sfc.kind, "a line which fits is unchanged");
                        }
                    }
                }
                sym::check(n == 1, "a line which fits isn't cut");
            }
        }
    }
}

fn kind(i: usize) -> CompositeKind {
    match i {
        0 => CompositeKind::Paragraph,
        1 => CompositeKind::ListItem(0),
        2 => CompositeKind::Quote,
        3 => CompositeKind::ListItem(2),
        4 => CompositeKind::Code,
        5 => CompositeKind::Header(1),
        6 => CompositeKind::ListItemFollowUp(1),
        _ => CompositeKind::Header(3),
    }
}

/// params: UTF-8 classes, number of kinds, sizes of the compounds
fn compounds(mode: u32) {
    let k = sym::param(0) as u32;
    let nk = sym::param(1);
    let mut sizes = Vec::new();
    for i in 2..6 {
        if sym::param(i) > 0 {
            sizes.push(sym::param(i));
        }
    }
    let total: usize = sizes.iter().sum();
    let skin = wrap_skin(sym::pick(3));
    let kind = kind(sym::pick(nk));
    let (s, chars) = plain_string(total, k);
    let make = || {
        let mut fc = FmtComposite::new();
        fc.kind = kind;
        let mut b = 0;
        let mut i = 0;
        for (j, n) in sizes.iter().enumerate() {
            let b0 = b;
            for _ in 0..*n {
                b += chars[i].len_utf8();
                i += 1;
            }
            fc.compounds.push(restyle(Compound::raw_str(&s[b0..b]), j));
        }
        fc.recompute_width(&skin);
        vec![FmtLine::Normal(fc)]
    };
    let width = 3 + sym::pick(total + 3);
    let dst = termimad::wrap::hard_wrap_lines(make(), width, &skin).unwrap();
    if mode & WIDTH != 0 {
        check_width(&skin, &dst, width);
    }
    if mode & CONTENT != 0 {
        check_content(&skin, &s, &make(), &dst, width);
    }
    sym::observe(width);
    sym::observe(dst.len());
}
pub fn f05_compounds() {
    compounds(WIDTH)
}
pub fn f06_compounds() {
    compounds(CONTENT)
}

const PREFIXES: [&str; 9] = ["", "* ", "> ", "# ", "    ", "  * ", "   * ", "```\n", "## *"];

/// a real text: params: UTF-8 classes, number of chars, first prefix, number of prefixes, suffix
fn text(mode: u32) {
    let k = sym::param(0) as u32;
    let n = sym::param(1);
    let skin = wrap_skin(sym::pick(3));
    let prefix = PREFIXES[sym::param(2) + sym::pick(sym::param(3))];
    let mut s = String::new();
    s.push_str(prefix);
    for _ in 0..n {
        s.push(plain_char(k));
    }
    match sym::param(4) {
        1 => s.push_str(" b* c"),
        2 => s.push_str("\nz** y\n```\nabcdef\ng"),
        _ => {}
    }
    let max = n + 6;
    let width = 3 + sym::pick(max - 2);
    let dst = skin.text(&s, Some(width));
    if mode & WIDTH != 0 {
        check_width(&skin, &dst.lines, width);
        sym::check(dst.width == Some(width), "rendering width");
    }
    if mode & CONTENT != 0 {
        let src = skin.text(&s, None);
        check_content(&skin, &s, &src.lines, &dst.lines, width);
    }
    sym::observe(width);
    sym::observe(dst.lines.len());
}
pub fn f05_text() {
    text(WIDTH)
}
pub fn f06_text() {
    text(CONTENT)
}

/// any width, even too small ones: no crash
pub fn f05_small() {
    let n = sym::param(1);
    let k = sym::param(0) as u32;
    let skin = wrap_skin(sym::pick(3));
    let mut s = String::new();
    s.push_str(PREFIXES[sym::pick(PREFIXES.len())]);
    for _ in 0..n {
        s.push(sym::chr(k));
    }
    let width = sym::pick(8);
    let t = skin.text(&s, Some(width));
    sym::observe(t.lines.len());
    let t = FmtText::raw_str(&skin, &s, Some(width));
    sym::observe(t.lines.len());
    sym::check(true, "no crash");
}

/// a raw text of one line; params: UTF-8 classes, chars
fn raw(mode: u32) {
    let k = sym::param(0) as u32;
    let n = sym::param(1);
    let skin = wrap_skin(2 * sym::pick(2));
    let (s, _) = plain_string(n, k);
    let width = 3 + sym::pick(n);
    let dst = FmtText::raw_str(&skin, &s, Some(width));
    if mode & WIDTH != 0 {
        check_width(&skin, &dst.lines, width);
    }
    if mode & CONTENT != 0 {
        let src = FmtText::raw_str(&skin, &s, None);
        check_content(&skin, &s, &src.lines, &dst.lines, width);
    }
    sym::observe(width);
    sym::observe(dst.lines.len());
}
pub fn f05_raw() {
    raw(WIDTH)
}
pub fn f06_raw() {
    raw(CONTENT)
}
