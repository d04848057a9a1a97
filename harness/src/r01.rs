//! rendering of snippets and lines: characters and composition of styles
use crate::{sym, term::{Sty, Term}, util::*};
use minimad::{Alignment, Compound};
use std::io::Write;
use termimad::crossterm::style::{Attribute, Attributes, Color};
use termimad::*;

const ATTRS: [Attribute; 5] = [Attribute::Underlined, Attribute::Italic, Attribute::CrossedOut, Attribute::Bold, Attribute::Reverse];
const SGR: [u32; 5] = [4, 3, 9, 1, 7];

/// a color which may be absent, or be any one of two kinds
fn any_color(k: usize) -> Option<Color> {
    match k {
        0 => None,
        1 => Some(Color::AnsiValue(sym::u8())),
        _ => Some(Color::Rgb { r: sym::u8(), g: sym::u8(), b: sym::u8() }),
    }
}
/// params: color kinds
pub fn r01_style() {
    let kinds = sym::param(0);
    let mut fgs = [None; 5];
    let mut bgs = [None; 5];
    let mut bits = [0u32; 5];
    let mut styles = Vec::new();
    // line style, italic, strikeout, bold, code
    for i in 0..5 {
        fgs[i] = any_color(sym::pick(kinds));
        // the code of the background is the one of the foreground: fewer combinations
        bgs[i] = any_color(if i % 2 == 0 { sym::pick(2) } else { 0 });
        let mut a = Attributes::default();
        a.set(ATTRS[i]);
        bits[i] = 1 << i;
        styles.push(CompoundStyle::new(fgs[i], bgs[i], a));
    }
    let mut skin = MadSkin::no_style();
    skin.italic = styles[1].clone();
    skin.strikeout = styles[2].clone();
    skin.bold = styles[3].clone();
    skin.inline_code = styles[4].clone();
    let ls = LineStyle { compound_style: styles[0].clone(), ..Default::default() };
    let c = Compound { src: "x", italic: sym::flag(), strikeout: sym::flag(), bold: sym::flag(), code: sym::flag() };
    let on = [true, c.italic, c.strikeout, c.bold, c.code];
    let s = skin.compound_style(&ls, &c);
    let (mut fg, mut bg) = (None, None);
    for i in 0..5 {
        if on[i] {
            fg = fgs[i].or(fg);
            bg = bgs[i].or(bg);
        }
    }
    sym::check(s.get_fg() == fg, "foreground");
    sym::check(s.get_bg() == bg, "background");
    for i in 0..5 {
        sym::check(s.has_attr(ATTRS[i]) == on[i], "attributes");
    }
    sym::reach("composed");
}

fn color(i: u32) -> Color {
    Color::AnsiValue(i as u8)
}
/// a style with what the mask says: bit 0 fg, bit 1 bg, bit 2 attribute, bit 3 no underline
fn style(i: u32, mask: u32) -> (CompoundStyle, Sty) {
    let mut s = CompoundStyle::default();
    let mut t = Sty::default();
    if mask & 1 != 0 {
        s.set_fg(color(10 + i));
        t.fg = 0x1000000 + 10 + i;
    }
    if mask & 2 != 0 {
        s.set_bg(color(20 + i));
        t.bg = 0x1000000 + 20 + i;
    }
    if mask & 4 != 0 {
        s.add_attr(ATTRS[i as usize % 5]);
        t.attrs |= 1 << SGR[i as usize % 5];
    }
    (s, t)
}
fn over(a: Sty, b: Sty) -> Sty {
    Sty { fg: if b.fg != 0 { b.fg } else { a.fg }, bg: if b.bg != 0 { b.bg } else { a.bg }, attrs: a.attrs | b.attrs }
}
struct Styles {
    skin: MadSkin,
    /// paragraph, code block, headers 1 and 2
    lines: [Sty; 4],
    /// italic, strikeout, bold, code
    compounds: [Sty; 4],
    bullet: Sty,
    quote: Sty,
}
fn styles(masks: usize) -> Styles {
    // for each mask: paragraph, code block, header 1, header 2, italic, strikeout, bold, inline code
    let m: [u32; 8] = match masks {
        0 => [7, 7, 7, 7, 7, 7, 7, 7],
        1 => [0, 0, 0, 0, 0, 0, 0, 0],
        2 => [1, 2, 4, 0, 2, 1, 4, 6],
        3 => [2, 1, 1, 6, 5, 4, 3, 0],
        4 => [3, 4, 3, 3, 4, 6, 1, 1],
        _ => [0, 1, 2, 4, 1, 2, 6, 5],
    };
    let mut skin = MadSkin::no_style();
    let (p, p1) = style(0, m[0]);
    let (c, c1) = style(1, m[1]);
    let (h, h1) = style(2, m[2]);
    let (k, k1) = style(3, m[3]);
    skin.paragraph.compound_style = p;
    skin.code_block.compound_style = c;
    skin.headers[0].compound_style = h;
    skin.headers[1].compound_style = k;
    let (i, i1) = style(4, m[4]);
    let (s, s1) = style(5, m[5]);
    let (b, b1) = style(6, m[6]);
    let (n, n1) = style(7, m[7]);
    skin.italic = i;
    skin.strikeout = s;
    skin.bold = b;
    skin.inline_code = n;
    let (u, u1) = style(8, 5);
    let (q, q1) = style(9, 6);
    skin.bullet = StyledChar::new(u, '•');
    skin.quote_mark = StyledChar::new(q, '▐');
    Styles { skin, lines: [p1, c1, h1, k1], compounds: [i1, s1, b1, n1], bullet: u1, quote: q1 }
}
impl Styles {
    /// the marker and the style of a line of some kind
    fn line(&self, kind: CompositeKind) -> (Vec<(char, Sty)>, Sty) {
        let p = self.lines[0];
        let mut m = Vec::new();
        let mut l = p;
        match kind {
            CompositeKind::Header(1) => l = self.lines[2],
            CompositeKind::Header(2) => l = self.lines[3],
            CompositeKind::Header(_) => l = Sty::default(),
            CompositeKind::Code => l = self.lines[1],
            CompositeKind::ListItem(d) => {
                for _ in 0..d {
                    m.push((' ', p));
                }
                m.push(('•', self.bullet));
                m.push((' ', p));
            }
            CompositeKind::Quote => {
                m.push(('▐', self.quote));
                m.push((' ', p));
            }
            _ => {}
        }
        (m, l)
    }
    fn expected(&self, kind: CompositeKind, compounds: &[Compound<'_>]) -> Vec<(char, Sty)> {
        let (mut v, l) = self.line(kind);
        for c in compounds {
            let mut s = l;
            for (i, on) in [c.italic, c.strikeout, c.bold, c.code].iter().enumerate() {
                if *on {
                    s = over(s, self.compounds[i]);
                }
            }
            for ch in c.src.chars() {
                v.push((ch, s));
            }
        }
        v
    }
}
fn check_printed(t: &Term, expected: &[(char, Sty)], newlines: usize) {
    sym::check(t.unknown == 0 && t.moves == 0 && t.erases == 0 && t.newlines == newlines, "only styled chars");
    sym::check(t.cells.len() == expected.len(), "as many chars as in the text");
    if t.cells.len() == expected.len() {
        for i in 0..expected.len() {
            sym::check(t.cells[i].c == expected[i].0, "char of the text");
            sym::check(t.cells[i].sty == expected[i].1, "style of the char");
        }
    }
}
fn kind(i: usize) -> CompositeKind {
    match i {
        0 => CompositeKind::Paragraph,
        1 => CompositeKind::ListItem(0),
        2 => CompositeKind::Quote,
        3 => CompositeKind::Header(1),
        4 => CompositeKind::Code,
        5 => CompositeKind::ListItem(2),
        6 => CompositeKind::Header(2),
        7 => CompositeKind::Header(3),
        8 => CompositeKind::ListItem(1),
        9 => CompositeKind::ListItem(3),
        10 => CompositeKind::ListItem(4),
        11 => CompositeKind::ListItem(5),
        12 => CompositeKind::Header(8),
        _ => CompositeKind::ListItem(9),
    }
}

/// any styles of the compounds
/// params: classes, kinds, sets of styles, chars of each compound
pub fn r01_compounds() {
    let classes = sym::param(0) as u32;
    let kind = kind(sym::pick(sym::param(1)));
    let st = styles(sym::pick(sym::param(2)));
    let mut strings = Vec::new();
    let mut i = 3;
    while sym::param(i) > 0 {
        strings.push(plain_string(sym::param(i) - 1, classes).0);
        i += 1;
    }
    let mut compounds = Vec::new();
    for s in &strings {
        compounds.push(Compound { src: s, italic: sym::flag(), strikeout: sym::flag(), bold: sym::flag(), code: sym::flag() });
    }
    let expected = st.expected(kind, &compounds);
    let mut t = Term::new();
    let composite = minimad::Composite { style: style_of(kind), compounds };
    if sym::pick(2) == 0 || matches!(kind, CompositeKind::Header(d) if d > 2) {
        st.skin.write_composite(&mut t, composite).unwrap();
    } else {
        let fc = FmtComposite::from(composite, &st.skin);
        write!(t, "{}", FmtInline { skin: &st.skin, composite: fc }).unwrap();
    }
    check_printed(&t, &expected, 0);
    sym::reach("rendered");
}
fn style_of(kind: CompositeKind) -> minimad::CompositeStyle {
    match kind {
        CompositeKind::Header(d) => minimad::CompositeStyle::Header(d),
        CompositeKind::ListItem(d) => minimad::CompositeStyle::ListItem(d),
        CompositeKind::Code => minimad::CompositeStyle::Code,
        CompositeKind::Quote => minimad::CompositeStyle::Quote,
        _ => minimad::CompositeStyle::Paragraph,
    }
}
/// markdown sources of one line, which is neither a rule nor a table row
/// params: classes, chars, prefixes, sets of styles
pub fn r01_source() {
    let classes = sym::param(0) as u32;
    let prefix = ["", "* ", "  * ", "> ", "# ", "## ", "    ", "### ", "a **b** "][sym::pick(sym::param(2))];
    let mut src = prefix.to_string();
    for _ in 0..sym::param(1) {
        let c = plain_char(classes);
        sym::assume(c != '|' || prefix == "a **b** ");
        src.push(c);
    }
    let st = styles(sym::pick(sym::param(3)));
    let how = sym::pick(3);
    let mut t = Term::new();
    if how == 0 {
        let c = minimad::Composite::from_inline(&src);
        let expected = st.expected(CompositeKind::Paragraph, &c.compounds);
        st.skin.write_inline_on(&mut t, &src).unwrap();
        check_printed(&t, &expected, 0);
        return;
    }
    let text = minimad::parse_text(&src, minimad::Options::default());
    let mut expected = None;
    for l in &text.lines {
        match l {
            minimad::Line::Normal(c) => {
                sym::check(expected.is_none(), "one line");
                expected = Some(st.expected(CompositeKind::from(c.style), &c.compounds));
            }
            _ => return,
        }
    }
    let expected = match expected {
        Some(e) => e,
        None => return,
    };
    if how == 1 {
        write!(t, "{}", st.skin.text(&src, None)).unwrap();
    } else {
        let f = FmtText::from(&st.skin, &src, None);
        sym::check(f.lines.len() == 1, "one line");
        write!(t, "{}", DisplayableLine::new(&st.skin, &f.lines[0], None)).unwrap();
    }
    check_printed(&t, &expected, if how == 1 { 1 } else { 0 });
    sym::reach("rendered");
}
/// the alignment of the lines doesn't change what is written when no width is given
#[allow(dead_code)]
fn unused(_: Alignment) {}
