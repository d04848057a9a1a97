//! tables
use crate::{sym, term::{cw, Term}, util::*};
use minimad::{Alignment, Composite, CompositeStyle, Compound, Line, TableRow, TableRule, Text};
use std::io::Write;
use termimad::*;

/// what is expected of a table: for each column, the chars which aren't spaces
#[derive(Default)]
struct Table {
    cols: Vec<Vec<char>>,
    nbcols: usize,
}

fn rule(n: usize, a: usize) -> Line<'static> {
    let mut cells = Vec::new();
    for i in 0..n {
        cells.push(align(a + i));
    }
    Line::TableRule(TableRule { cells })
}

struct Builder<'s> {
    lines: Vec<Line<'s>>,
    tables: Vec<Table>,
    in_table: bool,
}
impl<'s> Builder<'s> {
    fn table(&mut self, nbcols: usize) -> &mut Table {
        if !self.in_table {
            self.tables.push(Table::default());
            self.in_table = true;
        }
        let t = self.tables.last_mut().unwrap();
        t.nbcols = t.nbcols.max(nbcols);
        t
    }
    fn rule(&mut self, n: usize, a: usize) {
        self.table(n);
        self.lines.push(rule(n, a));
    }
    fn para(&mut self) {
        self.in_table = false;
        self.lines.push(Line::Normal(Composite::from_inline("p")));
    }
    /// cells are strings and a number giving the kind and the style
    fn row(&mut self, cells: &[(&'s str, usize)]) {
        let t = self.table(cells.len());
        for (i, (s, _)) in cells.iter().enumerate() {
            while t.cols.len() <= i {
                t.cols.push(Vec::new());
            }
            for c in s.chars() {
                if c != ' ' {
                    t.cols[i].push(c);
                }
            }
        }
        let mut v = Vec::new();
        for &(s, k) in cells {
            let mut compounds = Vec::new();
            if k >= 10 {
                // two compounds
                let mut p = s.len() / 2;
                while !s.is_char_boundary(p) {
                    p += 1;
                }
                compounds.push(Compound::raw_str(&s[..p]));
                compounds.push(Compound::raw_str(&s[p..]).bold());
            } else {
                compounds.push(Compound::raw_str(s));
            }
            let style = match k % 10 {
                0 => CompositeStyle::Paragraph,
                5 => CompositeStyle::Quote,
                d => CompositeStyle::ListItem(d as u8 - 1),
            };
            v.push(Composite { style, compounds });
        }
        self.lines.push(Line::TableRow(TableRow { cells: v }));
    }
}

fn is_table(l: &FmtLine<'_>) -> bool {
    matches!(l, FmtLine::TableRow(_) | FmtLine::TableRule(_))
}
/// the lines rendered, and the checks of what was reported
fn rendered(skin: &MadSkin, line: &FmtLine<'_>, width: Option<usize>) -> Term {
    let mut term = Term::new();
    write!(term, "{}", DisplayableLine::new(skin, line, width)).unwrap();
    sym::check(term.controls == 0 && term.newlines == 0 && term.moves == 0, "rendered on one line");
    term
}
const SEPS: &str = "│┌┐└┘├┤┬┴┼";
fn seps(t: &Term) -> Vec<usize> {
    let mut v = Vec::new();
    for c in &t.cells {
        if SEPS.contains(c.c) {
            v.push(c.x);
        }
    }
    v
}
fn is_marker(c: char) -> bool {
    c == '•' || c == '▐'
}

fn check_table(skin: &MadSkin, lines: &[FmtLine<'_>], table: &Table, width: usize) {
    let mut first: Option<(usize, Vec<usize>)> = None;
    let mut cols: Vec<Vec<char>> = Vec::new();
    for line in lines {
        let term = rendered(skin, line, None);
        sym::check(line.visible_length() == term.width(), "reported length");
        let term = rendered(skin, line, Some(width));
        sym::check(term.x <= width, "within the available width");
        let s = seps(&term);
        if s.is_empty() {
            sym::check(false, "separators");
            return;
        }
        match &first {
            None => {
                let mut n = 1;
                while n < s.len() {
                    sym::check(s[n] - s[n - 1] > 3, "columns of at least 3");
                    n += 1;
                    cols.push(Vec::new());
                }
                first = Some((term.x, s));
            }
            Some((x, f)) => {
                sym::check(*x == term.x, "same width");
                sym::check(*f == s, "separators at the same columns");
            }
        }
        let f = &first.as_ref().unwrap().1;
        let is_row = matches!(line, FmtLine::TableRow(_));
        let mut col = 0;
        for c in &term.cells {
            if c.x < f[0] || c.x > f[f.len() - 1] {
                sym::check(c.c == ' ', "only spaces around the table");
                continue;
            }
            while col < f.len() && f[col] <= c.x {
                col += 1;
            }
            if f[col - 1] == c.x {
                sym::check(SEPS.contains(c.c) && ((c.c == '│') == is_row), "separator");
            } else if !is_row {
                sym::check(c.c == '─', "rule");
            } else if c.c != ' ' && !is_marker(c.c) {
                cols[col - 1].push(c.c);
            }
        }
    }
    let n = table.nbcols;
    let expected = if width >= 4 * n + 1 { n } else { (width - 1) / 4 };
    sym::check(cols.len() == expected, "as many columns as can fit");
    if expected < n {
        sym::reach("columns dropped");
    }
    for i in 0..cols.len() {
        let empty = Vec::new();
        let exp = table.cols.get(i).unwrap_or(&empty);
        sym::check(&cols[i] == exp, "content of the column");
    }
}

fn check(b: Builder<'_>, skin: &MadSkin, width: usize) {
    let nb = b.lines.len();
    let text = FmtText::from_text(skin, Text { lines: b.lines }, Some(width));
    let mut i = 0;
    let mut nt = 0;
    if text.lines.len() > nb {
        sym::reach("rows added");
    }
    while i < text.lines.len() {
        if !is_table(&text.lines[i]) {
            i += 1;
            continue;
        }
        let start = i;
        while i < text.lines.len() && is_table(&text.lines[i]) {
            i += 1;
        }
        // (a table without columns is only a rule)
        if width >= 5 && nt < b.tables.len() && b.tables[nt].nbcols > 0 {
            sym::check(nt < b.tables.len(), "number of tables");
            check_table(skin, &text.lines[start..i], &b.tables[nt], width);
        }
        nt += 1;
    }
    sym::check(nt == b.tables.len(), "number of tables");
    let mut t = Term::new();
    write!(t, "{}", text).unwrap();
    sym::observe_str(&t.text());
}

fn skin(i: usize) -> MadSkin {
    let mut skin = MadSkin::no_style();
    if i == 1 {
        skin.table.align = Alignment::Center;
        skin.list_items_indentation_mode = ListItemsIndentationMode::FirstLineOnly;
        skin.paragraph.left_margin = 1;
        skin.paragraph.right_margin = 1;
    }
    skin
}
fn no_separator(s: &str) {
    for c in s.chars() {
        sym::assume(!SEPS.contains(c) && c != '─' && !is_marker(c));
    }
}

/// params: classes, first shape, shapes, chars of the unknown cell, chars of the second one, min width, max width
pub fn t02_cells() {
    let classes = sym::param(0) as u32;
    let (a, _) = plain_string(sym::param(3), classes);
    let (c, _) = plain_string(sym::param(4), classes);
    if classes & 6 != 0 {
        no_separator(&a);
        no_separator(&c);
    }
    let shape = sym::param(1) + sym::pick(sym::param(2));
    let width = sym::param(5) + sym::pick(sym::param(6) + 1 - sym::param(5));
    let long_a = format!("{}op qr stuv", a);
    let long_c = format!("gh {}ij", c);
    let mut b = Builder { lines: Vec::new(), tables: Vec::new(), in_table: false };
    let mut sk = 0;
    match shape {
        // cells wrapped over several, different, numbers of lines
        6 => {
            b.row(&[(&long_c, 0), (&long_a, 10)]);
            b.row(&[(&long_a, 0), ("i", 0)]);
        }
        7 => {
            b.row(&[("x", 0), (&long_c, 1), (&long_a, 0), ("tu vw xyz kl mn", 10)]);
            b.rule(4, 1);
            b.row(&[(&long_a, 5), (&long_c, 0)]);
        }
        0 => {
            b.row(&[(&a, 0), ("xy z", 0)]);
            b.rule(2, 1);
            b.row(&[("lmnopq", 10), (&c, 10)]);
        }
        1 => {
            b.rule(1, 2);
            b.row(&[("gh", 0), (&a, 0), ("k", 0)]);
            b.row(&[(&c, 0)]);
            b.rule(4, 0);
            sk = 1;
        }
        2 => {
            b.row(&[(&a, 0)]);
            b.para();
            b.row(&[("e f g h", 0), (&c, 0)]);
            b.rule(0, 0);
            b.row(&[("i", 0)]);
        }
        3 => {
            // lists
            b.row(&[(&a, 1), (&c, 12)]);
            b.rule(2, 1);
            b.row(&[("i j", 0), ("lmn", 4)]);
        }
        4 => {
            // quotes, deep items
            b.rule(2, 1);
            b.row(&[(&a, 5), ("i", 0)]);
            b.row(&[("qrst", 0), (&c, 13)]);
            b.rule(2, 1);
        }
        _ => {
            b.row(&[(&a, 10), (&c, 0), ("v w", 0), ("xyz", 0)]);
            b.rule(1, 3);
        }
    }
    check(b, &skin(sk), width);
}

/// params: lines, kinds of lines, min width, max width
pub fn t02_shapes() {
    let n = sym::param(0);
    let a = plain_char(0);
    let mut s = String::from("ab");
    s.push(a);
    s.push_str("cd");
    let width = sym::param(2) + sym::pick(sym::param(3) + 1 - sym::param(2));
    let mut b = Builder { lines: Vec::new(), tables: Vec::new(), in_table: false };
    for _ in 0..n {
        match sym::pick(sym::param(1)) {
            0 => b.row(&[(&s, 0)]),
            1 => b.row(&[("i", 0), (&s, 0), ("", 0)]),
            2 => b.rule(2, 1),
            3 => b.para(),
            4 => b.row(&[(&s, 0), ("j", 0)]),
            5 => b.rule(0, 0),
            _ => b.row(&[("klmnopq", 0), ("r", 0), ("st", 0), ("uvw", 10)]),
        }
    }
    check(b, &skin(0), width);
}

/// params: classes, chars, width
pub fn t02_parse() {
    let (a, _) = plain_string(sym::param(1), sym::param(0) as u32);
    if sym::param(0) & 6 != 0 {
        no_separator(&a);
    }
    let mut s = String::from("|");
    s.push_str(&a);
    s.push_str("|e\n|-|:-:\n|f");
    let width = sym::pick(sym::param(2) + 1);
    let skin = skin(0);
    let text = FmtText::from(&skin, &s, Some(width));
    let mut first: Option<(usize, Vec<usize>)> = None;
    for line in &text.lines {
        if !is_table(line) {
            first = None;
            continue;
        }
        if width < 5 {
            continue;
        }
        let term = rendered(&skin, line, Some(width));
        sym::check(term.x <= width, "within the available width");
        let mut v = Vec::new();
        for c in &term.cells {
            if SEPS.contains(c.c) {
                v.push(c.x);
            }
        }
        match &first {
            None => first = Some((term.x, v)),
            Some((x, f)) => {
                sym::check(*x == term.x, "same width");
                sym::check(*f == v, "separators at the same columns");
            }
        }
    }
    let mut t = Term::new();
    write!(t, "{}", text).unwrap();
    sym::observe_str(&t.text());
}
