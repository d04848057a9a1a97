//! painting of texts
use crate::{sym, term::{Sty, Term}, util::*};
use termimad::crossterm::style::Color;
use termimad::*;

fn skin(i: usize) -> MadSkin {
    let mut skin = if i == 0 { MadSkin::no_style() } else { MadSkin::default() };
    if i == 2 {
        skin.paragraph.align = minimad::Alignment::Center;
        skin.code_block.left_margin = 1;
        skin.code_block.align = minimad::Alignment::Right;
        skin.paragraph.set_bg(Color::AnsiValue(3));
        skin.scrollbar.track.set_char('T');
        skin.scrollbar.thumb.set_char('H');
    }
    skin
}
/// check that the cells of an area are painted, all of them once, and return the painted
/// characters with their style, row after row
fn painted(t: &Term, area: &Area) -> Vec<Vec<(char, Sty)>> {
    let (left, top) = (area.left as usize, area.top as usize);
    let (width, height) = (area.width as usize, area.height as usize);
    sym::check(t.unknown == 0 && t.controls == 0 && t.newlines == 0 && t.erases == 0, "only chars and moves");
    let mut rows = vec![Vec::new(); height];
    let mut ends = vec![left; height];
    for c in &t.cells {
        let y = sym::concretize(c.y.wrapping_sub(top));
        if y >= height {
            sym::check(false, "inside the rows of the area");
            return rows;
        }
        // no hole and no overlap in the row
        sym::check(c.x == ends[y], "the cells of a row follow each other");
        ends[y] += c.w;
        rows[y].push((c.c, c.sty));
    }
    for y in 0..height {
        sym::check(ends[y] == left + width, "the whole width, and nothing more");
    }
    rows
}
/// check what is in the rows
fn check_rows(rows: &[Vec<(char, Sty)>], text: &FmtText<'_, '_>, area: &Area, scroll: usize, with_bar: bool) {
    let height = area.height as usize;
    let content = text.lines.len();
    let bar = if with_bar { area.scrollbar(scroll, content) } else { None };
    sym::check(bar.is_some() == (with_bar && content > height), "scrollbar when needed");
    let width = area.width as usize - bar.is_some() as usize;
    let space = {
        let mut t = Term::new();
        text.skin.paragraph.compound_style.queue(&mut t, ' ').unwrap();
        t.cells[0].sty
    };
    for y in 0..height {
        let mut expected = Vec::new();
        if scroll + y < content {
            use std::io::Write;
            let mut t = Term::new();
            write!(t, "{}", DisplayableLine::new(text.skin, &text.lines[scroll + y], Some(width))).unwrap();
            for c in &t.cells {
                expected.push((c.c, c.sty));
            }
        } else {
            for _ in 0..width {
                expected.push((' ', space));
            }
        }
        if let Some((a, b)) = bar {
            let y = area.top + y as u16;
            let c = if y >= a && y <= b { &text.skin.scrollbar.thumb } else { &text.skin.scrollbar.track };
            let mut t = Term::new();
            c.queue(&mut t).unwrap();
            expected.push((t.cells[0].c, t.cells[0].sty));
        }
        sym::check(rows[y].len() == expected.len(), "as many characters as expected");
        if rows[y].len() == expected.len() {
            for i in 0..expected.len() {
                sym::check(rows[y][i] == expected[i], "right character with its style");
            }
        }
    }
}
fn source(kind: usize, s: &str) -> String {
    match kind {
        0 => format!("{s}\nb\nc c\nd d d\ne"),
        1 => format!("# {s}\n* f g h\n> i j\n----\nk"),
        2 => format!("```\n{s}\nl\n```\nm n o"),
        3 => format!("|{s}|p|\n|-|:-:|\n|qr|s t\nu"),
        _ => format!("{s}"),
    }
}
/// params: classes, chars, kinds of texts, min width, max width, max height, skins
pub fn v02_write() {
    let classes = sym::param(0) as u32;
    let (s, _) = plain_string(sym::param(1), classes);
    let kind = sym::pick(sym::param(2));
    let md = source(kind, &s);
    let width = sym::param(3) + sym::pick(sym::param(4) + 1 - sym::param(3));
    let height = 1 + sym::pick(sym::param(5));
    let skin = skin(sym::pick(sym::param(6)));
    let (left, top) = if sym::pick(2) == 0 { (0, 0) } else { (sym::urange(1, 40), sym::urange(1, 8)) };
    let area = Area::new(left as u16, top as u16, width as u16, height as u16);
    let text = skin.area_text(&md, &area);
    let content = text.lines.len();
    let max = if content > height { content - height } else { 0 };
    let mut t = Term::new();
    let what = sym::pick(4);
    let mut scroll = 0;
    if what < 2 {
        let mut view = TextView::from(&area, &text);
        scroll = sym::pick(max + 2);
        view.scroll = scroll;
        view.show_scrollbar = what == 0;
        view.write_on(&mut t).unwrap();
    } else if what == 2 {
        skin.write_in_area_on(&mut t, &md, &area).unwrap();
    } else {
        let mut view = MadView::from(md.clone(), area.clone(), skin.clone());
        scroll = sym::pick(max + 1);
        view.scroll = scroll;
        view.write_on(&mut t).unwrap();
    }
    let rows = painted(&t, &area);
    let with_bar = what == 0 || what == 3;
    if with_bar && scroll > max {
        sym::reach("too scrolled");
        return;
    }
    check_rows(&rows, &text, &area, scroll, with_bar);
    if content > height {
        sym::reach("scrollable");
    } else {
        sym::reach("whole");
    }
}
/// no crash in any area
/// params: classes, chars, max width, max height
pub fn v02_small() {
    let classes = sym::param(0) as u32;
    let (s, _) = plain_string(sym::param(1), classes);
    let md = source(sym::pick(4), &s);
    let width = sym::pick(sym::param(2) + 1);
    let height = sym::pick(sym::param(3) + 1);
    let skin = skin(1 + sym::pick(2));
    let area = Area::new(3, 2, width as u16, height as u16);
    let text = skin.area_text(&md, &area);
    let mut t = Term::new();
    let mut view = TextView::from(&area, &text);
    view.scroll = sym::pick(3);
    view.write_on(&mut t).unwrap();
    sym::check(t.controls == 0 && t.newlines == 0, "no control character");
    sym::reach("written");
}
/// texts of many lines
/// params: lines
pub fn v02_tall() {
    let n = sym::param(0);
    let skin = MadSkin::no_style();
    let mut lines = Vec::with_capacity(n);
    for _ in 0..n {
        lines.push(FmtLine::HorizontalRule);
    }
    let mut area = Area::new(0, 0, 4, 5);
    area.top = 3;
    let mut text = FmtText { skin: &skin, lines, width: Some(3) };
    let content = n - sym::pick(3);
    text.lines.truncate(content);
    let mut view = TextView::from(&area, &text);
    let scroll = [0, 1, content / 2, content - 6, content - 5][sym::pick(5)];
    view.scroll = scroll;
    let bar = view.scrollbar();
    sym::check(bar == area.scrollbar(scroll, content), "scrollbar of the whole content");
    let mut t = Term::new();
    view.write_on(&mut t).unwrap();
    let rows = painted(&t, &area);
    check_rows(&rows, &text, &area, scroll, true);
    if let Some((a, b)) = bar {
        sym::check((a == 3) == (scroll == 0), "at the top");
        sym::check((b == 7) == (scroll == content - 5), "at the bottom");
        sym::reach("with scrollbar");
    }
}
