//! lists
use crate::{sym, term::Term, util::*};
use std::cmp::Ordering;
use termimad::*;

struct Item {
    id: usize,
    key: usize,
}
fn id_char(id: usize) -> char {
    (b'A' + id as u8) as char
}
/// what the list should be
struct Model {
    /// id, key, displayed
    rows: Vec<(usize, usize, bool)>,
    sorted: bool,
    /// 0: no filter, n: only the keys which aren't n - 1
    filter: usize,
    /// id of the selected row
    sel: Option<usize>,
    added: usize,
}
impl Model {
    fn displayed(&self) -> Vec<usize> {
        let mut v = Vec::new();
        for r in &self.rows {
            if r.2 {
                v.push(r.0);
            }
        }
        v
    }
    fn sort(&mut self) {
        for i in 1..self.rows.len() {
            let mut j = i;
            while j > 0 && self.rows[j - 1].1 > self.rows[j].1 {
                self.rows.swap(j - 1, j);
                j -= 1;
            }
        }
    }
}
fn by_key(a: &Item, b: &Item) -> Ordering {
    if a.key < b.key {
        Ordering::Less
    } else if a.key > b.key {
        Ordering::Greater
    } else {
        Ordering::Equal
    }
}
/// ids of the rows painted
fn painted(view: &ListView<'_, Item>) -> Vec<usize> {
    let mut t = Term::new();
    view.write_on(&mut t).unwrap();
    let mut v = Vec::new();
    let x = view.area.left as usize;
    let top = view.area.top as usize;
    let mut last = top + 1;
    for c in &t.cells {
        if c.x == x && c.y > top + 1 && c.c >= 'A' && c.c <= 'Z' {
            sym::check(c.y == last + 1, "rows painted one under the other");
            last = c.y;
            v.push(c.c as usize - 'A' as usize);
        }
    }
    v
}
fn check_state(view: &ListView<'_, Item>, m: &Model, visible: bool) {
    let displayed = m.displayed();
    let (d, n) = view.row_counts();
    sym::check(d == displayed.len() && n == m.rows.len(), "counts");
    let sel = view.get_selection().map(|r| r.id);
    sym::check(sel == m.sel, "selection");
    sym::check(view.has_selection() == sel.is_some(), "has_selection");
    if let Some(id) = sel {
        sym::check(displayed.contains(&id), "a row which passes the filter");
    }
    let p = painted(view);
    if let Some(first) = p.first() {
        // consecutive displayed rows, in order
        let mut s = 0;
        while s < displayed.len() && displayed[s] != *first {
            s += 1;
        }
        for i in 0..p.len() {
            sym::check(s + i < displayed.len() && displayed[s + i] == p[i], "rows in order");
        }
    } else {
        // (a list may be scrolled one row after its end)
        sym::check(displayed.is_empty() || view.area.height < 4 || !visible, "rows painted");
    }
    if view.area.height > 2 {
        let body = view.area.height as usize - 2;
        sym::check(p.len() <= body, "no more rows than the body height");
        if displayed.len() <= body && visible {
            sym::check(p.len() == displayed.len(), "everything is painted when it fits");
        }
        if visible {
            if let Some(id) = m.sel {
                sym::check(p.contains(&id), "the selection is visible");
                sym::reach("visible selection");
            }
        }
    }
}
/// params: operations, initial rows, max area height, first operation, operations, sorted
pub fn v03_history() {
    let skin = MadSkin::no_style();
    let style: &'static CompoundStyle = Box::leak(Box::new(CompoundStyle::default()));
    let height = sym::param(2);
    let columns = vec![ListViewColumn::new(
        "t",
        1,
        1,
        Box::new(move |r: &Item| ListViewCell::new(id_char(r.id).to_string(), style)),
    )];
    let h = if height < 100 { 3 + sym::pick(height - 2) } else { height - 100 };
    let top = if sym::pick(2) == 0 { 0 } else { 7 };
    let mut view = ListView::new(Area::new(2, top, 4, h as u16), columns, &skin);
    let mut m = Model { rows: Vec::new(), sorted: false, filter: 0, sel: None, added: 0 };
    let kinds = 3;
    let add = |view: &mut ListView<'_, Item>, m: &mut Model, key: usize| {
        let id = m.added;
        m.added += 1;
        view.add_row(Item { id, key });
        m.rows.push((id, key, m.filter == 0 || key != m.filter - 1));
        if m.sorted {
            m.sort();
        }
    };
    if sym::param(5) == 1 && sym::pick(2) == 1 {
        view.sort(Box::new(by_key));
        m.sorted = true;
    }
    let n0 = sym::pick(sym::param(1) + 1);
    for i in 0..n0 {
        add(&mut view, &mut m, if sym::param(5) == 1 { sym::urange(0, kinds - 1) } else { i % kinds });
    }
    check_state(&view, &m, false);
    for _ in 0..sym::param(0) {
        let op = sym::param(3) + sym::pick(sym::param(4));
        let mut visible = false;
        match op {
            0 | 1 => {
                let up = op == 1;
                let d = m.displayed();
                view.try_select_next(up);
                visible = true;
                if let Some(id) = m.sel {
                    let mut i = 0;
                    while d[i] != id {
                        i += 1;
                    }
                    let j = if up { (i + d.len() - 1) % d.len() } else { (i + 1) % d.len() };
                    m.sel = Some(d[j]);
                    sym::reach("neighbour selected");
                } else {
                    let sel = view.get_selection().map(|r| r.id);
                    sym::check(sel.is_some() == !d.is_empty(), "something selected");
                    m.sel = sel;
                }
            }
            2 => {
                view.select_first_line();
                m.sel = m.displayed().first().copied();
                visible = true;
            }
            3 => {
                view.select_last_line();
                m.sel = m.displayed().last().copied();
                visible = true;
            }
            4 => {
                let f = sym::urange(0, kinds - 1);
                view.set_filter(Box::new(move |r: &Item| r.key != f));
                m.filter = f + 1;
                for r in &mut m.rows {
                    r.2 = r.1 != f;
                }
                if let Some(id) = m.sel {
                    if !m.displayed().contains(&id) {
                        m.sel = None;
                        sym::reach("selection filtered out");
                    }
                }
            }
            5 => {
                view.remove_filter();
                m.filter = 0;
                for r in &mut m.rows {
                    r.2 = true;
                }
            }
            6 => {
                let n = sym::u32() as i32;
                if sym::pick(2) == 0 {
                    view.try_scroll_lines(n);
                } else {
                    view.try_scroll_pages(n);
                }
                visible = true;
            }
            7 => {
                add(&mut view, &mut m, sym::urange(0, kinds - 1));
            }
            8 => {
                view.area.height = 3 + sym::pick(6) as u16;
                view.update_dimensions();
            }
            9 => {
                view.scroll_to_bottom();
                let p = painted(&view);
                let d = m.displayed();
                if let Some(last) = d.last() {
                    sym::check(p.contains(last), "bottom visible");
                    sym::check(view.do_scroll_show_bottom(), "bottom shown");
                    let body = view.area.height as usize - 2;
                    sym::check(p.len() == body.min(d.len()), "body filled");
                }
            }
            10 => {
                view.unselect();
                m.sel = None;
            }
            11 => {
                view.clear_rows();
                m.rows.clear();
                m.sel = None;
            }
            _ => {
                view.sort(Box::new(by_key));
                m.sorted = true;
            }
        }
        check_state(&view, &m, visible);
    }
    sym::reach("done");
}
/// any amount of scroll
/// params: rows, max height
pub fn v03_scroll() {
    let skin = MadSkin::no_style();
    let style: &'static CompoundStyle = Box::leak(Box::new(CompoundStyle::default()));
    let columns = vec![ListViewColumn::new(
        "t",
        1,
        1,
        Box::new(move |r: &Item| ListViewCell::new(id_char(r.id).to_string(), style)),
    )];
    let h = sym::pick(sym::param(1) + 1);
    let mut view = ListView::new(Area::new(2, 3, 4, h as u16), columns, &skin);
    let n = sym::pick(sym::param(0) + 1);
    for id in 0..n {
        view.add_row(Item { id, key: 0 });
    }
    if sym::pick(2) == 0 {
        view.try_scroll_lines(sym::u32() as i32);
    } else {
        view.try_scroll_pages(sym::u32() as i32);
    }
    let mut sel = None;
    if n > 0 {
        match sym::pick(3) {
            0 => {
                view.select_first_line();
                sel = Some(0);
            }
            1 => {
                view.try_select_next(true);
                sel = view.get_selection().map(|r| r.id);
                sym::check(sel.is_some(), "something selected");
            }
            _ => {}
        }
    }
    view.try_scroll_lines(sym::u32() as i32);
    sym::check(view.get_selection().map(|r| r.id) == sel, "selection unchanged");
    if h > 2 {
        let p = painted(&view);
        if let Some(id) = sel {
            sym::check(p.contains(&id), "selection visible");
            sym::reach("selection");
        }
        for i in 1..p.len() {
            sym::check(p[i] == p[i - 1] + 1, "in order");
        }
        sym::check(p.is_empty() == (n == 0) || h == 3, "something painted");
    }
    sym::reach("scrolled");
}
