//! painting of an input field
use crate::{i01::*, i02::*, sym, term::Term, util::*};
use termimad::crossterm::event::*;
use termimad::*;

const REVERSE: u32 = 1 << 7;

/// the text as it's displayed
fn displayed(f: &InputField) -> Vec<Vec<char>> {
    let mut v = Vec::new();
    for l in f.content().lines() {
        if f.password_mode {
            v.push(vec!['*'; l.chars.len()]);
        } else {
            v.push(l.chars.clone());
        }
    }
    v
}
fn col_of(line: &[char], x: usize) -> usize {
    let mut n = 0;
    for i in 0..x {
        n += sym::concretize(col_width(line[i]));
    }
    n
}
/// the text displayed without being scrolled, where the cursor must be seen if asked
pub fn check_display(f: &InputField, cursor_seen: bool) {
    let mut t = Term::new();
    let pos = f.display_on(&mut t).unwrap();
    sym::check(t.controls == 0 && t.unknown == 0 && t.erases == 0 && t.newlines == 0, "only chars");
    let area = f.area();
    let (left, top) = (area.left as usize, area.top as usize);
    let (w, h) = (area.width as usize, area.height as usize);
    let lines = displayed(f);
    let scroll = f.scroll();
    let has_scrollbar = lines.len() > h;
    let tw = if has_scrollbar { w - 1 } else { w };
    let cursor = f.content().cursor_pos();
    let selection = f.content().selection();
    let focused = f.focused();
    sym::check(if has_scrollbar { scroll.y + h <= lines.len() } else { scroll.y == 0 }, "scroll in the text");
    let left_ellipsis = scroll.x > 0 && tw > 4;
    // cells are painted once
    let mut painted = vec![usize::MAX; w * h];
    for (i, c) in t.cells.iter().enumerate() {
        if c.w == 0 {
            continue;
        }
        sym::check(c.y >= top && c.y < top + h && c.x >= left && c.x + c.w <= left + w, "in the area");
        for x in c.x - left..c.x - left + c.w {
            let p = &mut painted[(c.y - top) * w + x];
            sym::check(*p == usize::MAX, "painted once");
            *p = i;
        }
    }
    for p in &painted {
        sym::check(*p != usize::MAX, "fully painted");
    }
    // where the cursor should be
    let ccol = col_of(&lines[cursor.y], cursor.x);
    let cursor_row_seen = cursor.y >= scroll.y && cursor.y < scroll.y + h;
    let cursor_col_seen = ccol >= scroll.x + left_ellipsis as usize && ccol < scroll.x + tw;
    if focused && tw > 0 {
        if cursor_seen {
            sym::check(cursor_row_seen, "row of the cursor seen");
            sym::check(cursor_col_seen, "column of the cursor seen");
        }
        sym::check(pos.is_some() == (cursor_row_seen && cursor_col_seen), "cursor returned");
    } else {
        sym::check(pos.is_none(), "no cursor");
    }
    if let Some((x, y)) = pos {
        let (x, y) = (x as usize, y as usize);
        sym::check(x == left + ccol - scroll.x, "column of the cursor");
        sym::check(y == top + cursor.y - scroll.y, "row of the cursor");
        sym::check(t.cells[painted[(y - top) * w + x - left]].sty.attrs == REVERSE, "style of the cursor");
    }
    for r in 0..h {
        let y = scroll.y + r;
        let no_line = Vec::new();
        let line = if y < lines.len() { &lines[y] } else { &no_line };
        // the char covering each of the displayed columns
        let mut covering = vec![usize::MAX; tw];
        let mut start = vec![0; tw];
        let mut n = 0;
        for (i, c) in line.iter().enumerate() {
            let cw = sym::concretize(col_width(*c));
            for col in n..n + cw {
                if col >= scroll.x && col < scroll.x + tw {
                    covering[col - scroll.x] = i;
                    start[col - scroll.x] = n;
                }
            }
            n += cw;
        }
        let line_width = n;
        let mut after_ellipsis = false;
        let mut x = 0;
        while x < tw {
            let cell = t.cells[painted[r * w + x]];
            let cx = cell.x - left;
            let i = covering[x];
            let reversed = cell.sty.attrs == REVERSE;
            sym::check(reversed || cell.sty.attrs == 0, "style");
            if i < line.len() && !after_ellipsis && start[x] == scroll.x + x && cell.c == line[i] {
                // the right char
                sym::check(cx == x, "start of the char");
                sym::check(reversed == (focused && selection.contains(i, y)), "highlight of the selection");
            } else if cell.c == ' ' {
                let out = i == usize::MAX;
                let tab = !out && line[i] == '\t';
                let at_left = !out && start[x] < scroll.x + left_ellipsis as usize;
                let at_right = !out && start[x] + 2 > scroll.x + tw;
                sym::check(out || tab || at_left || at_right || after_ellipsis, "no missing char");
                if out && reversed {
                    sym::check(pos == Some(((left + x) as u16, (top + r) as u16)), "no highlight but the cursor");
                }
            } else if cell.c == '…' && x == 0 && left_ellipsis {
                sym::check(!reversed, "no cursor on the left ellipsis");
            } else if cell.c == '…' {
                sym::check(x + 2 >= tw && line_width > scroll.x + x, "ellipsis for a longer line");
                sym::check(reversed == (focused && i < line.len() && selection.contains(i, y)), "highlight of the ellipsis");
                after_ellipsis = true;
            } else {
                sym::check(false, "char of the text");
            }
            x = cx + cell.w;
        }
    }
}
/// do something and tell whether the cursor must then be seen
fn act(f: &mut InputField, seen: bool, o: usize) -> bool {
    let area = f.area().clone();
    let keys = [
        KeyCode::Left,
        KeyCode::Right,
        KeyCode::Up,
        KeyCode::Down,
        KeyCode::Home,
        KeyCode::End,
        KeyCode::PageUp,
        KeyCode::PageDown,
        KeyCode::Backspace,
        KeyCode::Delete,
    ];
    let at = |f: &InputField| (f.content().cursor_pos(), f.content().line_count(), f.is_empty());
    let before = at(f);
    let pick_cell = || {
        (
            area.left + sym::pick(area.width as usize) as u16,
            area.top + sym::pick(area.height as usize) as u16,
        )
    };
    match o {
        0..=9 => {
            let r = f.apply_keycode_event(keys[o], false);
            // on a scrolled field, a key doing nothing doesn't scroll
            seen || r && (before != at(f) || o >= 8)
        }
        10 | 11 => {
            let c = if o == 10 { plain_char(1) } else { ['é', '\t', 'あ'][sym::pick(3)] };
            f.put_char(c);
            true
        }
        12 => {
            f.insert_new_line();
            true
        }
        13 => {
            f.select_word_around();
            seen
        }
        14 => {
            let (x, y) = pick_cell();
            f.apply_click_event(x, y);
            true
        }
        15 | 16 => {
            let (x, y) = pick_cell();
            let kind = if o == 15 { MouseEventKind::Drag(MouseButton::Left) } else { MouseEventKind::Down(MouseButton::Left) };
            f.apply_mouse_event(mouse(kind, x as usize, y as usize, KeyModifiers::NONE), false);
            true
        }
        17 | 18 => {
            let kind = if o == 17 { MouseEventKind::ScrollDown } else { MouseEventKind::ScrollUp };
            f.apply_mouse_event(mouse(kind, area.left as usize, area.top as usize, KeyModifiers::NONE), false);
            seen // maybe changed by the caller
        }
        19 => {
            // another size
            let (w, h) = (1 + sym::pick(sym::param(7)), 1 + sym::pick(sym::param(8)));
            let a = Area::new(2, 5, w as u16, h as u16);
            let changed = a != area;
            f.set_area(a);
            seen || changed
        }
        20 => {
            f.change_area(7, 6, 1 + sym::pick(sym::param(7)) as u16);
            seen || area != *f.area()
        }
        21 => {
            // no focus for some time
            f.set_focus(false);
            check_display(f, false);
            let p = before;
            sym::check(p == at(f), "same cursor");
            f.set_area(Area::new(2, 5, 1 + sym::pick(sym::param(7)) as u16, 2));
            check_display(f, false);
            if sym::flag() {
                f.set_focus(true);
            } else {
                f.apply_click_event(2, 5);
            }
            true
        }
        22 => {
            f.apply_keycode_event(KeyCode::Left, true);
            seen || before.0 != f.content().cursor_pos()
        }
        23 => {
            f.set_str("other text");
            true
        }
        _ => {
            f.cut_selection();
            true
        }
    }
}
/// params: classes, chars, width, height, actions, first of them, number, max width, max height, mode (1: password)
pub fn i03_paint() {
    let (mut f, _) = field_in(sym::param(9) == 1);
    let mut seen = true;
    check_display(&f, true);
    for _ in 0..sym::param(4) {
        let o = sym::param(5) + sym::pick(sym::param(6));
        let before = f.scroll();
        seen = act(&mut f, seen, o);
        if o == 17 || o == 18 {
            let after = f.scroll();
            seen = seen && before == after;
        }
    }
    check_display(&f, seen);
    sym::reach("painted");
}
/// runs of moves along a line longer than the field
/// params: max chars, max width, runs
pub fn i03_line() {
    let n = 1 + sym::pick(sym::param(0));
    let w = 1 + sym::pick(sym::param(1));
    let mut f = InputField::new(Area::new(2, 5, w as u16, 1));
    // at most one of the chars is a wide one
    let wide = sym::pick(n + 1);
    for i in 0..n {
        f.put_char(if i == wide { 'あ' } else { plain_char(1) });
    }
    check_display(&f, true);
    for _ in 0..sym::param(2) {
        let key = [KeyCode::Left, KeyCode::Right, KeyCode::Home, KeyCode::End, KeyCode::Backspace, KeyCode::Delete][sym::pick(6)];
        let times = if matches!(key, KeyCode::Home | KeyCode::End) { 1 } else { 1 + sym::pick(n) };
        for _ in 0..times {
            f.apply_keycode_event(key, false);
            check_display(&f, true);
        }
    }
    sym::reach("moved");
}
