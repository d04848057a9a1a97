//! selections of an input field
use crate::{i01::*, sym, util::*};
use termimad::crossterm::event::*;
use termimad::*;

fn word(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}
/// move the position as one of 8 keys does
fn key_move(m: &mut Model, k: usize, height: usize) {
    match k {
        0 => m.pos -= (m.pos > 0) as usize,
        1 => m.pos += (m.pos < m.text.len()) as usize,
        2 => {
            m.up();
        }
        3 => {
            m.down();
        }
        4 => m.pos = m.line_start(),
        5 => m.pos = m.line_end(),
        6 => {
            let (y, _) = m.yx(m.pos);
            if y > 0 {
                let col = m.col();
                for _ in 0..height.min(y) {
                    m.pos = m.line_start() - 1;
                }
                m.at_col(col);
            }
        }
        _ => {
            let (y, _) = m.yx(m.pos);
            let (last, _) = m.yx(m.text.len());
            if y < last {
                let col = m.col();
                for _ in 0..height.min(last - y) {
                    m.pos = m.line_end() + 1;
                }
                m.at_col(col);
            }
        }
    }
}
const KEYS: [KeyCode; 8] = [
    KeyCode::Left,
    KeyCode::Right,
    KeyCode::Up,
    KeyCode::Down,
    KeyCode::Home,
    KeyCode::End,
    KeyCode::PageUp,
    KeyCode::PageDown,
];
pub fn mouse(kind: MouseEventKind, x: usize, y: usize, modifiers: KeyModifiers) -> MouseEvent {
    MouseEvent { kind, column: x as u16, row: y as u16, modifiers }
}
/// the place of the text shown at a row and a column, before scrolling
pub fn place(m: &Model, row: usize, col: usize) -> usize {
    let mut p = Model { text: m.text.clone(), pos: 0 };
    for _ in 0..row {
        let e = p.line_end();
        if e == p.text.len() {
            break;
        }
        p.pos = e + 1;
    }
    p.at_col(col);
    p.pos
}
/// both included, maybe the end of the text
fn bounds(m: &Model, tail: Option<usize>) -> (usize, usize) {
    let t = tail.unwrap_or(m.pos);
    (t.min(m.pos), t.max(m.pos))
}
fn selected(m: &Model, tail: Option<usize>) -> Vec<char> {
    let (a, b) = bounds(m, tail);
    m.text[a..(b + 1).min(m.text.len())].to_vec()
}
fn remove_selected(m: &mut Model, tail: Option<usize>) {
    let (a, b) = bounds(m, tail);
    let n = (b + 1).min(m.text.len()) - a;
    for _ in 0..n {
        m.text.remove(a);
    }
    m.pos = a;
}
fn same(s: &str, v: &[char]) {
    let mut i = 0;
    for c in s.chars() {
        sym::check(i < v.len() && v[i] == c, "selected char");
        i += 1;
    }
    sym::check(i == v.len(), "whole selection");
}
fn check_selection(f: &mut InputField, m: &Model, tail: Option<usize>) {
    m.check(f);
    let wide = tail.map_or(false, |t| t != m.pos);
    sym::check(f.content().has_wide_selection() == wide, "has a selection");
    let (a, b) = bounds(m, tail);
    let r = f.content().selection();
    let (ay, ax) = m.yx(a);
    let (by, bx) = m.yx(b);
    sym::check(r.min.y == ay && r.min.x == ax, "start of the selection");
    sym::check(r.max.y == by && r.max.x == bx, "end of the selection");
    let s = f.copy_selection();
    same(&s, &selected(m, tail));
}
fn select(f: &mut InputField, m: &mut Model, tail: &mut Option<usize>, o: usize) {
    let area = f.area().clone();
    let height = area.height as usize;
    match o {
        0..=7 => {
            tail.get_or_insert(m.pos);
            f.apply_keycode_event(KEYS[o], true);
            key_move(m, o, height);
        }
        8 => {
            // unselect
            *tail = None;
            let k = sym::pick(8);
            f.apply_keycode_event(KEYS[k], false);
            key_move(m, k, height);
        }
        9 => {
            let r = f.select_word_around();
            let inside = m.pos < m.text.len() && word(m.text[m.pos]);
            sym::check(r == inside, "on a word");
            if inside {
                let mut a = m.pos;
                while a > 0 && word(m.text[a - 1]) {
                    a -= 1;
                }
                while m.pos + 1 < m.text.len() && word(m.text[m.pos + 1]) {
                    m.pos += 1;
                }
                *tail = Some(a);
            }
        }
        _ => {
            // drag
            let (dx, dy) = (sym::pick(area.width as usize), sym::pick(height));
            let scroll = f.scroll();
            let e = mouse(
                MouseEventKind::Drag(MouseButton::Left),
                area.left as usize + dx,
                area.top as usize + dy,
                KeyModifiers::NONE,
            );
            sym::check(f.apply_mouse_event(e, false), "used");
            tail.get_or_insert(m.pos);
            m.pos = place(m, scroll.y + dy, scroll.x + dx);
        }
    }
    check_selection(f, m, *tail);
}
/// params: classes, chars, width, height, selections, first, number of them, number of uses
pub fn i02_selection() {
    let (mut f, mut m) = field();
    let mut tail = None;
    for _ in 0..sym::param(4) {
        let o = sym::param(5) + sym::pick(sym::param(6));
        select(&mut f, &mut m, &mut tail, o);
    }
    let wide = tail.map_or(false, |t| t != m.pos);
    match sym::pick(sym::param(7)) {
        0 => {
            let v = selected(&m, tail);
            let s = f.cut_selection();
            same(&s, &v);
            remove_selected(&mut m, tail);
        }
        1 => {
            let c = plain_char(1);
            let mut s = String::new();
            s.push(c);
            s.push('\n');
            f.replace_selection(&s);
            if wide {
                remove_selected(&mut m, tail);
            }
            m.insert(c);
            m.insert('\n');
        }
        2 => {
            f.apply_keycode_event(KeyCode::Delete, false);
            remove_selected(&mut m, tail);
        }
        3 => {
            f.apply_keycode_event(KeyCode::Backspace, false);
            if wide {
                remove_selected(&mut m, tail);
            } else if m.pos > 0 {
                m.pos -= 1;
                m.text.remove(m.pos);
            }
        }
        4 => {
            let c = plain_char(1);
            f.apply_keycode_event(KeyCode::Char(c), sym::flag());
            if wide {
                remove_selected(&mut m, tail);
            }
            m.insert(c);
        }
        _ => {
            f.del_selection();
            remove_selected(&mut m, tail);
        }
    }
    check_selection(&mut f, &m, None);
    let c = plain_char(1);
    f.apply_keycode_event(KeyCode::Char(c), false);
    m.insert(c);
    check_selection(&mut f, &m, None);
    sym::reach("selected");
}
/// moves of the current line
/// params: classes, chars, width, height
pub fn i02_lines() {
    let (mut f, mut m) = field();
    let up = sym::flag();
    let (a, b) = (m.line_start(), m.line_end());
    let possible = if up { a > 0 } else { b < m.text.len() };
    let r = if up { f.move_current_line_up() } else { f.move_current_line_down() };
    sym::check(r == possible, "told whether it moved");
    if possible {
        let x = m.pos - a;
        // start of the first of both lines, of the second one, and end of it
        let (s, t, e) = if up {
            let p = Model { text: m.text.clone(), pos: a - 1 };
            (p.line_start(), a, b)
        } else {
            let p = Model { text: m.text.clone(), pos: b + 1 };
            (a, b + 1, p.line_end())
        };
        let mut v = m.text[..s].to_vec();
        v.extend_from_slice(&m.text[t..e]);
        v.push('\n');
        v.extend_from_slice(&m.text[s..t - 1]);
        v.extend_from_slice(&m.text[e..]);
        m.text = v;
        m.pos = if up { s + x } else { s + (e - t) + 1 + x };
    }
    check_selection(&mut f, &m, None);
    sym::reach("moved");
}

/// a text changed directly while there's a selection: the selection stays valid
/// params: classes, chars, width, height, selections, first operation, number of them, operations
pub fn i02_changed() {
    let (mut f, mut m) = field();
    let mut tail = None;
    for _ in 0..sym::param(4) {
        let o = sym::pick(10);
        select(&mut f, &mut m, &mut tail, o);
    }
    for _ in 0..sym::param(7) {
        // only direct calls: keys are in i02_selection
        let o = sym::param(5) + sym::pick(sym::param(6));
        if o == 22 {
            f.move_current_line_up();
        } else if o == 23 {
            f.move_current_line_down();
        } else {
            op(&mut f, &mut m, o, 1);
        }
        if o >= 22 {
            let p = f.content().cursor_pos();
            let mut pos = p.x;
            for l in &f.content().lines()[..p.y] {
                pos += l.chars.len() + 1;
            }
            m = Model { text: f.get_content().chars().collect(), pos };
        }
    }
    let r = f.content().selection();
    let n = f.content().line_count();
    sym::check(r.min.y <= r.max.y && r.max.y < n, "lines of the selection");
    sym::check(r.min.y < r.max.y || r.min.x <= r.max.x, "ordered");
    let (mut a, mut b) = (0, 0);
    for (y, l) in f.content().lines().iter().enumerate() {
        let len = l.chars.len();
        if y == r.min.y {
            sym::check(r.min.x <= len, "start in the line");
        }
        if y == r.max.y {
            sym::check(r.max.x <= len, "end in the line");
        }
        if y < r.min.y {
            a += len + 1;
        }
        if y < r.max.y {
            b += len + 1;
        }
    }
    a += r.min.x;
    b += r.max.x;
    let end = (b + 1).min(m.text.len());
    let s = f.cut_selection();
    same(&s, &m.text[a..end]);
    let mut text = m.text[..a].to_vec();
    text.extend_from_slice(&m.text[end..]);
    let m = Model { text, pos: a };
    check_selection(&mut f, &m, None);
    sym::reach("changed");
}
