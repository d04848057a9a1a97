//! mouse events in an input field
use crate::{i01::*, i02::*, i03::check_display, sym, util::*};
use termimad::crossterm::event::*;
use termimad::*;

fn word(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}
fn send(f: &mut InputField, e: MouseEvent, double: bool) -> bool {
    match sym::pick(3) {
        0 => f.apply_mouse_event(e, double),
        1 => f.apply_event(&Event::Mouse(e), double),
        _ => {
            let mut t = TimedEvent::new(Event::Mouse(e));
            t.double_click = double;
            f.apply_timed_event(&t)
        }
    }
}
fn check(f: &mut InputField, m: &Model, tail: Option<usize>) {
    m.check(f);
    let t = tail.unwrap_or(m.pos);
    let (a, b) = (m.yx(t.min(m.pos)), m.yx(t.max(m.pos)));
    let r = f.content().selection();
    sym::check(r.min.y == a.0 && r.min.x == a.1, "start of the selection");
    sym::check(r.max.y == b.0 && r.max.x == b.1, "end of the selection");
}
/// one event, sent anywhere
fn event(f: &mut InputField, m: &mut Model, tail: &mut Option<usize>, o: usize) {
    let area = f.area().clone();
    let (w, h) = (area.width as usize, area.height as usize);
    let inside = sym::flag();
    let (dx, dy) = if inside { (sym::pick(w), sym::pick(h)) } else { (0, 0) };
    let (x, y) = if inside {
        (3 + dx, 4 + dy)
    } else {
        let (x, y) = (sym::u16() as usize, sym::u16() as usize);
        sym::assume(x < 3 || x >= 3 + w || y < 4 || y >= 4 + h);
        (x, y)
    };
    let scroll = f.scroll();
    let focused = f.focused();
    let mut there = place(m, scroll.y + dy, scroll.x + dx);
    if f.password_mode {
        // stars of one column
        let p = Model { text: m.text.clone(), pos: place(m, scroll.y + dy, 0) };
        there = (p.pos + scroll.x + dx).min(p.line_end());
    }
    let none = KeyModifiers::NONE;
    let max_scroll = f.content().line_count().saturating_sub(h);
    let mut wheel = 0;
    let mut focusing = false;
    let r = match o {
        0 => {
            if inside && focused {
                // a click doesn't change the other end of the selection
                m.pos = there;
            }
            focusing = true;
            f.apply_click_event(x as u16, y as u16)
        }
        1 => {
            if inside && focused {
                *tail = None;
                m.pos = there;
            }
            focusing = true;
            send(f, mouse(MouseEventKind::Down(MouseButton::Left), x, y, none), sym::flag())
        }
        2 => {
            if inside && focused {
                tail.get_or_insert(m.pos);
                m.pos = there;
            }
            focusing = true;
            send(f, mouse(MouseEventKind::Down(MouseButton::Left), x, y, KeyModifiers::SHIFT), false)
        }
        3 => {
            if inside && focused {
                tail.get_or_insert(m.pos);
                m.pos = there;
            }
            send(f, mouse(MouseEventKind::Drag(MouseButton::Left), x, y, none), false)
        }
        4 => {
            // end of a double click
            if inside && focused {
                m.pos = there;
                if m.pos < m.text.len() && word(m.text[m.pos]) {
                    let mut a = m.pos;
                    while a > 0 && word(m.text[a - 1]) {
                        a -= 1;
                    }
                    while m.pos + 1 < m.text.len() && word(m.text[m.pos + 1]) {
                        m.pos += 1;
                    }
                    *tail = Some(a);
                }
            }
            send(f, mouse(MouseEventKind::Up(MouseButton::Left), x, y, none), true)
        }
        5 => send(f, mouse(MouseEventKind::Up(MouseButton::Left), x, y, none), false),
        6 => send(f, mouse(MouseEventKind::Down(MouseButton::Right), x, y, none), false),
        7 => send(f, mouse(MouseEventKind::Moved, x, y, none), sym::flag()),
        8 => {
            wheel = 1;
            send(f, mouse(MouseEventKind::ScrollDown, x, y, none), false)
        }
        _ => {
            wheel = 2;
            send(f, mouse(MouseEventKind::ScrollUp, x, y, none), false)
        }
    };
    sym::check(r == inside, "used when in the area");
    sym::check(f.focused() == (focused || focusing && inside), "focus");
    check(f, m, *tail);
    if wheel > 0 {
        let mut expected = scroll.y;
        if inside && focused {
            if wheel == 1 && scroll.y < max_scroll {
                expected += 1;
            } else if wheel == 2 && scroll.y > 0 {
                expected -= 1;
            }
        }
        sym::check(f.scroll().y == expected && f.scroll().x == scroll.x, "scrolled by a line");
    } else if !inside || (focused && o >= 5) {
        sym::check(f.scroll() == scroll, "not scrolled");
    }
}
/// params: classes, chars, width, height, events, first kind, number of kinds, first keys, password
pub fn i04_mouse() {
    let (mut f, mut m) = field_in(sym::param(8) == 1);
    let mut tail = None;
    if sym::param(7) > 0 {
        // another scroll
        for _ in 0..sym::pick(sym::param(7)) {
            f.scroll_up();
        }
    }
    if sym::pick(2) == 0 {
        f.set_focus(false);
    }
    for _ in 0..sym::param(4) {
        let o = sym::param(5) + sym::pick(sym::param(6));
        event(&mut f, &mut m, &mut tail, o);
    }
    check_display(&f, false);
    sym::reach("clicked");
}
/// the char displayed at the clicked cell gets the cursor
/// params: classes, chars, width, height
pub fn i04_cell() {
    let (mut f, _) = field();
    let (w, h) = (sym::param(2), sym::param(3));
    let mut t = crate::term::Term::new();
    f.display_on(&mut t).unwrap();
    let (dx, dy) = (sym::pick(w), sym::pick(h));
    let has_scrollbar = f.content().line_count() > h;
    let (x, y) = (3 + dx, 4 + dy);
    sym::check(f.apply_click_event(x as u16, y as u16), "used");
    let p = f.content().cursor_pos();
    let line = &f.content().lines()[p.y];
    for c in &t.cells {
        if c.y == y && c.x <= x && c.x + c.w > x && c.c != '…' && !(has_scrollbar && dx + 1 == w) {
            if c.c != ' ' {
                sym::check(p.x < line.chars.len() && line.chars[p.x] == c.c, "the char of the cell");
            }
        }
    }
    sym::reach("cell");
}
/// an input field without focus ignores the keys
/// params: classes, chars, width, height
pub fn i04_unfocused() {
    let (mut f, m) = field();
    f.set_focus(false);
    let codes = [
        KeyCode::Char('a'),
        KeyCode::Backspace,
        KeyCode::Delete,
        KeyCode::Left,
        KeyCode::Up,
        KeyCode::Home,
        KeyCode::Enter,
    ];
    let code = codes[sym::pick(7)];
    let modifiers = [KeyModifiers::NONE, KeyModifiers::SHIFT, KeyModifiers::ALT][sym::pick(3)];
    f.new_line_on(InputField::ENTER);
    let key = KeyEvent::new(code, modifiers);
    let r = match sym::pick(3) {
        0 => f.apply_event(&Event::Key(key), false),
        1 => f.apply_key_event(key),
        _ => f.apply_timed_event(&TimedEvent::new(Event::Key(key))),
    };
    sym::check(!r, "unused");
    m.check(&f);
    sym::reach("unfocused");
}
