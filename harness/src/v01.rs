//! scrolling of texts
use crate::sym;
use termimad::crossterm::event::{KeyCode, KeyEvent, KeyModifiers};
use termimad::*;

fn lines(n: usize) -> Vec<FmtLine<'static>> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(FmtLine::HorizontalRule);
    }
    v
}
fn max_scroll(content: usize, height: usize) -> usize {
    if content > height {
        content - height
    } else {
        0
    }
}
fn moved(scroll: usize, delta: i64, max: usize) -> usize {
    let s = scroll as i64 + delta;
    if s < 0 {
        0
    } else if s > max as i64 {
        max
    } else {
        s as usize
    }
}
const KEYS: [KeyCode; 7] = [
    KeyCode::Up, KeyCode::Down, KeyCode::PageUp, KeyCode::PageDown, KeyCode::Home, KeyCode::Char('j'), KeyCode::Enter,
];
fn key_delta(i: usize, height: usize) -> i64 {
    match i {
        0 => -1,
        1 => 1,
        2 => -(height as i64),
        3 => height as i64,
        _ => 0,
    }
}
/// an operation on a view and the move it asks for
fn apply(view: &mut TextView<'_, '_>, op: usize, height: usize, content: usize, big: bool, any_pages: bool) {
    let max = max_scroll(content, height);
    let s = view.scroll;
    match op {
        0 => {
            let n = if big { sym::range(0, 1 << 62) as usize } else { sym::urange(0, content + 2) };
            let r = view.set_scroll(n);
            sym::check(r == view.scroll, "actual scroll returned");
            sym::check(r == if n < max { n } else { max }, "set");
        }
        1 => {
            let n = sym::u32() as i32;
            view.try_scroll_lines(n);
            sym::check(view.scroll == moved(s, n as i64, max), "lines");
        }
        2 => {
            let n = if any_pages {
                sym::u32() as i32
            } else {
                match sym::pick(6) {
                    0 => i32::MIN,
                    1 => i32::MAX,
                    2 => i32::MAX / 3,
                    3 => -70000,
                    4 => 70000,
                    _ => sym::pick(11) as i32 - 5,
                }
            };
            view.try_scroll_pages(n);
            sym::check(view.scroll == moved(s, n as i64 * height as i64, max), "pages");
        }
        3..=6 => {
            let r = match op {
                3 => view.line_up(),
                4 => view.line_down(),
                5 => view.page_up(),
                _ => view.page_down(),
            };
            let d = key_delta(op - 3, height);
            sym::check(view.scroll == moved(s, d, max), "line or page");
            sym::check(r == (view.scroll != s), "change reported");
        }
        _ => {
            let i = sym::pick(KEYS.len());
            let ctrl = sym::pick(2) == 1;
            let key = KeyEvent::new(KEYS[i], if ctrl { KeyModifiers::CONTROL } else { KeyModifiers::NONE });
            let r = if op == 7 { view.apply_key_event(key) } else { view.apply_key_combination(key) };
            let d = if ctrl { 0 } else { key_delta(i, height) };
            sym::check(view.scroll == moved(s, d, max), "key");
            sym::check(r == (view.scroll != s), "change reported for a key");
        }
    }
    sym::check(view.scroll <= max, "scroll in bounds");
    if view.scroll != s {
        sym::reach("scrolled");
    } else {
        sym::reach("not scrolled");
    }
    sym::observe(view.scroll);
}
/// one operation from any valid state
/// params: max content, height bound (excluded) or 0 for the heights 1, 2, 3, 24, 65535,
/// any number of pages (1) or some of them (0)
pub fn v01_step() {
    sym::narrow();
    let max_content = sym::param(0);
    let height = if sym::param(1) == 0 {
        [1, 2, 3, 24, 65535][sym::pick(5)]
    } else {
        1 + sym::pick(sym::param(1) - 1)
    };
    let skin = MadSkin::no_style();
    let mut v = lines(max_content);
    let content = sym::urange(0, max_content);
    // (the lines don't own memory)
    unsafe { v.set_len(content) };
    let text = FmtText { skin: &skin, lines: v, width: Some(10) };
    let area = Area::new(0, 0, 10, height as u16);
    let mut view = TextView::from(&area, &text);
    sym::check(view.scroll == 0 && view.content_height() == content, "new view");
    let s = sym::urange(0, max_content);
    sym::assume(s <= max_scroll(content, height));
    view.scroll = s;
    let op = sym::pick(9);
    apply(&mut view, op, height, content, true, sym::param(2) == 1);
    std::mem::forget(text);
}
/// several operations
/// params: operations, max content, max height
pub fn v01_history() {
    let content = sym::pick(sym::param(1) + 1);
    let height = 1 + sym::pick(sym::param(2));
    let skin = MadSkin::no_style();
    let text = FmtText { skin: &skin, lines: lines(content), width: Some(10) };
    let area = Area::new(0, 0, 10, height as u16);
    let mut view = TextView::from(&area, &text);
    for _ in 0..sym::param(0) {
        let op = sym::pick(8);
        apply(&mut view, op, height, content, false, false);
        view.scroll = sym::concretize(view.scroll);
    }
    sym::reach("done");
}
/// pages which may be fractional
pub fn v01_pages() {
    let height = 1 + sym::pick(sym::param(1));
    let skin = MadSkin::no_style();
    let content = sym::param(0);
    let text = FmtText { skin: &skin, lines: lines(content), width: Some(10) };
    let area = Area::new(0, 0, 10, height as u16);
    let mut view = TextView::from(&area, &text);
    let max = max_scroll(content, height);
    let s = sym::pick(max + 1);
    view.scroll = s;
    // an amount in eighths of a page
    let n = sym::range(0, 2000) as i64 - 1000;
    view.try_scroll_pages(n as f64 / 8.0);
    let m = n * height as i64;
    // rounded away from zero
    let d = if m < 0 { -((7 - m) >> 3) } else { (m + 7) >> 3 };
    sym::check(view.scroll == moved(s, d, max), "fractional pages");
    sym::reach("pages");
    sym::observe(view.scroll);
}
const MD: &str = "aa bb cc dd ee ff\n# t\n* gg hh\nii\n\njj kk ll mm\nnn";
/// a view owning its text
/// params: operations
pub fn v01_mad_view() {
    let skin = MadSkin::no_style();
    let (mut width, mut height) = (8, 1 + sym::pick(3) * 3);
    let count = |width: usize| skin.area_text(MD, &Area::new(0, 0, width as u16, 1)).lines.len();
    let mut content = count(width);
    let mut view = MadView::from(MD.to_string(), Area::new(0, 0, 8, height as u16), skin.clone());
    sym::check(view.scroll == 0, "new view");
    for _ in 0..sym::param(0) {
        let max = max_scroll(content, height);
        let s = view.scroll;
        match sym::pick(4) {
            0 => {
                let n = sym::u32() as i32;
                view.try_scroll_lines(n);
                sym::check(view.scroll == moved(s, n as i64, max), "lines");
            }
            1 => {
                let n = sym::u32() as i32;
                view.try_scroll_pages(n);
                sym::check(view.scroll == moved(s, n as i64 * height as i64, max), "pages");
            }
            2 => {
                let i = sym::pick(KEYS.len());
                let key = KeyEvent::new(KEYS[i], KeyModifiers::NONE);
                let r = if sym::pick(2) == 0 { view.apply_key_event(key) } else { view.apply_key_combination(key) };
                sym::check(view.scroll == moved(s, key_delta(i, height), max), "key");
                sym::check(r == (view.scroll != s), "change reported for a key");
            }
            _ => {
                let old = (width, height);
                width = [8, 5, 30][sym::pick(3)];
                height = [1, 4, 6, 12][sym::pick(4)];
                content = count(width);
                let area = Area::new(sym::u16(), sym::u16(), width as u16, height as u16);
                view.resize(&area);
                if old.0 == width && s <= max_scroll(content, height) {
                    sym::check(view.scroll == s, "scroll kept when possible");
                }
                // then, some scroll operation
                let s = view.scroll;
                match sym::pick(3) {
                    0 => {
                        view.try_scroll_lines(-1);
                    }
                    1 => {
                        let key = KeyEvent::new(KeyCode::Up, KeyModifiers::NONE);
                        let r = view.apply_key_event(key);
                        sym::check(r == (view.scroll != s), "change reported after a resize");
                    }
                    _ => {
                        let key = KeyEvent::new(KeyCode::PageDown, KeyModifiers::NONE);
                        let r = view.apply_key_event(key);
                        sym::check(r == (view.scroll != s), "change reported after a resize");
                    }
                }
                sym::check(view.scroll <= max_scroll(content, height), "in bounds after a resize");
                sym::reach("resized");
            }
        }
        view.scroll = sym::concretize(view.scroll);
        sym::check(view.scroll <= max_scroll(content, height), "scroll in bounds");
    }
    sym::reach("done");
    sym::observe(view.scroll);
}
