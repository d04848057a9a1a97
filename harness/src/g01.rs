//! areas and scrollbars
use crate::sym;
use termimad::*;

fn some_area() -> Area {
    let left = sym::u16();
    let top = sym::u16();
    let width = sym::u16();
    let height = sym::u16();
    // on a screen
    sym::assume(left as u32 + width as u32 <= 65535);
    sym::assume(top as u32 + height as u32 <= 65535);
    Area::new(left, top, width, height)
}

pub fn g01_contains() {
    let a = some_area();
    let x = sym::u16();
    let y = sym::u16();
    let inside = x >= a.left && (x - a.left) < a.width && y >= a.top && (y - a.top) < a.height;
    sym::check(a.contains(x, y) == inside, "contains");
    sym::check(a.right() - a.left == a.width && a.bottom() - a.top == a.height, "right and bottom");
    if inside {
        sym::reach("inside");
        sym::check(x < a.right() && y < a.bottom(), "before right and bottom");
    } else {
        sym::reach("outside");
    }
}

pub fn g01_max_width() {
    let a = some_area();
    let max = sym::u16();
    let mut b = a.clone();
    b.pad_for_max_width(max);
    sym::check(b.top == a.top && b.height == a.height, "same rows");
    if a.width <= max {
        sym::check(a == b, "unchanged");
        sym::reach("unchanged");
    } else {
        sym::check(b.width == max, "the width asked");
        sym::check(b.left >= a.left && b.right() <= a.right(), "inside");
        let l = (b.left - a.left) as i32;
        let r = (a.right() - b.right()) as i32;
        sym::check(l - r <= 1 && r - l <= 1, "centered");
        sym::reach("changed");
    }
    sym::observe(b.left as usize);
}

fn check_bar(bar: Option<(u16, u16)>, scroll: usize, content: usize, height: usize, top: usize) -> Option<(u16, u16)> {
    if content <= height {
        sym::check(bar.is_none(), "no scrollbar when the content fits");
        sym::reach("none");
        return None;
    }
    sym::check(bar.is_some(), "scrollbar when the content doesn't fit");
    let (a, b) = match bar {
        Some(p) => p,
        None => return None,
    };
    let first = top as u16;
    let last = (top + height - 1) as u16;
    sym::check(a <= b, "not empty");
    sym::check(a >= first && b <= last, "in the track");
    if height > 3 {
        sym::check((a == first) == (scroll == 0), "touches the top when not scrolled");
        sym::check((b == last) == (scroll + height == content), "touches the bottom when at the end");
    }
    sym::reach("some");
    sym::observe(a as usize);
    sym::observe(b as usize);
    bar
}
/// params: min height, max height, min content, max content, known content (1) or not (0)
pub fn g01_scrollbar() {
    sym::narrow();
    let height = sym::param(0) + sym::pick(sym::param(1) + 1 - sym::param(0));
    let (c0, c1) = (sym::param(2), sym::param(3));
    let content = if sym::param(4) == 1 { c0 + sym::pick(c1 + 1 - c0) } else { sym::urange(c0, c1) };
    let top = if sym::pick(2) == 0 { 0 } else { sym::urange(0, 60000) };
    let area = Area::new(3, top as u16, 10, height as u16);
    let max = if content <= height { 0 } else { content - height };
    let s = sym::urange(0, c1);
    sym::assume(s <= max);
    let p = check_bar(area.scrollbar(s, content), s, content, height, top);
    // the same function, called directly
    let direct: Option<(u16, u16)> = compute_scrollbar(s, content, height, top as u16);
    sym::check(direct == p, "same as compute_scrollbar");
    if s < max {
        let q = check_bar(area.scrollbar(s + 1, content), s + 1, content, height, top);
        if let (Some(p), Some(q)) = (p, q) {
            sym::check(p.0 <= q.0 && p.1 <= q.1, "moves with the scroll");
            sym::reach("moved");
        }
    }
}

/// params: heights, contents
pub fn g01_tall() {
    sym::narrow();
    let height = [256, 300, 700, 1000, 255, 20000, 65000][sym::pick(sym::param(0))];
    let content = [height + 1, height + 17, 3 * height, 1_000_003, 5 * height + 1][sym::pick(sym::param(1))];
    let area = Area::new(3, 0, 10, height as u16);
    let max = content - height;
    let s = sym::urange(0, 1_000_003);
    sym::assume(s <= max);
    let p = check_bar(area.scrollbar(s, content), s, content, height, 0);
    if s < max {
        let q = check_bar(area.scrollbar(s + 1, content), s + 1, content, height, 0);
        if let (Some(p), Some(q)) = (p, q) {
            sym::check(p.0 <= q.0 && p.1 <= q.1, "moves with the scroll");
            sym::reach("moved");
        }
    }
}
