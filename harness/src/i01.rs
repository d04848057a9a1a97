//! edition of an input field, against a text edited at a position
use crate::{sym, term::cw, util::*};
use termimad::crossterm::event::KeyCode;
use termimad::*;

#[derive(Clone)]
pub struct Model {
    pub text: Vec<char>,
    pub pos: usize,
}
pub fn col_width(c: char) -> usize {
    if c == '\t' {
        2
    } else {
        cw(c)
    }
}
impl Model {
    pub fn line_start(&self) -> usize {
        let mut i = self.pos;
        while i > 0 && self.text[i - 1] != '\n' {
            i -= 1;
        }
        i
    }
    pub fn line_end(&self) -> usize {
        let mut i = self.pos;
        while i < self.text.len() && self.text[i] != '\n' {
            i += 1;
        }
        i
    }
    pub fn insert(&mut self, c: char) {
        if c == '\r' || c == '\x08' {
            return;
        }
        self.text.insert(self.pos, c);
        self.pos += 1;
    }
    pub fn col(&self) -> usize {
        let mut n = 0;
        for i in self.line_start()..self.pos {
            n += col_width(self.text[i]);
        }
        n
    }
    /// put the cursor at the char of the current line covering the column, or at the end of the line
    pub fn at_col(&mut self, col: usize) {
        let (a, b) = (self.line_start(), self.line_end());
        let mut n = 0;
        for i in a..b {
            n += col_width(self.text[i]);
            if col < n {
                self.pos = i;
                return;
            }
        }
        self.pos = b;
    }
    pub fn up(&mut self) -> bool {
        let a = self.line_start();
        if a == 0 {
            return false;
        }
        let col = self.col();
        self.pos = a - 1;
        self.at_col(col);
        true
    }
    pub fn down(&mut self) -> bool {
        let b = self.line_end();
        if b == self.text.len() {
            return false;
        }
        let col = self.col();
        self.pos = b + 1;
        self.at_col(col);
        true
    }
    /// the y and x of the cursor
    pub fn yx(&self, i: usize) -> (usize, usize) {
        let (mut y, mut x) = (0, 0);
        for k in 0..i {
            if self.text[k] == '\n' {
                y += 1;
                x = 0;
            } else {
                x += 1;
            }
        }
        (y, x)
    }
    /// is that the text and the position of the content
    pub fn check(&self, f: &InputField) {
        self.check_text(f);
        let (y, x) = self.yx(self.pos);
        let p = f.content().cursor_pos();
        sym::check(p.y == y && p.x == x, "cursor");
    }
    pub fn check_text(&self, f: &InputField) {
        let mut i = 0;
        let lines = f.content().lines();
        sym::check(!lines.is_empty(), "at least a line");
        for (y, l) in lines.iter().enumerate() {
            if y > 0 {
                sym::check(i < self.text.len() && self.text[i] == '\n', "line break");
                i += 1;
            }
            for c in &l.chars {
                sym::check(i < self.text.len() && self.text[i] == *c, "char");
                i += 1;
            }
        }
        sym::check(i == self.text.len(), "whole text");
    }
}
/// any char: letters, wide chars, tabs, line breaks, control chars
pub fn any_char(classes: u32) -> char {
    let c = sym::chr(classes);
    sym::assume((c as u32) < 0x80 || plain(c));
    c
}
fn alnum(c: char) -> bool {
    c.is_alphanumeric()
}

/// a field with a text and the cursor anywhere
/// params 0: classes, 1: chars, 2: width, 3: height
pub fn field() -> (InputField, Model) {
    field_in(false)
}
pub fn field_in(password: bool) -> (InputField, Model) {
    // 64: with tabs
    let classes = sym::param(0) as u32 & 63;
    let kinds = 2 + (sym::param(0) & 64) / 64;
    let mut text = Vec::new();
    let mut s = String::new();
    for _ in 0..sym::param(1) {
        let c = match sym::pick(kinds) {
            0 => plain_char(classes),
            1 => '\n',
            _ => '\t',
        };
        text.push(c);
        s.push(c);
    }
    let mut field = InputField::new(Area::new(3, 4, sym::param(2) as u16, sym::param(3) as u16));
    field.password_mode = password;
    field.set_str(&s);
    let mut m = Model { pos: text.len(), text };
    m.check(&field);
    let k = sym::pick(m.text.len() + 1);
    field.move_to_start();
    for _ in 0..k {
        field.move_right();
    }
    m.pos = k;
    m.check(&field);
    (field, m)
}
pub fn op(f: &mut InputField, m: &mut Model, op: usize, classes: u32) {
    let before = m.clone();
    let mut r = true;
    let key = |f: &mut InputField, c| f.apply_keycode_event(c, false);
    let mut free = false;
    match op {
        0 | 22 => {
            let c = any_char(classes);
            if op == 0 {
                r = f.put_char(c);
            } else {
                // only chars are received as such
                sym::assume(c >= ' ');
                r = key(f, KeyCode::Char(c));
            }
            m.insert(c);
        }
        1 => {
            r = f.insert_new_line();
            m.insert('\n');
        }
        2 => {
            let (a, b) = (any_char(classes), any_char(1));
            let mut s = String::new();
            s.push(a);
            s.push(b);
            f.insert_str(&s);
            m.insert(a);
            m.insert(b);
        }
        3 | 23 => {
            r = if op == 3 { f.del_char_left() } else { key(f, KeyCode::Backspace) };
            if m.pos > 0 {
                m.pos -= 1;
                m.text.remove(m.pos);
                sym::check(r, "removed");
            }
        }
        4 | 24 => {
            r = if op == 4 { f.del_char_below() } else { key(f, KeyCode::Delete) };
            if m.pos < m.text.len() {
                m.text.remove(m.pos);
                sym::check(r, "removed");
            }
        }
        5 => {
            // the start of the word or the previous non alphanumeric chars
            r = f.del_word_left();
            let a = m.line_start();
            if m.pos > a {
                loop {
                    m.pos -= 1;
                    m.text.remove(m.pos);
                    if m.pos == a || !alnum(m.text[m.pos - 1]) {
                        break;
                    }
                }
            }
        }
        6 => {
            r = f.del_word_right();
            // some chars of the line removed at right
            let p = f.content().cursor_pos();
            let (y, x) = m.yx(m.pos);
            sym::check(p.y == y && (p.x == x || p.x + 1 == x), "the cursor stays there");
            let mut n = 0;
            for l in f.content().lines() {
                n += l.chars.len() + 1;
            }
            let n = n - 1;
            sym::check(n <= m.text.len() && m.text.len() - n <= m.line_end() - m.pos, "removed in the line");
            let removed = m.text.len() - n;
            for i in 0..removed {
                // no more than a word and the separator
                sym::check(i + 1 == removed || alnum(m.text[m.pos]), "only a word");
                m.text.remove(m.pos);
            }
            m.pos -= x - p.x;
            free = true;
        }
        7 | 25 => {
            r = if op == 7 { f.move_left() } else { key(f, KeyCode::Left) };
            m.pos -= (m.pos > 0) as usize;
            sym::check(r == (m.pos != before.pos), "told whether it moved");
            sym::check(before.pos > 0 || !r, "no move before the start");
        }
        8 | 26 => {
            sym::check(f.can_move_right() == (m.pos < m.text.len()), "can move right");
            sym::check(f.can_move_left() == (m.pos > 0), "can move left");
            r = if op == 8 { f.move_right() } else { key(f, KeyCode::Right) };
            m.pos += (m.pos < m.text.len()) as usize;
            sym::check(r == (m.pos != before.pos), "told whether it moved");
        }
        9 | 27 => {
            r = if op == 9 { f.move_up() } else { key(f, KeyCode::Up) };
            sym::check(r == m.up(), "told whether it moved");
        }
        10 | 28 => {
            r = if op == 10 { f.move_down() } else { key(f, KeyCode::Down) };
            sym::check(r == m.down(), "told whether it moved");
        }
        11 | 29 => {
            r = if op == 11 { f.move_to_line_start() } else { key(f, KeyCode::Home) };
            m.pos = m.line_start();
        }
        12 | 30 => {
            r = if op == 12 { f.move_to_line_end() } else { key(f, KeyCode::End) };
            m.pos = m.line_end();
        }
        13 => {
            r = f.move_to_start();
            m.pos = 0;
        }
        14 => {
            r = f.move_to_end();
            m.pos = m.text.len();
        }
        15 => {
            r = f.move_word_left();
            let a = m.line_start();
            if m.pos > a {
                m.pos -= 1;
                while m.pos > a && alnum(m.text[m.pos - 1]) {
                    m.pos -= 1;
                }
            }
        }
        16 => {
            r = f.move_word_right();
            let p = f.content().cursor_pos();
            let (y, x) = m.yx(m.pos);
            let len = m.line_end() - m.line_start();
            sym::check(p.y == y && (p.x > x || x == len) && p.x <= len, "moved right");
            if p.x > x {
                for i in x + 2..p.x + 1 {
                    sym::check(i >= len || alnum(m.text[m.line_start() + i]) || i == p.x + 1, "no word jumped over");
                }
                m.pos += p.x - x;
            }
        }
        17 => {
            f.clear();
            m.text.clear();
            m.pos = 0;
        }
        18 => {
            // the cursor isn't moved when the text is the same
            let s = f.get_content();
            f.set_str(&s);
            sym::check(f.is_content(&s), "same text");
        }
        19 | 31 => {
            let n = f.area().height as usize;
            r = if op == 19 { f.page_up() } else { key(f, KeyCode::PageUp) };
            let col = m.col();
            let (y, _) = m.yx(m.pos);
            sym::check(r == (y > 0), "told whether it moved");
            for _ in 0..n.min(y) {
                m.pos = m.line_start() - 1;
            }
            if y > 0 {
                m.at_col(col);
            }
        }
        20 | 32 => {
            let n = f.area().height as usize;
            r = if op == 20 { f.page_down() } else { key(f, KeyCode::PageDown) };
            let col = m.col();
            let (y, _) = m.yx(m.pos);
            let (last, _) = m.yx(m.text.len());
            sym::check(r == (y < last), "told whether it moved");
            if y < last {
                for _ in 0..n.min(last - y) {
                    m.pos = m.line_end() + 1;
                }
                m.at_col(col);
            }
        }
        21 => {
            // another text
            let c = any_char(classes);
            let mut s = String::new();
            s.push('b');
            s.push(c);
            f.set_str(&s);
            let same = before.text.len() == 2 && before.text[0] == 'b' && before.text[1] == c;
            sym::assume(c != '\r' && c != '\x08');
            if !same {
                m.text = vec!['b', c];
                m.pos = 2;
            }
        }
        33 => {
            r = f.apply_key_combination(InputField::ENTER);
            sym::check(!r, "enter isn't a new line");
        }
        _ => {
            f.new_line_on(InputField::ALT_ENTER);
            r = f.apply_key_combination(InputField::ALT_ENTER);
            sym::check(r, "new line");
            m.insert('\n');
        }
    }
    m.check(f);
    sym::check(f.is_empty() == m.text.is_empty(), "empty");
    if !r && !free {
        before.check(f);
    }
}
/// params: classes, chars, width, height, operations, first operation, number of operations, classes of the inserted chars
pub fn i01_edit() {
    let (mut f, mut m) = field();
    let mut s = String::new();
    for c in &m.text {
        s.push(*c);
    }
    sym::check(f.is_content(&s), "is_content");
    sym::check(f.get_content() == s, "get_content");
    for _ in 0..sym::param(4) {
        let o = sym::param(5) + sym::pick(sym::param(6));
        op(&mut f, &mut m, o, sym::param(7) as u32);
    }
    sym::reach("edited");
}
