//! questions
use crate::{sym, term::Term, util::*};
use std::io::Write;
use termimad::*;

/// a char which may be typed: no end of line, no control char, spaces and wide chars included
fn typed(classes: u32) -> char {
    if sym::pick(3) == 0 {
        return if sym::pick(2) == 0 { ' ' } else { '\t' };
    }
    plain_char(classes)
}
/// the line without its trailing whitespace
fn trimmed(line: &[char]) -> usize {
    let mut n = line.len();
    while n > 0 && line[n - 1].is_whitespace() {
        n -= 1;
    }
    n
}
fn same(a: &str, b: &[char]) -> bool {
    let v: Vec<char> = a.chars().collect();
    if v.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..v.len() {
        ok &= v[i] == b[i];
    }
    ok
}
/// params: classes, chars of the first key, max chars of a line, lines, with texts
pub fn q01_ask() {
    let classes = sym::param(0) as u32;
    let key = plain_string(sym::param(1), classes).0;
    let mut q = Question::new("ask *it*");
    if sym::param(4) == 0 {
        q.md = None;
    }
    q.add_answer(&key, "**first**");
    q.add_answer('n', "second");
    q.add_answer(12, "third");
    let default = match sym::pick(3) {
        0 => None,
        1 => Some("n".to_string()),
        _ => Some("other thing ".to_string()),
    };
    if let Some(d) = &default {
        q.set_default(d);
    }
    // an exotic default isn't a key
    let exotic = match &default {
        None => false,
        Some(d) => !(key == *d || d == "n"),
    };
    sym::check(q.has_exotic_default() == exotic, "exotic default");
    let mut lines: Vec<Vec<char>> = Vec::new();
    let mut bytes = String::new();
    for i in 0..sym::param(3) {
        let mut line = Vec::new();
        for _ in 0..sym::pick(sym::param(2) + 1) {
            let c = typed(classes);
            bytes.push(c);
            line.push(c);
        }
        // the last line may have no end
        match sym::pick(if i + 1 == sym::param(3) { 3 } else { 2 }) {
            0 => bytes.push('\n'),
            1 => bytes.push_str("\r\n"),
            _ if line.is_empty() => continue,
            _ => {}
        }
        lines.push(line);
    }
    sym::type_in(bytes.as_bytes());
    let mut expected = None;
    let mut refused = 0;
    for l in &lines {
        let n = trimmed(l);
        if n == 0 {
            if let Some(d) = &default {
                expected = Some(d.clone());
                break;
            }
        }
        let l = &l[..n];
        let s: String = l.iter().collect();
        if same(&key, l) || same("n", l) || same("12", l) {
            expected = Some(s);
            break;
        }
        refused += 1;
    }
    let skin = MadSkin::no_style();
    let r = q.ask(&skin);
    let out = sym::stdout();
    match (r, expected) {
        (Ok(r), Some(e)) => {
            sym::check(r == e, "the answer of the first line which qualifies");
            sym::reach("answered");
        }
        (Ok(r), None) => {
            // the end of the input may be taken as a blank line
            sym::check(default == Some(r.clone()) || (r.is_empty() && key.is_empty()), "only a default at the end of the input");
            sym::reach("default at end");
        }
        (Err(_), e) => {
            sym::check(e.is_none() && default.is_none() && !key.is_empty(), "no error as long as there's an answer");
            sym::reach("end of input");
        }
    }
    // the question and the answers
    let mut t = Term::new();
    t.write_all(&out).unwrap();
    let mut e: Vec<char> = Vec::new();
    if sym::param(4) != 0 {
        e.extend("ask it".chars());
    }
    e.push('[');
    e.extend(key.chars());
    e.extend("] first[n] second[12] third".chars());
    sym::check(t.chars.len() >= e.len(), "the question and the answers are printed");
    if t.chars.len() >= e.len() {
        for i in 0..e.len() {
            sym::check(t.chars[i] == e[i], "the question and the answers are printed in order");
        }
    }
    // the refused lines
    sym::check(t.newlines == refused + 3 + sym::param(4), "the user is told when a line isn't understood");
    sym::reach("asked");
}
/// the macro runs the block of the answer
/// params: classes, chars of a line, lines
pub fn q01_macro() {
    let classes = sym::param(0) as u32;
    let mut bytes = String::new();
    let mut expected = 0;
    let with_default = sym::pick(2) == 1;
    for _ in 0..sym::param(2) {
        let mut line = Vec::new();
        for _ in 0..sym::pick(sym::param(1) + 1) {
            let c = typed(classes);
            bytes.push(c);
            line.push(c);
        }
        bytes.push('\n');
        let l = &line[..trimmed(&line)];
        if expected == 0 {
            expected = if l.is_empty() && with_default {
                2
            } else if same("y", l) {
                1
            } else if same("n", l) {
                2
            } else if same("ye", l) {
                3
            } else {
                0
            };
        }
    }
    // so that there's an answer
    bytes.push_str("ye\n");
    if expected == 0 {
        expected = 3;
    }
    sym::type_in(bytes.as_bytes());
    let skin = MadSkin::no_style();
    let skin = &skin;
    let r = if with_default {
        ask!(skin, "really ?", ('n') {
            ('y', "**Y**es") => { 1 }
            ('n', "**N**o") => { 2 }
            ("ye", "well") => { 3 }
        })
    } else {
        ask!(skin, "really ?", {
            ('y', "**Y**es") => { 1 }
            ('n', "**N**o") => { 2 }
            ("ye", "well") => { 3 }
        })
    };
    sym::check(r == expected, "the block of the answer");
    sym::reach("answered");
}
