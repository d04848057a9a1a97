//! textual forms of the elements of a skin
use crate::{sym, util::*};
use termimad::crossterm::style::{Attribute, Attributes, Color};
use termimad::*;

/// builds the regular expressions before anything is unknown
fn warm_up() {
    let _ = parse_style_tokens("zz(1)");
    let _ = parse_color("zz");
    let _ = parse_style_token("zz");
}
/// all the colors with a name, but Reset (no style uses it), and Black and White (whose
/// names are documented as the ones of two ANSI colors)
const NAMED: [Color; 14] = [
    Color::DarkGrey,
    Color::Red,
    Color::DarkRed,
    Color::Green,
    Color::DarkGreen,
    Color::Yellow,
    Color::DarkYellow,
    Color::Blue,
    Color::DarkBlue,
    Color::Magenta,
    Color::DarkMagenta,
    Color::Cyan,
    Color::DarkCyan,
    Color::Grey,
];
const ATTRS: [Attribute; 10] = [
    Attribute::Bold,
    Attribute::Dim,
    Attribute::Italic,
    Attribute::Underlined,
    Attribute::SlowBlink,
    Attribute::RapidBlink,
    Attribute::Reverse,
    Attribute::CrossedOut,
    Attribute::Encircled,
    Attribute::OverLined,
];
/// a color of any of the kinds in the mask
fn color(kinds: usize) -> Option<Color> {
    let mut k = Vec::new();
    for i in 0..6 {
        if kinds >> i & 1 == 1 {
            k.push(i);
        }
    }
    match k[sym::pick(k.len())] {
        0 => None,
        1 => Some(NAMED[sym::pick(14)]),
        2 => Some(Color::AnsiValue(sym::u8())),
        3 => Some(Color::Rgb { r: sym::u8(), g: sym::u8(), b: sym::u8() }),
        4 => Some(NAMED[[1, 2, 8][sym::pick(3)]]),
        _ => Some(Color::Rgb { r: 0, g: sym::u8(), b: 255 }),
    }
}
fn attributes(first: usize, n: usize) -> Attributes {
    let mut a = Attributes::default();
    for i in first..first + n {
        if sym::pick(2) == 1 {
            a.set(ATTRS[i]);
        }
    }
    a
}
/// params: kinds of colors
pub fn r04_color() {
    warm_up();
    let c = color(sym::param(0)).unwrap();
    let s = StyleToken::Color(c).to_string();
    match parse_color(&s) {
        Ok(p) => sym::check(p == c, "same color"),
        Err(_) => sym::check(false, "color read"),
    }
    sym::reach("color");
}
/// params: what's around the chars, classes, chars, whether several tokens are looked for
pub fn r04_any() {
    warm_up();
    let (before, after) = [
        ("", ""),
        ("rgb(", ")"),
        ("rgb(1,2,", ")"),
        ("gray(", ")"),
        ("ansi(", ")"),
        ("#", ""),
        ("red", "bold"),
        ("1 ", " 2"),
    ][sym::param(0)];
    let mut s = before.to_string();
    for _ in 0..sym::param(2) {
        s.push(sym::chr(sym::param(1) as u32));
    }
    s.push_str(after);
    let token = parse_style_token(&s);
    let color = parse_color(&s);
    sym::observe(parse_attribute(&s).is_ok() as usize);
    sym::observe(parse_align(&s).is_ok() as usize);
    // what's read has a meaning
    if let Ok(t) = token {
        match parse_style_token(&t.to_string()) {
            Ok(r) => sym::check(r == t, "same token"),
            Err(_) => sym::check(false, "written token read"),
        }
    }
    if let Ok(c) = color {
        sym::check(matches!(parse_color(&StyleToken::Color(c).to_string()), Ok(r) if r == c), "same color");
    }
    if sym::param(3) == 0 {
        sym::reach("token parsed");
        return;
    }
    if let Ok(tokens) = parse_style_tokens(&s) {
        let read = parse_style_tokens(&style_tokens_to_string(&tokens));
        sym::check(matches!(read, Ok(r) if r == tokens), "same tokens");
        sym::observe(tokens.len());
    } else {
        sym::check(parse_compound_style(&s).is_err() && parse_line_style(&s).is_err() && parse_styled_char(&s, '?').is_err(), "errors");
    }
    sym::reach("parsed");
}
/// documented forms of the colors
pub fn r04_forms() {
    warm_up();
    let any_case = |s: &str| {
        let mut t = String::new();
        for c in s.chars() {
            t.push(if c.is_ascii_lowercase() && sym::flag() { c.to_ascii_uppercase() } else { c });
        }
        t
    };
    // hexadecimal digit
    let digit = || {
        let d = sym::range(0, 15) as u8;
        let upper = sym::flag();
        (d, if d < 10 { b'0' + d } else if upper { b'A' + d - 10 } else { b'a' + d - 10 } as char)
    };
    match sym::pick(5) {
        0 => {
            let i = sym::pick(16);
            let names = [
                "darkgrey", "red", "darkred", "green", "darkgreen", "yellow", "darkyellow", "blue", "darkblue", "magenta",
                "darkmagenta", "cyan", "darkcyan", "grey", "black", "white",
            ];
            let color = match i {
                14 => Color::AnsiValue(16),
                15 => Color::AnsiValue(231),
                _ => NAMED[i],
            };
            sym::check(matches!(parse_color(&any_case(names[i])), Ok(c) if c == color), "name");
        }
        1 => {
            let level = sym::u8();
            let name = any_case(["gray", "grey", "grayscale"][sym::pick(3)]);
            match parse_color(&format!("{name}({level})")) {
                Ok(c) => sym::check(level < 24 && c == Color::AnsiValue(232 + level) && c == gray(level), "gray"),
                Err(ParseColorError::InvalidGreyLevel { level: l }) => sym::check(level > 23 && level == l, "too high gray"),
                _ => sym::check(false, "gray read"),
            }
        }
        2 => {
            let (d, c) = ([digit(), digit(), digit()], String::from("#"));
            let s = d.iter().fold(c, |mut s, d| {
                s.push(d.1);
                s
            });
            let want = Color::Rgb { r: d[0].0 * 17, g: d[1].0 * 17, b: d[2].0 * 17 };
            sym::check(matches!(parse_color(&s), Ok(c) if c == want), "3 digits");
        }
        3 => {
            let d = [digit(), digit(), digit(), digit(), digit(), digit()];
            let mut s = String::from("#");
            for d in &d {
                s.push(d.1);
            }
            let want = Color::Rgb { r: d[0].0 * 16 + d[1].0, g: d[2].0 * 16 + d[3].0, b: d[4].0 * 16 + d[5].0 };
            sym::check(matches!(parse_color(&s), Ok(c) if c == want), "6 digits");
        }
        _ => {
            let (r, g, b) = (sym::u8(), sym::u8(), sym::u8());
            let sep = [",", ", ", ",  "][sym::pick(3)];
            let s = format!("{}({r}{sep}{g}{sep}{b})", any_case("rgb"));
            sym::check(matches!(parse_color(&s), Ok(c) if c == Color::Rgb { r, g, b }), "rgb");
        }
    }
    sym::reach("form");
}
/// the text of a token is read as this token
pub fn r04_token() {
    warm_up();
    let token = match sym::pick(5) {
        0 => StyleToken::Attribute(ATTRS[sym::pick(10)]),
        1 => StyleToken::Align([Alignment::Left, Alignment::Right, Alignment::Center][sym::pick(3)]),
        2 => StyleToken::Dimension(dimension(sym::param(1))),
        3 => StyleToken::Char(marker(sym::param(0))),
        _ => StyleToken::None,
    };
    match parse_style_token(&token.to_string()) {
        Ok(t) => sym::check(t == token, "same token"),
        Err(_) => sym::check(false, "token read"),
    }
    sym::reach("token");
}
/// a margin, in one slice of all the possible ones
fn dimension(slices: usize) -> u16 {
    let i = sym::pick(slices);
    // the last slice, then the first ones
    let lo = if i == 0 { 63000 } else { (i - 1) * 3000 };
    let hi = if i == 0 { 65535 } else { lo + 2999 };
    sym::urange(lo, hi) as u16
}
/// a char which may be one of a skin, and isn't taken for something else
fn marker(classes: usize) -> char {
    if classes == 0 {
        return ['▐', 'x'][sym::pick(2)];
    }
    let c = sym::chr(classes as u32);
    sym::assume(!c.is_whitespace() && !c.is_ascii_digit() && c != '(' && c != ')');
    c
}
fn compound_style(kinds: usize, first: usize, n: usize) -> CompoundStyle {
    CompoundStyle::new(color(kinds | 1), color(kinds | 1), attributes(first, n))
}
/// params: kinds of colors, first attribute, attributes
pub fn r04_compound() {
    warm_up();
    let style = compound_style(sym::param(0), sym::param(1), sym::param(2));
    match parse_compound_style(&style.to_style_tokens_string()) {
        Ok(s) => sym::check(s == style, "same style"),
        Err(_) => sym::check(false, "style read"),
    }
    let mut tokens = Vec::new();
    style.push_style_tokens(&mut tokens);
    let mut written = Vec::new();
    write_style_tokens(&mut written, &tokens).unwrap();
    match parse_style_tokens(&String::from_utf8(written).unwrap()) {
        Ok(t) => sym::check(t == tokens, "same written tokens"),
        Err(_) => sym::check(false, "written tokens read"),
    }
    match parse_style_tokens(&style_tokens_to_string(&tokens)) {
        Ok(t) => sym::check(t == tokens, "same tokens"),
        Err(_) => sym::check(false, "tokens read"),
    }
    sym::reach("compound style");
}
/// params: kinds of colors, first attribute, attributes
pub fn r04_line() {
    warm_up();
    let mut style = LineStyle::new(
        compound_style(sym::param(0), sym::param(1), sym::param(2)),
        [Alignment::Unspecified, Alignment::Left, Alignment::Right, Alignment::Center][sym::pick(4)],
    );
    style.left_margin = dimension(sym::param(3)) as usize;
    style.right_margin = dimension(sym::param(3)) as usize;
    match parse_line_style(&style.to_style_tokens_string()) {
        Ok(s) => sym::check(s == style, "same style"),
        Err(_) => sym::check(false, "style read"),
    }
    sym::reach("line style");
}
/// params: kinds of colors, first attribute, attributes, classes
pub fn r04_char() {
    warm_up();
    let c = StyledChar::new(compound_style(sym::param(0), sym::param(1), sym::param(2)), marker(sym::param(3)));
    match parse_styled_char(&c.to_style_tokens_string(), '?') {
        Ok(r) => sym::check(r == c, "same styled char"),
        Err(_) => sym::check(false, "styled char read"),
    }
    sym::reach("styled char");
}
/// a skin given to its serialized form and back
/// params: the changed part (first, number), kinds of colors, first attribute, attributes, classes, as a text
pub fn r04_skin() {
    warm_up();
    let mut skin = MadSkin::default();
    let part = sym::param(0) + sym::pick(sym::param(1));
    let cs = || compound_style(sym::param(2), sym::param(3), sym::param(4));
    let sc = || StyledChar::new(cs(), marker(sym::param(5)));
    let align = || [Alignment::Unspecified, Alignment::Left, Alignment::Right, Alignment::Center][sym::pick(4)];
    let ls = || {
        let mut s = LineStyle::new(cs(), align());
        s.left_margin = 7 * sym::pick(2);
        s.right_margin = 12 * sym::pick(2);
        s
    };
    match part {
        0 => skin.bold = cs(),
        1 => skin.italic = cs(),
        2 => skin.strikeout = cs(),
        3 => skin.inline_code = cs(),
        4 => skin.ellipsis = cs(),
        5 => skin.bullet = sc(),
        6 => skin.quote_mark = sc(),
        7 => skin.horizontal_rule = sc(),
        8 => skin.paragraph = ls(),
        9 => skin.code_block = ls(),
        10 => skin.table = ls(),
        11 => skin.headers[sym::pick(8)] = ls(),
        12 => skin.table_border_chars = [ASCII_TABLE_BORDER_CHARS, ROUNDED_TABLE_BORDER_CHARS, STANDARD_TABLE_BORDER_CHARS][sym::pick(3)],
        13 => {
            skin.scrollbar.thumb = sc();
            skin.scrollbar.track = sc();
        }
        _ => {
            let c = marker(sym::param(5));
            skin.scrollbar.thumb = StyledChar::new(cs(), c);
            skin.scrollbar.track = StyledChar::new(cs(), c);
        }
    }
    let read: Result<MadSkin, _> = if sym::param(6) == 1 {
        serde_json::from_str(&serde_json::to_string(&skin).unwrap())
    } else {
        serde_json::from_value(serde_json::to_value(&skin).unwrap())
    };
    match read {
        Ok(s) => sym::check(s == skin, "same skin"),
        Err(_) => sym::check(false, "skin read"),
    }
    sym::reach("skin");
}
