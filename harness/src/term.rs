//! A small terminal: what reaches the screen, and where.

use crate::sym;
use std::io::Write;
use unicode_width::UnicodeWidthChar;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
pub struct Sty {
    pub fg: u32,
    pub bg: u32,
    /// bit n for the SGR attribute n
    pub attrs: u32,
}

#[derive(Debug, Clone, Copy)]
pub struct Cell {
    pub x: usize,
    pub y: usize,
    pub w: usize,
    pub c: char,
    pub sty: Sty,
}

/// 0: normal, 1: after ESC, 2: in CSI, 3: in an UTF-8 sequence
#[derive(Default)]
pub struct Term {
    pub x: usize,
    pub y: usize,
    pub sty: Sty,
    pub cells: Vec<Cell>,
    /// number of raw control characters (but \r and \n) printed
    pub controls: usize,
    /// number of erase to the end of line or of screen
    pub erases: usize,
    pub moves: usize,
    pub newlines: usize,
    pub unknown: usize,
    pub chars: Vec<char>,
    state: u8,
    nums: Vec<u32>,
    cur: u32,
    acc: u32,
    need: u8,
}

pub fn cw(c: char) -> usize {
    UnicodeWidthChar::width(c).unwrap_or(0)
}

impl Term {
    pub fn new() -> Self {
        Self::default()
    }
    fn put(&mut self, c: char) {
        self.chars.push(c);
        let w = sym::concretize(cw(c));
        self.cells.push(Cell { x: self.x, y: self.y, w, c, sty: self.sty });
        self.x += w;
    }
    fn color(&mut self, i: &mut usize) -> u32 {
        let kind = self.nums.get(*i + 1).copied().unwrap_or(0);
        if kind == 5 {
            let v = self.nums.get(*i + 2).copied().unwrap_or(0);
            *i += 2;
            0x1000000 + v
        } else if kind == 2 {
            let r = self.nums.get(*i + 2).copied().unwrap_or(0);
            let g = self.nums.get(*i + 3).copied().unwrap_or(0);
            let b = self.nums.get(*i + 4).copied().unwrap_or(0);
            *i += 4;
            0x2000000 + (r << 16) + (g << 8) + b
        } else {
            self.unknown += 1;
            0
        }
    }
    fn sgr(&mut self) {
        let mut i = 0;
        while i < self.nums.len() {
            let n = self.nums[i];
            match n {
                0 => self.sty = Sty::default(),
                1..=9 => self.sty.attrs |= 1 << n,
                21 => self.sty.attrs |= 1 << 21,
                22 => self.sty.attrs &= !((1 << 1) | (1 << 2)),
                23 => self.sty.attrs &= !(1 << 3),
                24 => self.sty.attrs &= !((1 << 4) | (1 << 21)),
                25 => self.sty.attrs &= !((1 << 5) | (1 << 6)),
                27 => self.sty.attrs &= !(1 << 7),
                28 => self.sty.attrs &= !(1 << 8),
                29 => self.sty.attrs &= !(1 << 9),
                51..=53 => self.sty.attrs |= 1 << (n - 40),
                54 | 55 => {}
                30..=37 => self.sty.fg = 0x1000000 + n - 30,
                90..=97 => self.sty.fg = 0x1000000 + n - 82,
                40..=47 => self.sty.bg = 0x1000000 + n - 40,
                100..=107 => self.sty.bg = 0x1000000 + n - 92,
                38 => self.sty.fg = self.color(&mut i),
                48 => self.sty.bg = self.color(&mut i),
                39 => self.sty.fg = 0,
                49 => self.sty.bg = 0,
                _ => self.unknown += 1,
            }
            i += 1;
        }
    }
    fn csi(&mut self, b: u8) {
        match b {
            b'm' => self.sgr(),
            b'H' => {
                self.moves += 1;
                self.y = (self.nums[0] as usize).max(1) - 1;
                self.x = (self.nums.get(1).copied().unwrap_or(1) as usize).max(1) - 1;
            }
            b'K' | b'J' => self.erases += 1,
            _ => self.unknown += 1,
        }
    }
    pub fn feed(&mut self, b: u8) {
        match self.state {
            0 => {
                if b >= 0x80 {
                    self.state = 3;
                    if b >= 0xf0 {
                        self.acc = (b & 7) as u32;
                        self.need = 3;
                    } else if b >= 0xe0 {
                        self.acc = (b & 15) as u32;
                        self.need = 2;
                    } else {
                        self.acc = (b & 31) as u32;
                        self.need = 1;
                    }
                } else if b == 0x1b {
                    self.state = 1;
                } else if b == b'\n' {
                    self.newlines += 1;
                    self.x = 0;
                    self.y += 1;
                } else if b == b'\r' {
                    self.x = 0;
                } else {
                    if b < 0x20 || b == 0x7f {
                        self.controls += 1;
                    }
                    self.put(b as char);
                }
            }
            1 => {
                if b == b'[' {
                    self.state = 2;
                    self.nums.clear();
                    self.cur = 0;
                } else {
                    self.unknown += 1;
                    self.state = 0;
                }
            }
            2 => {
                if b >= b'0' && b <= b'9' {
                    self.cur = self.cur * 10 + (b - b'0') as u32;
                } else if b == b';' || b == b':' {
                    self.nums.push(self.cur);
                    self.cur = 0;
                } else if b == b'?' {
                } else {
                    self.nums.push(self.cur);
                    self.state = 0;
                    self.csi(b);
                }
            }
            _ => {
                self.acc = (self.acc << 6) | (b & 63) as u32;
                self.need -= 1;
                if self.need == 0 {
                    self.state = 0;
                    let c = unsafe { char::from_u32_unchecked(self.acc) };
                    self.put(c);
                }
            }
        }
    }
    pub fn text(&self) -> String {
        self.chars.iter().collect()
    }
    pub fn width(&self) -> usize {
        let mut n = 0;
        for c in &self.cells {
            n += c.w;
        }
        n
    }
    /// the character and style shown at each column of row y (None: nothing printed there, '\0' for
    /// the right part of a wide character)
    pub fn row(&self, y: usize, width: usize) -> Vec<Option<(char, Sty)>> {
        let mut r = vec![None; width];
        for c in &self.cells {
            if c.y == y {
                for i in 0..c.w {
                    if c.x + i < width {
                        r[c.x + i] = Some((if i == 0 { c.c } else { '\0' }, c.sty));
                    }
                }
            }
        }
        r
    }
}

impl Write for Term {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        for b in buf {
            self.feed(*b);
        }
        Ok(buf.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
