//! The interface with the symbolic executor. In the native replay binary the same functions are
//! given by symrt.c, which reads the inputs of one path from a file.

extern "C" {
    fn sym_u8() -> u8;
    fn sym_u16() -> u16;
    fn sym_u32() -> u32;
    fn sym_u64() -> u64;
    fn sym_range(lo: u64, hi: u64) -> u64;
    fn sym_char(classes: u32) -> u32;
    fn sym_pick(n: u64) -> u64;
    fn sym_param(i: u64) -> u64;
    fn sym_assume(c: u8);
    fn sym_assert(c: u8, msg: *const u8, len: usize);
    fn sym_reach(msg: *const u8, len: usize);
    fn sym_observe(v: u64);
    fn sym_narrow();
    fn sym_threads(preempts: u64, lates: u64);
    fn sym_sleep(s: u64);
    fn sym_clock_set(ns: u64);
    fn sym_concretize(v: u64) -> u64;
    fn sym_stdin(b: u8);
    fn sym_stdout(i: u64) -> u16;
}

pub fn u8() -> u8 {
    unsafe { sym_u8() }
}
pub fn u16() -> u16 {
    unsafe { sym_u16() }
}
pub fn u32() -> u32 {
    unsafe { sym_u32() }
}
pub fn u64() -> u64 {
    unsafe { sym_u64() }
}
/// any value of lo..=hi
pub fn range(lo: u64, hi: u64) -> u64 {
    unsafe { sym_range(lo, hi) }
}
pub fn urange(lo: usize, hi: usize) -> usize {
    unsafe { sym_range(lo as u64, hi as u64) as usize }
}
/// one path for each value of 0..n
pub fn pick(n: usize) -> usize {
    unsafe { sym_pick(n as u64) as usize }
}
pub fn flag() -> bool {
    range(0, 1) == 1
}
/// any char whose UTF-8 length is in the set (bit 0: 1 byte, bit 1: 2 bytes, ...)
pub fn chr(classes: u32) -> char {
    unsafe { char::from_u32_unchecked(sym_char(classes)) }
}
pub fn param(i: usize) -> usize {
    unsafe { sym_param(i as u64) as usize }
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c as u8) }
}
pub fn check(c: bool, msg: &'static str) {
    unsafe { sym_assert(c as u8, msg.as_ptr(), msg.len()) }
}
pub fn reach(msg: &'static str) {
    unsafe { sym_reach(msg.as_ptr(), msg.len()) }
}
pub fn observe(v: usize) {
    unsafe { sym_observe(v as u64) }
}
/// how many times a running thread may be interrupted, and how many times the clock goes on while
/// a thread could run
pub fn threads(preempts: usize, lates: usize) {
    unsafe { sym_threads(preempts as u64, lates as u64) }
}
/// wait for some seconds of the virtual clock
pub fn sleep(s: u64) {
    unsafe { sym_sleep(s) }
}
pub fn clock(ns: u64) {
    unsafe { sym_clock_set(ns) }
}
/// fork on the possible values
pub fn concretize(v: usize) -> usize {
    unsafe { sym_concretize(v as u64) as usize }
}
pub fn observe_str(s: &str) {
    observe(s.len());
    let mut h = 0usize;
    for (i, b) in s.bytes().enumerate() {
        if i < 64 {
            h = (h << 8) | b as usize;
            if i % 8 == 7 {
                observe(h);
                h = 0;
            }
        }
    }
    observe(h);
}
/// for the entries computing with multiplications and divisions of unknown numbers: lets the
/// executor prove that differences are small
pub fn narrow() {
    unsafe { sym_narrow() }
}
/// the bytes will be read on the standard input
pub fn type_in(bytes: &[u8]) {
    for b in bytes {
        unsafe { sym_stdin(*b) }
    }
}
/// what was written on the standard output
pub fn stdout() -> Vec<u8> {
    use std::io::Write;
    std::io::stdout().flush().unwrap();
    let mut v = Vec::new();
    loop {
        let b = unsafe { sym_stdout(v.len() as u64) };
        if b > 255 {
            return v;
        }
        v.push(b as u8);
    }
}
