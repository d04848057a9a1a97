//! the event source, with its listening thread; what crossterm would read in the terminal is given
//! by the harness
use crate::sym;
use std::collections::VecDeque;
use std::io;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use crokey::{Combiner, KeyCombination};
use termimad::crossbeam::channel::TryRecvError;
use termimad::crossterm::event::*;
use termimad::*;

static INPUT: Mutex<Option<Receiver<Option<Event>>>> = Mutex::new(None);
/// calls of crossterm's read
static READS: AtomicUsize = AtomicUsize::new(0);
static RAW: AtomicUsize = AtomicUsize::new(0);
static KEYBOARD: AtomicUsize = AtomicUsize::new(0);

#[no_mangle]
fn harness_read() -> io::Result<Event> {
    READS.fetch_add(1, Ordering::SeqCst);
    let rx = INPUT.lock().unwrap();
    match rx.as_ref().unwrap().recv().unwrap() {
        Some(e) => Ok(e),
        None => Err(io::ErrorKind::Other.into()),
    }
}
#[no_mangle]
fn harness_raw_mode(on: bool) -> io::Result<()> {
    RAW.store(on as usize, Ordering::SeqCst);
    Ok(())
}
#[no_mangle]
fn harness_keyboard() -> io::Result<bool> {
    Ok(KEYBOARD.load(Ordering::SeqCst) == 1)
}

fn any_key(kinds: usize) -> KeyEvent {
    // every subset of shift, control and alt
    let modifiers = KeyModifiers::from_bits_truncate(sym::range(0, 7) as u8);
    let code = match sym::pick(2) {
        0 => KeyCode::Char(['_', '\\', 'a', 'Z', ' '][sym::pick(5)]),
        _ => [KeyCode::Enter, KeyCode::BackTab, KeyCode::Modifier(ModifierKeyCode::LeftShift)][sym::pick(3)],
    };
    let kind = [KeyEventKind::Press, KeyEventKind::Release, KeyEventKind::Repeat][sym::pick(kinds)];
    key(code, modifiers, kind)
}
fn key(code: KeyCode, modifiers: KeyModifiers, kind: KeyEventKind) -> KeyEvent {
    KeyEvent { code, modifiers, kind, state: KeyEventState::empty() }
}
fn mouse(kind: MouseEventKind, places: u64) -> Option<Event> {
    let p = sym::range(0, places * places - 1) as u16;
    let modifiers = KeyModifiers::empty();
    Some(Event::Mouse(MouseEvent { kind, column: p % places as u16, row: 200 + p / places as u16, modifiers }))
}
/// one of the sorts of the mask
fn any_event(mask: usize, places: u64) -> Option<Event> {
    let mut sorts = Vec::new();
    for i in 0..16 {
        if mask >> i & 1 == 1 {
            sorts.push(i);
        }
    }
    let press = KeyEventKind::Press;
    let ev = |code, modifiers| Some(Event::Key(key(code, modifiers, press)));
    match sorts[sym::pick(sorts.len())] {
        0 => Some(Event::Key(any_key(3))),
        1 => Some(Event::Key(any_key(1))),
        2 => ev(KeyCode::Char('_'), KeyModifiers::ALT),
        3 => ev(KeyCode::Char('\\'), KeyModifiers::ALT),
        4 => ev(KeyCode::Char('b'), KeyModifiers::empty()),
        5 => ev(KeyCode::Char('c'), KeyModifiers::CONTROL),
        6 => mouse(MouseEventKind::Up(MouseButton::Left), places),
        7 => mouse(MouseEventKind::Down(MouseButton::Left), places),
        8 => mouse([MouseEventKind::Down(MouseButton::Right), MouseEventKind::Up(MouseButton::Right), MouseEventKind::Up(MouseButton::Middle)][sym::pick(3)], places),
        9 => mouse([MouseEventKind::ScrollUp, MouseEventKind::ScrollDown][sym::pick(2)], places),
        10 => mouse(MouseEventKind::Moved, places),
        11 => mouse(MouseEventKind::Drag([MouseButton::Left, MouseButton::Right][sym::pick(2)]), places),
        12 => Some(Event::Resize(sym::u16(), sym::u16())),
        13 => Some([Event::FocusGained, Event::FocusLost][sym::pick(2)].clone()),
        14 => Some(Event::Paste("p".to_string())),
        // an error
        _ => None,
    }
}

struct Delivery {
    event: Event,
    combination: Option<KeyCombination>,
}
struct Model {
    opts: (bool, bool, bool),
    combiner: Combiner,
    combining: bool,
    /// sent, and not yet read
    inputs: VecDeque<Option<Event>>,
    sequence: Option<Vec<KeyEvent>>,
    sequences: Vec<Vec<KeyEvent>>,
    /// of an interrupted sequence
    keys: VecDeque<KeyEvent>,
    /// read, and to be sent after those keys
    next: Option<Event>,
    /// there's an event waiting for an answer
    blocked: bool,
    done: bool,
    delivered: usize,
    read: usize,
    last_up: Option<(Instant, u16, u16)>,
}
impl Model {
    fn with_combination(&mut self, event: Event) -> Option<Delivery> {
        let mut combination = None;
        if let Event::Key(key) = &event {
            combination = if self.combining {
                self.combiner.transform(*key)
            } else if key.kind == KeyEventKind::Press {
                Some((*key).into())
            } else {
                None
            };
            if combination.is_none() && self.opts.0 {
                return None;
            }
        }
        Some(Delivery { event, combination })
    }
    /// what's to be delivered, if anything
    fn step(&mut self) -> Option<Delivery> {
        while !self.blocked && !self.done {
            let event = if let Some(key) = self.keys.pop_front() {
                Event::Key(key)
            } else if let Some(event) = self.next.take() {
                match &event {
                    Event::Mouse(m) if self.opts.1 && m.kind == MouseEventKind::Moved => continue,
                    Event::Mouse(m) if self.opts.2 && matches!(m.kind, MouseEventKind::Drag(_)) => continue,
                    _ => event,
                }
            } else if let Some(input) = self.inputs.pop_front() {
                self.read += 1;
                let event = match input {
                    Some(event) => event,
                    None => continue,
                };
                if let Some(mut keys) = self.sequence.take() {
                    if let Event::Key(key) = &event {
                        let key = *key;
                        let alt = key.modifiers.contains(KeyModifiers::ALT);
                        if key.code == KeyCode::Char('\\') && key.modifiers == KeyModifiers::ALT {
                            keys.push(key);
                            self.sequences.push(keys);
                            continue;
                        }
                        if !alt && !key.modifiers.contains(KeyModifiers::CONTROL) {
                            keys.push(key);
                            self.sequence = Some(keys);
                            continue;
                        }
                    }
                    self.keys = keys.into();
                } else if let Event::Key(key) = &event {
                    if key.code == KeyCode::Char('_') && key.modifiers == KeyModifiers::ALT {
                        self.sequence = Some(vec![*key]);
                        continue;
                    }
                }
                self.next = Some(event);
                continue;
            } else {
                return None;
            };
            if let Some(d) = self.with_combination(event) {
                self.blocked = true;
                self.delivered += 1;
                return Some(d);
            }
        }
        None
    }
    fn double(&mut self, e: &TimedEvent) -> bool {
        if let Event::Mouse(MouseEvent { kind, column, row, .. }) = e.event {
            let up = kind == MouseEventKind::Up(MouseButton::Left);
            if up || kind == MouseEventKind::Down(MouseButton::Left) {
                let double = match self.last_up {
                    Some((t, x, y)) if x == column && y == row => e.time.duration_since(t) < Duration::from_millis(700),
                    _ => false,
                };
                if up {
                    self.last_up = Some((e.time, column, row));
                }
                return double;
            }
        }
        false
    }
}
/// the exact equality, case of the keys included
fn same(a: &Event, b: &Event) -> bool {
    match (a, b) {
        (Event::Key(a), Event::Key(b)) => same_key(a, b),
        _ => a == b,
    }
}
fn same_key(a: &KeyEvent, b: &KeyEvent) -> bool {
    a.code == b.code && a.modifiers == b.modifiers && a.kind == b.kind && a.state == b.state
}

fn drain(src: &EventSource, m: &Model, seen: &mut usize) {
    let rx = src.escape_sequence_receiver();
    while let Ok(s) = rx.try_recv() {
        sym::check(*seen < m.sequences.len(), "only complete sequences");
        let keys = &m.sequences[*seen];
        sym::check(s.keys.len() == keys.len(), "a sequence is whole");
        for (a, b) in s.keys.iter().zip(keys) {
            sym::check(same_key(a, b), "keys of a sequence");
        }
        *seen += 1;
    }
    sym::check(*seen == m.sequences.len(), "every complete sequence");
}

/// params: events, mask of sorts, first event's mask (0: same), options (bits which vary: raw keys,
/// moves, drags, combining, mandate, the terminal's support), places, times, preemptions, what may
/// be done between (0: nothing, 1: sending more before the answer, 2: leaving, 3: both)
pub fn e01_events() {
    sym::clock(5_000_000_000);
    let bit = |i: usize, default: bool| if sym::param(3) >> i & 1 == 1 { sym::pick(2) == 1 } else { default };
    let combine_keys = bit(3, false);
    let options = EventSourceOptions {
        combine_keys,
        mandate_modifier_for_multiple_keys: bit(4, true),
        discard_raw_key_events: bit(0, true),
        discard_mouse_move: bit(1, true),
        discard_mouse_drag: bit(2, false),
    };
    let supported = bit(5, false);
    KEYBOARD.store(supported as usize, Ordering::SeqCst);
    let (tx, rx): (Sender<Option<Event>>, _) = channel();
    *INPUT.lock().unwrap() = Some(rx);
    let mut combiner = Combiner::default();
    combiner.set_mandate_modifier_for_multiple_keys(options.mandate_modifier_for_multiple_keys);
    let combining = combine_keys && supported;
    if combining {
        combiner.set_keyboard_enhancement_flags_externally_managed();
        sym::check(combiner.enable_combining().unwrap(), "model combiner");
    }
    let mut m = Model {
        opts: (options.discard_raw_key_events, options.discard_mouse_move, options.discard_mouse_drag),
        combiner,
        combining,
        inputs: VecDeque::new(),
        sequence: None,
        sequences: Vec::new(),
        keys: VecDeque::new(),
        next: None,
        blocked: false,
        done: false,
        delivered: 0,
        read: 0,
        last_up: None,
    };
    sym::threads(sym::param(6), 0);
    let start = Instant::now();
    let src = EventSource::with_options(options).unwrap();
    sym::check(RAW.load(Ordering::SeqCst) == 1, "raw mode");
    sym::check(src.supports_multi_key_combinations() == combining, "combining");
    let events = src.receiver();
    let count = src.shared_event_count();
    let mut now = 5_000_000_000u64;
    let mut left = sym::param(0);
    let mut seqs = 0;
    let mut variable = sym::param(5) > 2;
    loop {
        // one more event
        let ahead = m.blocked && left > 0 && sym::param(7) & 1 == 1 && sym::pick(2) == 1;
        if m.blocked && !ahead {
            // an answer
            let quit = sym::param(7) & 2 == 2 && sym::pick(2) == 1;
            src.unblock(quit);
            m.blocked = false;
            m.done = quit;
        } else if left > 0 {
            let mask = if left == sym::param(0) && sym::param(2) > 0 { sym::param(2) } else { sym::param(1) };
            left -= 1;
            let e = any_event(mask, sym::param(4) as u64);
            if let Some(Event::Mouse(MouseEvent { kind: MouseEventKind::Up(_), .. } | MouseEvent { kind: MouseEventKind::Down(_), .. })) = e {
                if sym::param(5) > 0 && m.last_up.is_some() {
                    let k = sym::pick(sym::param(5));
                    now += match k {
                        0 => 0,
                        1 => 699_999_999,
                        2 => 700_000_000,
                        3 if variable => {
                            variable = false;
                            1_000_000 * sym::range(0, 1400)
                        }
                        3 => 350_000_000,
                        4 => 700_000_001,
                        _ => 1_500_000_000,
                    };
                    sym::clock(now);
                }
            }
            tx.send(e.clone()).unwrap();
            m.inputs.push_back(e);
        } else {
            break;
        }
        if let Some(d) = m.step() {
            // the event isn't known to the receiver before it's counted
            let e = events.recv().unwrap();
            sym::check(count.load(Ordering::SeqCst) == m.delivered, "count of events");
            sym::check(same(&e.event, &d.event), "the event");
            sym::check(e.key_combination == d.combination, "the combination");
            sym::check(e.time >= start && e.time <= Instant::now(), "time of the event");
            let double = m.double(&e);
            sym::check(e.double_click == double, "double click");
            let click = match e.event {
                Event::Mouse(MouseEvent { kind: MouseEventKind::Up(MouseButton::Left), column, row, .. }) if !double => Some((column, row)),
                _ => None,
            };
            sym::check(e.as_click() == click, "as_click");
            if let Event::Key(k) = e.event {
                sym::check(e.is_key(k), "is_key");
                if let Some(c) = d.combination {
                    sym::check(e.is_key(c), "is_key of the combination");
                }
            }
        }
        // everything that can be done is done
        sym::sleep(0);
        match events.try_recv() {
            Ok(_) => sym::check(false, "one event at a time"),
            Err(e) => sym::check((e == TryRecvError::Disconnected) == m.done, "end of the thread"),
        }
        sym::check(count.load(Ordering::SeqCst) == m.delivered, "count of events");
        if !m.done {
            sym::check(READS.load(Ordering::SeqCst) == m.read + !m.blocked as usize, "reading only with permission");
        }
        drain(&src, &m, &mut seqs);
        if m.done {
            break;
        }
    }
    sym::observe(m.delivered);
    sym::observe(seqs);
    sym::check(RAW.load(Ordering::SeqCst) == 1, "raw mode until the end");
    drop(src);
    sym::check(RAW.load(Ordering::SeqCst) == 0, "no raw mode at end");
    if !m.done {
        // the next event is the last one
        tx.send(Some(Event::FocusGained)).unwrap();
        sym::sleep(0);
        let mut n = 0;
        while events.try_recv().is_ok() {
            n += 1;
        }
        sym::check(n <= 1, "dropped source");
        sym::check(events.try_recv() == Err(TryRecvError::Disconnected), "end of the thread of a dropped source");
    }
    sym::reach("listened");
}

/// a full channel of sequences doesn't block the events; params: more sequences than its capacity
pub fn e01_full() {
    let (tx, rx): (Sender<Option<Event>>, _) = channel();
    *INPUT.lock().unwrap() = Some(rx);
    let src = EventSource::new().unwrap();
    let n = 10 + sym::param(0);
    for i in 0..n {
        for c in ['_', (b'a' + i as u8) as char, '\\'] {
            let modifiers = if c.is_alphabetic() { KeyModifiers::empty() } else { KeyModifiers::ALT };
            tx.send(Some(Event::Key(key(KeyCode::Char(c), modifiers, KeyEventKind::Press)))).unwrap();
        }
    }
    let (w, h) = (sym::u16(), sym::u16());
    tx.send(Some(Event::Resize(w, h))).unwrap();
    let e = src.receiver().recv().unwrap();
    sym::check(e.event == Event::Resize(w, h), "event after sequences");
    let seqs = src.escape_sequence_receiver();
    for i in 0..10 {
        let s = seqs.try_recv().unwrap();
        sym::check(s.keys.len() == 3, "a sequence");
        sym::check(s.keys[1].code == KeyCode::Char((b'a' + i as u8) as char), "the first ones");
        sym::check(s.to_string().len() == 1, "text of a sequence");
    }
    sym::check(seqs.try_recv().is_err(), "the others are lost");
    src.unblock(true);
    sym::reach("full");
}
