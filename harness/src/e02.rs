//! tickers, with their threads
use crate::sym;
use std::time::{Duration, Instant};
use termimad::*;

/// what's known of a beam
struct Beam {
    id: TickBeamId,
    start: u64,
    period: u64,
    /// usize::MAX when there's no limit
    count: usize,
    /// when it was stopped
    stop: Option<u64>,
    got: usize,
}

fn now(t0: Instant) -> u64 {
    t0.elapsed().as_secs()
}
/// counts the received ticks, checking they were possible
fn receive(ticker: &Ticker<u8>, beams: &mut Vec<Beam>, time: u64, punctual: bool) {
    let mut last = 0;
    while let Ok(i) = ticker.tick_receiver.try_recv() {
        sym::check((i as usize) < beams.len(), "payload of a beam");
        let b = &mut beams[i as usize];
        b.got += 1;
        let tick = b.start + b.period * b.got as u64;
        sym::check(b.got <= b.count, "not more ticks than asked");
        sym::check(tick <= time, "a period for each tick");
        if let Some(stop) = b.stop {
            sym::check(tick <= stop, "no tick after the stop");
        }
        if punctual {
            // in the order of time
            sym::check(tick >= last, "order");
            last = tick;
        }
    }
    if punctual {
        for b in beams {
            let end = b.stop.unwrap_or(time);
            sym::check(b.got == b.count || b.start + b.period * (b.got as u64 + 1) >= end, "all the ticks");
        }
    }
}
/// params: operations, max beams, max period, max sleep, max count, preemptions, late threads, first operation, operations to choose from
pub fn e02_beams() {
    let t0 = Instant::now();
    sym::threads(sym::param(5), sym::param(6));
    let punctual = sym::param(5) + sym::param(6) == 0;
    let mut ticker: Ticker<u8> = Ticker::new();
    let mut beams: Vec<Beam> = Vec::new();
    for _ in 0..sym::param(0) {
        let o = sym::param(7) + sym::pick(sym::param(8));
        match o {
            0..=2 if beams.len() < sym::param(1) => {
                let period = sym::range(1, sym::param(2) as u64);
                let d = Duration::from_secs(period);
                let payload = beams.len() as u8;
                let start = now(t0);
                let (id, count) = match o {
                    0 => {
                        let n = sym::pick(sym::param(4) + 1);
                        (ticker.tick_several_times(payload, d, n), n)
                    }
                    1 => (ticker.tick_once(payload, d), 1),
                    _ => (ticker.tick_infinitely(payload, d), usize::MAX),
                };
                for b in &beams {
                    sym::check(b.id != id, "ids are different");
                }
                beams.push(Beam { id, start, period, count, stop: None, got: 0 });
            }
            3 => sym::sleep(sym::range(1, sym::param(3) as u64)),
            4 if beams.len() > 0 => {
                // maybe already stopped
                let i = sym::pick(beams.len());
                ticker.stop_beam(beams[i].id);
                let t = now(t0);
                let stop = &mut beams[i].stop;
                if stop.is_none() {
                    *stop = Some(t);
                }
            }
            5 if beams.len() > 0 => {
                ticker.stop_all_beams();
                let t = now(t0);
                for b in &mut beams {
                    b.stop = b.stop.or(Some(t));
                }
            }
            6 if beams.len() > 0 => receive(&ticker, &mut beams, now(t0), punctual),
            7 if beams.len() > 0 => {
                // the ticks may still be received when the ticker is dropped
                let old = std::mem::replace(&mut ticker, Ticker::new());
                let rx = old.tick_receiver.clone();
                drop(old);
                ticker.tick_receiver = rx;
                let t = now(t0);
                for b in &mut beams {
                    b.stop = b.stop.or(Some(t));
                }
                break;
            }
            _ => {}
        }
    }
    // enough time for the limited beams
    let long = (sym::param(2) * (sym::param(4) + 1)) as u64;
    for b in &mut beams {
        if b.count == usize::MAX && b.stop.is_none() {
            ticker.stop_beam(b.id);
            b.stop = Some(now(t0));
        }
    }
    sym::sleep(long);
    if !punctual {
        // no beam may be late anymore
        sym::threads(0, 0);
        sym::sleep(long * 2);
    }
    receive(&ticker, &mut beams, now(t0), punctual);
    for b in &beams {
        if b.stop.is_none() {
            sym::check(b.got == b.count, "all the asked ticks");
        }
        sym::observe(b.got);
    }
    sym::reach("ticked");
}

/// several beams, of which some are stopped, in any order
/// params: beams, stops, max period
pub fn e02_stops() {
    let t0 = Instant::now();
    sym::threads(0, 0);
    let mut ticker: Ticker<u8> = Ticker::new();
    let mut beams: Vec<Beam> = Vec::new();
    for payload in 0..sym::param(0) as u8 {
        let period = sym::range(1, sym::param(2) as u64);
        let id = ticker.tick_several_times(payload, Duration::from_secs(period), 2);
        beams.push(Beam { id, start: now(t0), period, count: 2, stop: None, got: 0 });
    }
    for _ in 0..sym::param(1) {
        // maybe one which is already stopped or over
        let i = sym::pick(beams.len());
        ticker.stop_beam(beams[i].id);
        let t = now(t0);
        let stop = &mut beams[i].stop;
        if stop.is_none() {
            *stop = Some(t);
        }
        sym::sleep(sym::pick(2) as u64);
    }
    sym::sleep(3 * sym::param(2) as u64);
    receive(&ticker, &mut beams, now(t0), true);
    for b in &beams {
        if b.stop.is_none() {
            sym::check(b.got == b.count, "all the asked ticks");
        }
        sym::observe(b.got);
    }
    sym::reach("stopped");
}
