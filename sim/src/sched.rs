//! The schedule: real threads, exactly one of which runs at any time.  Control
//! is handed over only at reader calls, at every so-manieth allocation inside of
//! the decoder and when a task would wait for a lock, by a seeded virtual-time
//! scheduler or by an explicit (replayed) decision list.
use crate::rng::{Rng, hash2};
use crate::world;
use std::cell::Cell;
use std::sync::{Condvar, Mutex};
use std::time::Duration;

#[derive(Clone, Copy)]
struct Pre {
    gate: *const Gate,
    id: usize,
    stride: u32,
    left: u32,
    /// the same for edges of the control flow; 0: none
    gap: u32,
    edges: u32,
    n: u64,
}
thread_local! {
    /// set while this thread runs code of the decoder as a scheduled task
    static PRE: Cell<Option<Pre>> = const { Cell::new(None) };
}
pub struct Restore(Option<Pre>);
impl Drop for Restore {
    fn drop(&mut self) {
        PRE.set(self.0);
    }
}
/// Until the result is dropped, every so-manieth allocation (`stride`, low byte)
/// and edge of the control flow (the rest) is a scheduling point (0: none), and
/// waiting for a lock lets others run.
pub fn decoder(gate: Option<(&Gate, usize)>, stride: u32) -> Restore {
    Restore(PRE.replace(gate.map(|(g, id)| {
        let (stride, gap) = (stride & 0xFF, stride >> 8);
        Pre { gate: g, id, stride, left: stride, gap, edges: gap, n: id as u64 }
    })))
}
/// The harness' own code in between.
pub fn harness() -> Restore {
    Restore(PRE.take())
}
/// Called by the allocator.
#[inline]
pub fn point() {
    let Ok(Some(mut p)) = PRE.try_with(|c| c.get()) else { return };
    if p.stride == 0 {
        return;
    }
    p.left -= 1;
    if p.left == 0 {
        p.left = p.stride;
        PRE.set(None);
        unsafe { &*p.gate }.stop(p.id, true);
    }
    PRE.set(Some(p));
}
/// Called by the library on every edge, in the build that has this (`edges.sh`).
#[unsafe(no_mangle)]
extern "C" fn __sanitizer_cov_trace_pc() {
    let Ok(Some(mut p)) = PRE.try_with(|c| c.get()) else { return };
    if p.gap == 0 {
        return;
    }
    p.edges -= 1;
    if p.edges == 0 {
        p.n += 1;
        p.edges = 1 + (hash2(p.n, p.gap as u64) % (2 * p.gap as u64)) as u32;
        PRE.set(None);
        unsafe { &*p.gate }.stop(p.id, true);
    }
    PRE.set(Some(p));
}
/// Called in place of waiting for a lock.  None: not a scheduled task; false:
/// nobody can release it without I/O first.
pub fn wait() -> Option<bool> {
    let p = PRE.try_with(|c| c.take()).ok().flatten()?;
    let r = unsafe { &*p.gate }.block(p.id);
    PRE.set(Some(p));
    Some(r)
}

/// It really waited, in vain.
pub fn stuck() {
    if let Ok(Some(p)) = PRE.try_with(|c| c.get()) {
        unsafe { &*p.gate }.give_up();
    }
}

pub struct Policy {
    /// explicit decisions: (task, steps)
    script: Vec<(u16, u32)>,
    at: usize,
    used: u32,
    seeded: Option<Seeded>,
}

struct Seeded {
    r: Rng,
    mode: u64,
    ready: Vec<u64>,
    speed: Vec<u64>,
    now: u64,
    sticky: u64,
}

impl Policy {
    pub fn script(script: Vec<(u16, u32)>) -> Policy {
        Policy { script, at: 0, used: 0, seeded: None }
    }
    pub fn seeded(seed: u64, n: usize) -> Policy {
        let mut r = Rng::new(seed);
        let mode = r.below(3);
        let speed = (0..n).map(|_| *r.pick(&[1u64, 1, 3, 10, 100, 1000])).collect();
        let ready = (0..n).map(|_| r.below(50)).collect();
        let sticky = *r.pick(&[2u64, 4, 16, 64]);
        Policy {
            script: vec![],
            at: 0,
            used: 0,
            seeded: Some(Seeded { r, mode, ready, speed, now: 0, sticky }),
        }
    }
    fn next(&mut self, cur: Option<usize>, alive: &[bool]) -> Option<usize> {
        let live: Vec<usize> = (0..alive.len()).filter(|i| alive[*i]).collect();
        if live.is_empty() {
            return None;
        }
        if let Some(s) = &mut self.seeded {
            return Some(match s.mode {
                // event queue in virtual time: every read takes speed * jitter
                0 => {
                    if let Some(c) = cur {
                        let jitter = if s.r.chance(1, 40) { 500 } else { 1 + s.r.below(20) };
                        s.ready[c] = s.now + s.speed[c] * jitter;
                    }
                    let t = *live.iter().min_by_key(|i| (s.ready[**i], **i)).unwrap();
                    s.now = s.now.max(s.ready[t]);
                    t
                }
                // sticky random walk
                1 => match cur {
                    Some(c) if alive[c] && !s.r.chance(1, s.sticky) => c,
                    _ => *s.r.pick(&live),
                },
                // random priorities, changed now and then
                _ => {
                    if s.r.chance(1, s.sticky) {
                        let k = s.r.us(s.speed.len());
                        s.speed[k] = s.r.u64() >> 40;
                    }
                    *live.iter().max_by_key(|i| (s.speed[**i], **i)).unwrap()
                }
            });
        }
        while let Some((t, n)) = self.script.get(self.at).copied() {
            if self.used < n && (t as usize) < alive.len() && alive[t as usize] {
                self.used += 1;
                return Some(t as usize);
            }
            self.at += 1;
            self.used = 0;
        }
        Some(match cur {
            Some(c) if alive[c] => c,
            _ => live[0],
        })
    }
}

struct State {
    policy: Policy,
    alive: Vec<bool>,
    /// waits for a lock, and nobody has run since
    blocked: Vec<bool>,
    /// suspended in the middle of decoding rather than in a read call
    inside: Vec<bool>,
    /// somebody holds the baton and neither moves nor ends: everybody runs
    free: bool,
    /// a task waits for a lock that nobody releases without I/O first
    stuck: bool,
    turn: Option<usize>,
    trace: Vec<(u16, u32)>,
    switches: u64,
    steps: u64,
}

pub struct Gate {
    m: Mutex<State>,
    cv: Vec<Condvar>,
}

impl Gate {
    pub fn new(policy: Policy, n: usize) -> Gate {
        let mut s = State { policy, alive: vec![true; n], blocked: vec![false; n], inside: vec![false; n], free: false, stuck: false, turn: None, trace: vec![], switches: 0, steps: 0 };
        pick(&mut s, None, false);
        Gate { m: Mutex::new(s), cv: (0..n).map(|_| Condvar::new()).collect() }
    }
    fn lock(&self) -> std::sync::MutexGuard<'_, State> {
        self.m.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn await_turn<'a>(&'a self, id: usize, mut s: std::sync::MutexGuard<'a, State>) -> std::sync::MutexGuard<'a, State> {
        let mut seen = s.steps;
        while s.turn != Some(id) && !s.free {
            // (in real time)
            let (g, t) = world::outside(|| self.cv[id].wait_timeout(s, Duration::from_secs(5))).unwrap_or_else(|e| e.into_inner());
            s = g;
            if t.timed_out() && s.turn != Some(id) {
                if s.steps == seen {
                    s.free = true;
                    self.cv.iter().for_each(|c| c.notify_all());
                }
                seen = s.steps;
            }
        }
        s
    }
    /// Wait for the first turn.
    pub fn enter(&self, id: usize) {
        drop(self.await_turn(id, self.lock()));
    }
    /// A scheduling point of task `id`: a read call.
    pub fn step(&self, id: usize) {
        self.stop(id, false);
    }
    fn stop(&self, id: usize, inside: bool) {
        let mut s = self.lock();
        if s.free {
            return;
        }
        s.inside[id] = inside;
        s.blocked.fill(false);
        pick(&mut s, Some(id), false);
        self.hand_over(id, s);
    }
    fn hand_over(&self, id: usize, mut s: std::sync::MutexGuard<'_, State>) {
        if s.turn != Some(id) {
            s.switches += 1;
            if let Some(t) = s.turn {
                self.cv[t].notify_one();
            }
            drop(self.await_turn(id, s));
        }
    }
    /// Task `id` cannot go on before another one has: one that can go on without
    /// waiting for its input.
    fn block(&self, id: usize) -> bool {
        let mut s = self.lock();
        s.blocked[id] = true;
        s.inside[id] = true;
        if s.free || !(0..s.alive.len()).any(|i| s.alive[i] && s.inside[i] && !s.blocked[i]) {
            return false;
        }
        pick(&mut s, Some(id), true);
        self.hand_over(id, s);
        true
    }
    fn give_up(&self) {
        let mut s = self.lock();
        s.stuck |= !s.free;
        s.free = true;
        self.cv.iter().for_each(|c| c.notify_all());
    }
    pub fn was_stuck(&self) -> bool {
        self.lock().stuck
    }
    pub fn done(&self, id: usize) {
        let mut s = self.lock();
        s.alive[id] = false;
        s.blocked.fill(false);
        pick(&mut s, Some(id), false);
        if let Some(t) = s.turn {
            self.cv[t].notify_one();
        }
    }
    /// (decisions taken, switches, steps)
    pub fn report(&self) -> (Vec<(u16, u32)>, u64, u64) {
        let s = self.lock();
        (s.trace.clone(), s.switches, s.steps)
    }
}

fn pick(s: &mut State, cur: Option<usize>, inside: bool) {
    let can: Vec<bool> = (0..s.alive.len()).map(|i| s.alive[i] && !s.blocked[i] && (s.inside[i] || !inside)).collect();
    s.turn = s.policy.next(cur, &can);
    if let Some(t) = s.turn {
        s.steps += 1;
        match s.trace.last_mut() {
            Some(l) if l.0 == t as u16 => l.1 += 1,
            _ => s.trace.push((t as u16, 1)),
        }
    }
}
