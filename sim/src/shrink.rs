//! Minimisation of a failing case: schedule, tasks, reader faults, then bytes.
use crate::case::*;
use crate::faults::splice_resealed;
use crate::model;
use std::time::Instant;

pub fn shrink(case: Case, deadline: Instant, fails: &mut dyn FnMut(&Case) -> bool) -> (Case, u64) {
    let mut s = S { best: case, deadline, fails, tries: 0 };
    loop {
        let before = size(&s.best);
        s.schedule();
        s.tasks();
        s.cli();
        s.plans();
        s.images();
        if size(&s.best) >= before || s.late() {
            break;
        }
    }
    (s.best, s.tries)
}

fn size(c: &Case) -> usize {
    c.text().len()
}

struct S<'a> {
    best: Case,
    deadline: Instant,
    fails: &'a mut dyn FnMut(&Case) -> bool,
    tries: u64,
}

impl S<'_> {
    fn late(&self) -> bool {
        Instant::now() > self.deadline
    }
    fn attempt(&mut self, c: Case) -> bool {
        if self.late() || c == self.best {
            return false;
        }
        self.tries += 1;
        if (self.fails)(&c) {
            self.best = c;
            return true;
        }
        false
    }
    fn with(&mut self, f: impl FnOnce(&mut Case)) -> bool {
        let mut c = self.best.clone();
        f(&mut c);
        self.attempt(c)
    }
    fn schedule(&mut self) {
        if self.best.sched.is_empty() {
            return;
        }
        self.with(|c| c.sched.clear());
        if self.best.variant > 0xFF {
            // without allocations as scheduling points
            let _ = self.with(|c| c.variant &= 0xFF);
        }
        let mut n = self.best.sched.len();
        while n >= 1 && !self.late() {
            let mut i = 0;
            while i < self.best.sched.len() && !self.late() {
                let hi = (i + n).min(self.best.sched.len());
                if !self.with(|c| drop(c.sched.drain(i..hi))) {
                    i += n;
                }
            }
            n /= 2;
        }
    }
    fn tasks(&mut self) {
        let mut t = self.best.tasks.len();
        while t > 0 && !self.late() {
            t -= 1;
            if self.best.tasks.len() < 2 || (t == 0 && matches!(self.best.prop.as_str(), "C18" | "C15")) {
                continue;
            }
            if self.best.tasks.iter().any(|p| p.inside.is_some_and(|i| i.0 == t)) {
                continue;
            }
            let root = self.best.tasks[t].inside.is_none();
            self.with(|c| {
                let slot = c.tasks[..t].iter().filter(|p| p.inside.is_none()).count() as u16;
                c.tasks.remove(t);
                for p in &mut c.tasks {
                    if let Some(i) = &mut p.inside {
                        if i.0 > t {
                            i.0 -= 1;
                        }
                    }
                }
                if root {
                    c.sched.retain(|s| s.0 != slot);
                    for s in &mut c.sched {
                        if s.0 > slot {
                            s.0 -= 1;
                        }
                    }
                }
            });
        }
        let mut i = self.best.images.len();
        while i > 0 {
            i -= 1;
            if self.best.images.len() > 1 && !self.best.tasks.iter().any(|p| p.img == i) {
                self.with(|c| {
                    c.images.remove(i);
                    for p in &mut c.tasks {
                        if p.img > i {
                            p.img -= 1;
                        }
                    }
                });
            }
        }
    }
    fn cli(&mut self) {
        if self.best.cli.is_none() {
            return;
        }
        let plain = crate::cli::CliPlan::plain();
        let mut set = |f: &dyn Fn(&mut crate::cli::CliPlan)| {
            self.with(|c| {
                if let Some(p) = &mut c.cli {
                    f(p)
                }
            });
        };
        set(&|p| p.w = plain.w);
        set(&|p| p.open = None);
        set(&|p| p.mode = plain.mode);
        set(&|p| p.verbose = false);
        set(&|p| p.name = 0);
        set(&|p| p.file = None);
        set(&|p| p.vars = 0);
        set(&|p| p.var = None);
        set(&|p| p.pipe = false);
        set(&|p| p.first = false);
        for i in 0..2 {
            set(&|p| p.w[i] = plain.w[i]);
            set(&|p| p.w[i].fail = None);
            set(&|p| p.w[i].eintr = 0);
            set(&|p| p.w[i].max = 0);
        }
    }
    fn plans(&mut self) {
        for t in 0..self.best.tasks.len() {
            if self.late() {
                return;
            }
            self.with(|c| c.tasks[t].wrap = Wrap::Direct);
            self.with(|c| c.tasks[t].eintr.clear());
            if !self.with(|c| c.tasks[t].chunk = Chunk::All) && self.best.tasks[t].chunk != Chunk::All {
                self.with(|c| c.tasks[t].chunk = Chunk::Fixed(1));
            }
            self.with(|c| c.tasks[t].lat = 0);
            self.with(|c| {
                c.tasks[t].term = Term::Eof;
                c.tasks[t].end = c.images[c.tasks[t].img].len();
            });
            self.with(|c| c.tasks[t].term = Term::Eof);
            self.with(|c| c.tasks[t].end = c.images[c.tasks[t].img].len());
            if matches!(self.best.tasks[t].term, Term::Fail(_)) && self.best.cli.is_none() {
                self.with(|c| {
                    c.tasks[t].term =
                        Term::Fail(Fail { form: Form::Custom, code: KINDS.len() as u16 - 1, sticky: true })
                });
            }
            let mut n = self.best.tasks[t].eintr.len();
            while n >= 1 && !self.late() {
                let mut i = 0;
                while i < self.best.tasks[t].eintr.len() && !self.late() {
                    let hi = (i + n).min(self.best.tasks[t].eintr.len());
                    if !self.with(|c| drop(c.tasks[t].eintr.drain(i..hi))) {
                        i += n;
                    }
                }
                n /= 2;
            }
        }
    }
    fn images(&mut self) {
        for k in 0..self.best.images.len() {
            // nothing past the last delivered byte matters
            let used = self.best.tasks.iter().filter(|p| p.img == k).map(|p| p.end).max().unwrap_or(0);
            self.with(|c| c.images[k].truncate(used));
            // whole sections and code entries, last first
            for level in [0, 1] {
                let img = self.best.images[k].clone();
                let m = model::run(&img, img.len(), false, true);
                for f in m.frames.iter().rev().filter(|f| f.level == level && f.end <= img.len()) {
                    self.with(|c| cut(c, k, f.head, f.end, false));
                }
            }
            let mut n = self.best.images[k].len().next_power_of_two();
            while n >= 1 && !self.late() {
                let mut i = 0;
                while i < self.best.images[k].len() && !self.late() {
                    let hi = (i + n).min(self.best.images[k].len());
                    if !self.with(|c| cut(c, k, i, hi, true)) && !self.with(|c| cut(c, k, i, hi, false)) {
                        i += n;
                    }
                }
                n /= 2;
            }
        }
    }
}

fn cut(c: &mut Case, k: usize, lo: usize, hi: usize, reseal: bool) {
    let img = &mut c.images[k];
    let len = img.len();
    if hi > len || lo >= hi {
        return;
    }
    if reseal {
        let m = model::run(img, len, false, true);
        splice_resealed(img, &m.frames, lo, hi - lo, &[]);
    } else {
        img.drain(lo..hi);
    }
    let gone = len - img.len().min(len);
    let now = img.len();
    let hosts: Vec<bool> = c.tasks.iter().map(|p| p.img == k).collect();
    let fix = |o: usize| if o >= hi { o - gone.min(o) } else { o.min(lo) }.min(now);
    for p in c.tasks.iter_mut() {
        if let Some(i) = &mut p.inside {
            if hosts.get(i.0).copied().unwrap_or(false) {
                i.1 = fix(i.1);
            }
        }
        if p.img == k {
            p.end = fix(p.end);
            for e in &mut p.eintr {
                e.0 = fix(e.0);
            }
        }
    }
}
