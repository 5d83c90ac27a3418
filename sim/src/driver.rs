//! Commands: check (parent), worker, eval, replay, shrink.
use crate::case::Case;
use crate::eval::{self, Eval, NRF, RF_NAMES};
use crate::faults::{FK_NAMES, NFK};
use crate::gencase;
use crate::json::{J, obj};
use crate::rng::{fnv, hash2};
use crate::shrink;
use std::collections::HashSet;
use std::fs;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub fn root() -> PathBuf {
    std::env::var("WSIM_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

/// Cases per quick run.
fn quick_cases(prop: &str) -> u64 {
    match prop {
        "C01" => 400_000,
        "C02" => 400_000,
        "C03" => 250_000,
        "C04" => 300_000,
        "C05" => 150_000,
        "C06" => 120_000,
        "C07" => 400_000,
        "C16" | "C17" => 36_000,
        "C18" => 400_000,
        "C19" => 800_000,
        "C22" => 300_000,
        _ => 1_200_000,
    }
}
const THOROUGH_FACTOR: u64 = 60;

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}
pub fn tier() -> String {
    match std::env::var("VERIF_TIER") {
        Ok(t) if t == "thorough" => t,
        _ => "quick".into(),
    }
}

pub fn main(args: &[String]) -> i32 {
    if std::env::var_os("WSIM_VERBOSE").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let code = command(args);
    crate::cli::cleanup();
    code
}

fn command(args: &[String]) -> i32 {
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match a.as_slice() {
        ["check", prop] => check(prop),
        ["worker", prop, seed, start, step, end, out] => {
            worker(prop, n(seed), n(start), n(step), n(end), Path::new(out))
        }
        ["eval", file] => eval_cmd(file),
        ["replay", file] => replay(file),
        ["shrink", file, out, class] => shrink_cmd(file, out, class),
        ["show", prop, seed, i] => {
            let m = gencase::make(prop, n(seed), n(i));
            print!("{}", m.case.text());
            0
        }
        ["words"] => {
            // sim/baseline_words.txt
            for (w, n) in crate::dict::scan() {
                println!("{n} {w}");
            }
            0
        }
        ["dict"] => {
            println!("{:?}", crate::dict::get());
            0
        }
        ["cases", prop, seed, from, to] => {
            // determinism self-test: one line per case
            for i in n(from)..n(to) {
                let m = gencase::make(prop, n(seed), i);
                let e = eval::eval(&m.case);
                println!("{i} {:016x}", fingerprint(&m.case, &e));
            }
            0
        }
        _ => {
            eprintln!("usage: wsim check PROP | replay FILE | eval FILE | show PROP SEED I");
            2
        }
    }
}
fn n(s: &str) -> u64 {
    s.parse().unwrap_or(0)
}

fn fingerprint(c: &Case, e: &Eval) -> u64 {
    let mut h = case_hash(c);
    for x in e.states.iter().chain(&e.traces).chain(&e.fired).chain(&[e.execs, e.ticks, e.reads, e.oks, e.errs]) {
        h = hash2(h, *x);
    }
    if let Some(v) = &e.viol {
        h = hash2(h, fnv(format!("{} {}", v.class, v.detail).as_bytes()));
    }
    h
}

fn case_hash(c: &Case) -> u64 {
    let mut h = 1;
    for i in &c.images {
        h = hash2(h, fnv(i));
    }
    for t in &c.tasks {
        h = hash2(h, fnv(t.text().as_bytes()));
    }
    if let Some(p) = &c.cli {
        h = hash2(h, fnv(p.text().as_bytes()));
    }
    hash2(h, c.sched_seed.unwrap_or(0))
}

// ---------------------------------------------------------------- worker

#[derive(Default)]
struct Tally {
    cases: u64,
    skipped: u64,
    execs: u64,
    ticks: u64,
    reads: u64,
    bytes: u64,
    oks: u64,
    errs: u64,
    nontrivial: u64,
    rechecked: u64,
    mismatched: u64,
    asked: u64,
    fresh: u64,
    fired: [u64; NRF],
    struck: [u64; NFK],
}
impl Tally {
    fn fields(&mut self) -> Vec<&mut u64> {
        let mut v = vec![
            &mut self.cases,
            &mut self.skipped,
            &mut self.execs,
            &mut self.ticks,
            &mut self.reads,
            &mut self.bytes,
            &mut self.oks,
            &mut self.errs,
            &mut self.nontrivial,
            &mut self.rechecked,
            &mut self.mismatched,
            &mut self.asked,
            &mut self.fresh,
        ];
        v.extend(self.fired.iter_mut());
        v.extend(self.struck.iter_mut());
        v
    }
}

fn put_set(path: PathBuf, set: &HashSet<u64>) {
    let mut b = Vec::with_capacity(set.len() * 8);
    for x in set {
        b.extend(x.to_le_bytes());
    }
    let _ = fs::write(path, b);
}
fn get_set(path: PathBuf, into: &mut HashSet<u64>) {
    if let Ok(b) = fs::read(path) {
        into.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
    }
}

fn worker(prop: &str, seed: u64, start: u64, step: u64, end: u64, out: &Path) -> i32 {
    let progress = fs::File::create(out.join(format!("w{start}.progress"))).expect("progress file");
    let deadline = std::env::var("WSIM_DEADLINE").ok().and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let t0 = Instant::now();
    let mut t = Tally::default();
    let (mut states, mut traces, mut distinct) = (HashSet::new(), HashSet::new(), HashSet::new());
    let mut samples = String::new();
    let mut nsamples = 0;
    let mut code = 0;
    let mut i = start;
    while i < end {
        let _ = progress.write_at(&i.to_le_bytes(), 0);
        if t.cases % 64 == 0 && t0.elapsed().as_secs() >= deadline {
            break;
        }
        let m = gencase::make(prop, seed, i);
        let e = eval::eval(&m.case);
        t.cases += 1;
        t.skipped += e.skipped as u64;
        t.execs += e.execs;
        t.ticks += e.ticks;
        t.reads += e.reads;
        t.bytes += e.bytes;
        t.oks += e.oks;
        t.errs += e.errs;
        for (a, b) in t.fired.iter_mut().zip(e.fired) {
            *a += b;
        }
        for (a, b) in t.struck.iter_mut().zip(m.struck) {
            *a += b;
        }
        let faulted = m.struck.iter().any(|x| *x > 0) || e.fired.iter().any(|x| *x > 0);
        if !e.skipped && faulted {
            t.nontrivial += 1;
            distinct.insert(case_hash(&m.case));
            if nsamples < 3 && start == 0 && m.case.images[0].len() < 200 {
                nsamples += 1;
                samples += &format!("seed {seed} case {i}\n{}\x1e", m.case.text());
            }
        }
        states.extend(&e.states);
        if traces.len() < 400_000 {
            traces.extend(&e.traces);
        }
        if i % 499 == 0 {
            t.rechecked += 1;
            let f = eval::eval(&m.case);
            if fingerprint(&m.case, &e) != fingerprint(&m.case, &f) {
                t.mismatched += 1;
            }
        }
        if let Some(v) = e.viol {
            let _ = fs::write(
                out.join(format!("w{start}.viol")),
                format!("{i}\n{}\n{}", v.class, v.detail.replace('\n', " ")),
            );
            code = 1;
            break;
        }
        i += step;
    }
    let _ = progress.write_at(&u64::MAX.to_le_bytes(), 0);
    t.asked = crate::world::asked();
    t.fresh = crate::fresh::answers();
    let mut s = String::new();
    for f in t.fields() {
        s += &format!("{f} ");
    }
    let _ = fs::write(out.join(format!("w{start}.tally")), s);
    let _ = fs::write(out.join(format!("w{start}.samples")), samples);
    put_set(out.join(format!("w{start}.states")), &states);
    put_set(out.join(format!("w{start}.traces")), &traces);
    put_set(out.join(format!("w{start}.distinct")), &distinct);
    code
}

// ------------------------------------------------------ single evaluations

fn read_case(file: &str) -> Option<Case> {
    Case::parse(&fs::read_to_string(file).ok()?)
}

/// Run a replay file (single case, or a sequence of generated cases) in this
/// process and report.
fn eval_cmd(file: &str) -> i32 {
    let text = fs::read_to_string(file).unwrap_or_default();
    if text.starts_with("wsim-sequence") {
        let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
        let (prop, seed) = (get("prop "), n(&get("seed ")));
        for i in get("cases ").split(',') {
            let m = gencase::make(&prop, seed, n(i));
            if let Some(v) = eval::eval(&m.case).viol {
                println!("EVAL viol {} {}", v.class, v.detail);
                return 1;
            }
        }
        println!("EVAL ok");
        return 0;
    }
    let Some(c) = Case::parse(&text) else {
        eprintln!("cannot read {file}");
        return 2;
    };
    let e = eval::eval(&c);
    match e.viol {
        Some(v) => {
            println!("EVAL viol {} {}", v.class, v.detail.replace('\n', " "));
            1
        }
        None => {
            println!("EVAL {}", if e.skipped { "skip" } else { "ok" });
            0
        }
    }
}

/// Evaluate a replay file in a process of its own.
fn isolated(file: &Path, timeout: Duration) -> Result<Option<(String, String)>, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut ch = Command::new(exe)
        .arg("eval")
        .arg(file)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    let t0 = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().map_err(|e| e.to_string())? {
            let mut o = String::new();
            if let Some(mut p) = ch.stdout.take() {
                let _ = std::io::Read::read_to_string(&mut p, &mut o);
            }
            if let Some(sig) = st.signal() {
                return Ok(Some(("abort".into(), format!("the process was killed by signal {sig}"))));
            }
            if let Some(l) = o.lines().find_map(|l| l.strip_prefix("EVAL viol ")) {
                let (c, d) = l.split_once(' ').unwrap_or((l, ""));
                return Ok(Some((c.into(), d.into())));
            }
            return match st.code() {
                Some(0) => Ok(None),
                c => Err(format!("eval ended with {c:?}")),
            };
        }
        if t0.elapsed() > timeout {
            let _ = ch.kill();
            let _ = ch.wait();
            return Ok(Some(("hang".into(), format!("no result after {} s", timeout.as_secs()))));
        }
        std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 50 { 1 } else { 20 }));
    }
}

fn replay(file: &str) -> i32 {
    let text = fs::read_to_string(file).unwrap_or_default();
    let prop = text.lines().find_map(|l| l.strip_prefix("prop ")).unwrap_or("?").to_string();
    match isolated(Path::new(file), Duration::from_secs(60)) {
        Ok(Some((class, detail))) => {
            println!("{class}: {detail}");
            println!("VIOLATION property={prop} replay={file}");
            1
        }
        Ok(None) => {
            println!("{prop}: the replayed execution satisfies the property");
            0
        }
        Err(e) => {
            eprintln!("{e}");
            2
        }
    }
}

fn shrink_cmd(file: &str, out: &str, class: &str) -> i32 {
    let Some(mut c) = read_case(file) else { return 2 };
    // pin the schedule that was actually taken
    let e = eval::eval(&c);
    if c.sched_seed.is_some() && c.sched.is_empty() && e.viol.is_some() {
        let mut d = c.clone();
        d.sched = e.sched;
        d.sched_seed = None;
        if eval::eval(&d).viol.is_some_and(|v| v.class == class) {
            c = d;
        }
    }
    let (s, tries) = shrink::shrink(c, Instant::now() + Duration::from_secs(10), &mut |c| {
        eval::eval(c).viol.is_some_and(|v| v.class == class)
    });
    let mut s = s;
    s.notes.push(format!("(minimised in {tries} re-executions)"));
    let _ = fs::write(out, s.text());
    0
}

// ----------------------------------------------------------------- parent

struct Kid {
    ch: Child,
    start: u64,
    last: (u64, Instant),
    status: Option<Option<i32>>, // Some(None) = killed by signal
    hung: bool,
}

fn check(prop: &str) -> i32 {
    let t0 = Instant::now();
    let (seed, tier) = (seed(), tier());
    let out = std::env::temp_dir().join(format!("wsim-{prop}-{}", std::process::id()));
    let _ = fs::create_dir_all(&out);
    let code = check_in(prop, seed, &tier, &out, t0);
    let _ = fs::remove_dir_all(&out);
    code
}

pub fn known(prop: &str) -> Vec<(String, String)> {
    // finding: property=<id> replay=<file> <description>
    let t = fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        let Some(r) = l.strip_prefix("finding: property=") else { continue };
        let mut it = r.splitn(3, ' ');
        if it.next() == Some(prop) {
            let f = it.next().unwrap_or("").trim_start_matches("replay=").to_string();
            v.push((f, it.next().unwrap_or("").to_string()));
        }
    }
    v
}

fn check_in(prop: &str, seed: u64, tier: &str, out: &Path, t0: Instant) -> i32 {
    let mut known_seen = vec![];
    for (file, what) in known(prop) {
        match isolated(&root().join(&file), Duration::from_secs(60)) {
            Ok(Some((class, _))) => {
                println!("KNOWN-FINDING: property={prop} {what} [{class}, {file}]");
                known_seen.push(J::from(format!("{what} [{class}]")));
            }
            Ok(None) => println!("note: known finding no longer reproduces: {what} [{file}]"),
            Err(e) => {
                eprintln!("known finding {file}: {e}");
                return 2;
            }
        }
    }
    let jobs = 8u64;
    let total = quick_cases(prop) * if tier == "thorough" { THOROUGH_FACTOR } else { 1 };
    let total = std::env::var("WSIM_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(total);
    let exe = std::env::current_exe().expect("exe");
    let ts = Instant::now();
    let mut kids: Vec<Kid> = (0..jobs)
        .map(|w| Kid {
            ch: Command::new(&exe)
                .args(["worker", prop])
                .args([seed, w, jobs, total].map(|x| x.to_string()))
                .arg(out)
                .env("TMPDIR", out)
                .env("WSIM_DEADLINE", if tier == "thorough" { "3600" } else { "120" })
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(if std::env::var_os("WSIM_VERBOSE").is_some() { Stdio::inherit() } else { Stdio::null() })
                .spawn()
                .expect("spawn worker"),
            start: w,
            last: (0, Instant::now()),
            status: None,
            hung: false,
        })
        .collect();
    while kids.iter().any(|k| k.status.is_none()) {
        for k in kids.iter_mut().filter(|k| k.status.is_none()) {
            if let Ok(Some(st)) = k.ch.try_wait() {
                k.status = Some(st.code());
                continue;
            }
            let p = progress(out, k.start);
            if p != k.last.0 {
                k.last = (p, Instant::now());
            } else if k.last.1.elapsed() > Duration::from_secs(40) {
                k.hung = true;
                let _ = k.ch.kill();
                let _ = k.ch.wait();
                k.status = Some(None);
            }
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let sim_s = ts.elapsed().as_secs_f64();

    // which case failed first, by index, whatever worker ran it
    let mut bad: Vec<(u64, String, String, u64)> = vec![];
    for k in &kids {
        match k.status {
            Some(Some(0)) => {}
            Some(Some(1)) => {
                let t = fs::read_to_string(out.join(format!("w{}.viol", k.start))).unwrap_or_default();
                let mut l = t.splitn(3, '\n');
                let i = n(l.next().unwrap_or(""));
                bad.push((i, l.next().unwrap_or("?").into(), l.next().unwrap_or("").into(), k.start));
            }
            Some(None) => {
                let i = progress(out, k.start);
                let (c, d) = if k.hung { ("hang", "decode did not finish") } else { ("abort", "the process died") };
                bad.push((i, c.into(), d.into(), k.start));
            }
            c => {
                eprintln!("worker {} ended with {c:?}", k.start);
                return 2;
            }
        }
    }
    bad.sort();
    let mut tally = Tally::default();
    let (mut states, mut traces, mut distinct) = (HashSet::new(), HashSet::new(), HashSet::new());
    let mut samples = vec![];
    for k in &kids {
        let s = fs::read_to_string(out.join(format!("w{}.tally", k.start))).unwrap_or_default();
        for (f, x) in tally.fields().into_iter().zip(s.split_whitespace()) {
            *f += n(x);
        }
        get_set(out.join(format!("w{}.states", k.start)), &mut states);
        get_set(out.join(format!("w{}.traces", k.start)), &mut traces);
        get_set(out.join(format!("w{}.distinct", k.start)), &mut distinct);
        let s = fs::read_to_string(out.join(format!("w{}.samples", k.start))).unwrap_or_default();
        samples.extend(s.split('\x1e').filter(|x| !x.is_empty()).map(|x| J::from(clip(x, 6000))));
    }

    let mut code = 0;
    if let Some((i, class, detail, w)) = bad.first() {
        code = 1;
        let file = report(prop, seed, *i, class, detail, *w, jobs, out);
        println!("VIOLATION property={prop} replay={}", file.display());
    }

    let mut injected = vec![];
    for (i, c) in tally.struck.iter().enumerate() {
        if *c > 0 {
            injected.push((format!("storage: {}", FK_NAMES[i]), J::from(*c)));
        }
    }
    for (i, c) in tally.fired.iter().enumerate() {
        if *c > 0 {
            injected.push((format!("i/o: {}", RF_NAMES[i]), J::from(*c)));
        }
    }
    let (real, stub) = if matches!(prop, "C16" | "C17") {
        (
            vec!["wadec-cli binary, all of it, built from /repo's working tree", "wadec library", "std, clap, patharg"],
            vec!["open, read, readv, pread, write, writev, close on the input, stdout and stderr: answered by shim/shim.c according to the seeded plan, bytes from scratch files", "clock_gettime, nanosleep, clock_nanosleep, getrandom: simulated clocks in shim/shim.c", "environment variables: set by seed"],
        )
    } else {
        (
            vec!["wadec library, all of it, built from /repo's working tree", "std::io adapters (Take, Chain, BufReader, Cursor)"],
            vec!["the input: file, pipe or socket replaced by SimReader", "time: clock_gettime, nanosleep, clock_nanosleep answered from simulated clocks that reads advance", "environment variables and random bytes (getenv, getrandom): answered by seed", "thread scheduling: one baton, handed over at read calls, allocations, lock waits (futex) and control-flow edges, seeded", "allocator: counted, a machine with 2 GiB per decode"],
        )
    };
    let hour = |x: u64| J::I((x as f64 / sim_s.max(0.001) * 3600.0) as i64);
    let cov = obj(vec![
        ("evaluations", tally.execs.into()),
        ("distinct_nontrivial", (distinct.len() as u64).into()),
        (
            "rule",
            J::from(format!(
                "case i of property {prop} is a pure function of (VERIF_SEED, property, i): generated module image(s), storage faults, one reader plan per decode, schedule; non-trivial = not skipped and at least one injected fault took effect; distinct = different (images, plans, schedule seed)"
            )),
        ),
        ("samples", J::A(samples)),
        ("seeds_run", tally.cases.into()),
        ("seeds_skipped_by_guard", tally.skipped.into()),
        ("simulated_runs", tally.execs.into()),
        ("simulated_runs_per_hour", hour(tally.execs)),
        ("seeds_per_hour", hour(tally.cases)),
        ("simulated_time_ticks", tally.ticks.into()),
        ("simulated_time_note", J::from("one tick is one microsecond of virtual I/O latency")),
        ("reads_simulated", tally.reads.into()),
        ("bytes_delivered", tally.bytes.into()),
        ("decodes_ok", tally.oks.into()),
        ("decodes_failed", tally.errs.into()),
        ("faults_injected", J::O(injected)),
        ("distinct_states", (states.len() as u64).into()),
        (
            "distinct_states_measure",
            J::from("(how delivery ended, model verdict, section, role of the last field reached, storage fault kind, struck field role and section)"),
        ),
        ("distinct_delivery_schedules", (traces.len() as u64).into()),
        ("clock_environment_random_queries", tally.asked.into()),
        ("histories_in_fresh_processes", tally.fresh.into()),
        ("determinism_rechecks", tally.rechecked.into()),
        ("determinism_mismatches", tally.mismatched.into()),
        ("real_components", J::A(real.into_iter().map(J::from).collect())),
        ("stub_components", J::A(stub.into_iter().map(J::from).collect())),
        ("known_findings_reproduced", J::A(known_seen)),
    ]);
    write_evidence(prop, tier, seed, cov, t0.elapsed().as_secs_f64(), code as i64);
    println!(
        "{prop}: {} seeds, {} simulated runs, {} distinct states, {} delivery schedules, {:.1} s: {}",
        tally.cases,
        tally.execs,
        states.len(),
        traces.len(),
        sim_s,
        if code == 0 { "held" } else { "violated" }
    );
    code
}

pub fn write_evidence(prop: &str, tier: &str, seed: u64, cov: J, wall: f64, violations: i64) {
    let ev = obj(vec![
        ("property", prop.into()),
        ("tier", tier.into()),
        ("seed", seed.into()),
        ("level", "exploration".into()),
        ("coverage", cov),
        (
            "assumptions",
            J::A(vec![
                J::from("the reference model (sim/src/model.rs) states the WebAssembly 3.0 binary format correctly"),
                J::from("readers obey the std::io::Read contract (never claim more bytes than the buffer holds)"),
                J::from("seeded sampling: absence of a violation is evidence, not proof"),
            ]),
        ),
        ("wall_s", J::F(wall)),
        ("violations", J::I(violations)),
    ]);
    let mut s = String::new();
    ev.write(&mut s, 0);
    s.push('\n');
    let dir = root().join("evidence");
    let _ = fs::create_dir_all(&dir);
    let _ = fs::write(dir.join(format!("{prop}.json")), s);
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n { s.into() } else { format!("{}...", s.chars().take(n).collect::<String>()) }
}

fn progress(out: &Path, w: u64) -> u64 {
    match fs::read(out.join(format!("w{w}.progress"))) {
        Ok(b) if b.len() >= 8 => u64::from_le_bytes(b[..8].try_into().unwrap()),
        _ => 0,
    }
}

/// Minimise, confirm and store the failing execution.
#[allow(clippy::too_many_arguments)]
fn report(prop: &str, seed: u64, i: u64, class: &str, detail: &str, w: u64, jobs: u64, out: &Path) -> PathBuf {
    let dir = root().join("replays");
    let _ = fs::create_dir_all(&dir);
    let dest = dir.join(format!("{prop}-s{seed}-c{i}.replay"));
    let case = gencase::make(prop, seed, i).case;
    let raw = out.join("raw.replay");
    let _ = fs::write(&raw, case.text());
    let limit = Duration::from_secs(if class == "hang" { 40 } else { 60 });
    let head = |d: &str| format!("seed {seed} case {i}\nclass {class}\nviolation {}\n", clip(&d.replace('\n', " "), 2000));
    println!("seed {seed} case {i}: {class}: {}", clip(detail, 1500));
    let confirmed = matches!(isolated(&raw, limit), Ok(Some((c, _))) if c == class);
    if confirmed {
        let min = out.join("min.replay");
        if class == "abort" {
            let tmp = out.join("try.replay");
            let (s, tries) = shrink::shrink(case.clone(), Instant::now() + Duration::from_secs(8), &mut |c| {
                let _ = fs::write(&tmp, c.text());
                matches!(isolated(&tmp, Duration::from_secs(20)), Ok(Some((k, _))) if k == class)
            });
            let mut s = s;
            s.notes.push(format!("(minimised in {tries} re-executions)"));
            let _ = fs::write(&min, s.text());
        } else if class != "hang" {
            if let Ok(mut ch) = Command::new(std::env::current_exe().unwrap())
                .arg("shrink")
                .arg(&raw)
                .arg(&min)
                .arg(class)
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
            {
                let t = Instant::now();
                while ch.try_wait().ok().flatten().is_none() {
                    if t.elapsed() > Duration::from_secs(25) {
                        let _ = ch.kill();
                        let _ = ch.wait();
                        break;
                    }
                    std::thread::sleep(Duration::from_millis(5));
                }
            }
        }
        if min.exists() {
            if let Ok(Some((c, d))) = isolated(&min, limit) {
                if c == class {
                    println!("minimised: {}", clip(&d, 1500));
                    let t = fs::read_to_string(&min).unwrap_or_default();
                    let _ = fs::write(&dest, t + &head(&d));
                    return dest;
                }
            }
        }
        let _ = fs::write(&dest, case.text() + &head(detail));
        return dest;
    }
    // state carried over from earlier executions in the same process?
    let seq = |from: u64| -> String {
        let list: Vec<String> = (0..).map(|k| w + k * jobs).take_while(|x| *x <= i).filter(|x| *x >= from).map(|x| x.to_string()).collect();
        format!("wsim-sequence 1\nprop {prop}\nseed {seed}\ncases {}\n", list.join(","))
    };
    let mut back = 1;
    loop {
        let from = i.saturating_sub(back * jobs);
        let _ = fs::write(&raw, seq(from) + &head(detail));
        if matches!(isolated(&raw, Duration::from_secs(120)), Ok(Some(_))) || from == 0 {
            break;
        }
        back *= 4;
    }
    println!("needs the executions before it in the same process: sequence replay");
    let _ = fs::copy(&raw, &dest);
    dest
}
