//! Supervisor / worker engine for exhaustive enumerations of the real code.
//!
//! A check is a deterministic enumeration of cases. Workers walk the same enumeration; worker k
//! of n evaluates the cases whose running number is k modulo n. Before each case a worker writes
//! its number and description into a shared progress file, so that a crash (signal), a hang or
//! an allocation failure of the code under test is attributed to exactly one case.
use std::cell::RefCell;
use std::collections::HashSet;
use std::fs::{self, File, OpenOptions};
use std::io::{BufRead, BufReader, Write};
use std::os::fd::AsRawFd;
use std::os::unix::process::ExitStatusExt;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub const VERIF: &str = env!("MC_VERIF_DIR");
const PROG_SIZE: usize = 1 << 16;
const MAX_VIOL_PER_WORKER: usize = 40;
const HANG_CPU_SECS: f64 = 30.0;
const MAX_RESTARTS: u32 = 12;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Progress {
    ptr: *mut u8,
}
unsafe impl Send for Progress {}
impl Progress {
    fn open(path: &str) -> Progress {
        let f = OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
        f.set_len(PROG_SIZE as u64).unwrap();
        let ptr = unsafe {
            libc::mmap(std::ptr::null_mut(), PROG_SIZE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(ptr != libc::MAP_FAILED);
        Progress { ptr: ptr as *mut u8 }
    }
    fn set(&self, idx: u64, desc: &str) {
        let mut n = desc.len().min(PROG_SIZE - 32);
        while !desc.is_char_boundary(n) {
            n -= 1;
        }
        unsafe {
            (self.ptr as *mut u64).add(1).write_volatile(n as u64);
            std::ptr::copy_nonoverlapping(desc.as_ptr(), self.ptr.add(16), n);
            (self.ptr as *mut u64).write_volatile(idx + 1);
        }
    }
    fn get(&self) -> (u64, String) {
        unsafe {
            let idx = (self.ptr as *const u64).read_volatile();
            let n = ((self.ptr as *const u64).add(1).read_volatile() as usize).min(PROG_SIZE - 32);
            let s = std::slice::from_raw_parts(self.ptr.add(16), n);
            (idx, String::from_utf8_lossy(s).into_owned())
        }
    }
}

#[derive(Clone)]
enum Mode {
    Shard { k: u64, n: u64, from: u64 },
    Only(u64),
    Count,
}

pub struct Ctx {
    pub tier: Tier,
    pub id: String,
    mode: Mode,
    next: u64,
    pub cur: u64,
    progress: Option<Progress>,
    pub evals: u64,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    outcomes: HashSet<u64>,
    classes: std::collections::BTreeMap<String, u64>,
    samples: Vec<String>,
    violations: Vec<(u64, String, String, String)>,
    pub stop: bool,
}

pub fn fnv(s: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

impl Ctx {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.quick() { q } else { t }
    }
    /// Claim the next case. Returns true if this worker has to evaluate it.
    #[inline]
    pub fn mine(&mut self) -> bool {
        let i = self.next;
        self.next += 1;
        if self.stop {
            return false;
        }
        let m = match self.mode {
            Mode::Shard { k, n, from } => i % n == k && i >= from,
            Mode::Only(x) => i == x,
            Mode::Count => false,
        };
        if m {
            self.cur = i;
        }
        m
    }
    /// Skip `n` cases at once if none of them is needed (used to skip whole blocks quickly).
    /// Record what is about to be evaluated (crash attribution, samples).
    #[inline]
    pub fn begin(&mut self, desc: &str) {
        self.evals += 1;
        if let Some(p) = &self.progress {
            p.set(self.cur, desc);
        }
        let e = self.evals;
        if (e.is_power_of_two() || e % 65536 == 0) && self.samples.len() < 24 {
            self.samples.push(desc.to_string());
        }
    }
    /// Keep the watchdog quiet during long set-up work.
    pub fn tick(&self) {
        if let Some(p) = &self.progress {
            let (i, d) = p.get();
            p.set(i.wrapping_add(1 << 40), &d);
        }
    }
    #[inline]
    pub fn outcome(&mut self, s: &str) {
        if self.outcomes.len() < 4_000_000 {
            self.outcomes.insert(fnv(s.as_bytes()));
        }
    }
    pub fn class(&mut self, c: &str) {
        if let Some(x) = self.classes.get_mut(c) {
            *x += 1;
        } else {
            self.classes.insert(c.to_string(), 1);
        }
    }
    /// Report a violation of the current case. `key` identifies it for known findings.
    pub fn violation(&mut self, key: &str, input: &str, what: &str) {
        // One input per key is enough, so that a known finding doesn't end the search.
        if std::env::var_os("MC_ALL").is_none() && self.violations.iter().any(|v| v.1 == key) {
            return;
        }
        self.violations.push((self.cur, key.to_string(), input.to_string(), what.to_string()));
        if self.violations.len() >= if std::env::var_os("MC_ALL").is_some() { 1 << 20 } else { MAX_VIOL_PER_WORKER } {
            self.stop = true;
        }
    }
    /// A generic two-sided comparison.
    pub fn check(&mut self, ok: bool, input: &str, what: impl FnOnce() -> String) -> bool {
        if !ok {
            let w = what();
            self.violation(input, input, &w);
        }
        ok
    }
}

thread_local! {
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("MC_SHOW_PANICS").is_some() {
            eprintln!("PANIC {msg}{loc}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg}{loc}"));
    }));
}

pub struct Spec {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub bounds: fn(Tier) -> String,
    pub assumptions: &'static [&'static str],
    pub run: fn(&mut Ctx),
    /// Number of workers (checks that spawn processes themselves may want fewer).
    pub workers: u64,
    /// Preparation done once by the supervisor before the workers start (e.g. building tools).
    pub prepare: Option<fn(Tier) -> Result<(), String>>,
}

fn new_ctx(id: &str, tier: Tier, mode: Mode, progress: Option<Progress>) -> Ctx {
    Ctx {
        tier,
        id: id.to_string(),
        mode,
        next: 0,
        cur: 0,
        progress,
        evals: 0,
        states: 0,
        transitions: 0,
        traces: 0,
        outcomes: HashSet::new(),
        classes: Default::default(),
        samples: Vec::new(),
        violations: Vec::new(),
        stop: false,
    }
}

fn set_limits() {
    unsafe {
        // The hard limit stays, so that a child that needs a larger address space can have it.
        let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::getrlimit(libc::RLIMIT_AS, &mut l);
        l.rlim_cur = l.rlim_max.min(3 << 30);
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}

/// Run the enumeration on a thread with the default main-thread stack size (8 MiB).
fn run_on_thread(spec_run: fn(&mut Ctx), ctx: Ctx) -> Ctx {
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let mut ctx = ctx;
            spec_run(&mut ctx);
            ctx
        })
        .unwrap()
        .join()
        .unwrap_or_else(|_| {
            eprintln!("harness panic: {:?}", LAST_PANIC.with(|p| p.borrow().clone()));
            std::process::exit(3)
        })
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c => o.push(c),
        }
    }
    o
}
pub fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}
pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Entry point of a worker process.
pub fn worker(spec: &Spec, tier: Tier, k: u64, n: u64, dir: &str, from: u64) {
    install_panic_hook();
    set_limits();
    let p = Progress::open(&format!("{dir}/p{k}"));
    let ctx = new_ctx(spec.id, tier, Mode::Shard { k, n, from }, Some(p));
    let ctx = run_on_thread(spec.run, ctx);
    let mut out = std::io::stdout().lock();
    for (i, key, input, what) in &ctx.violations {
        writeln!(out, "V\t{i}\t{}\t{}\t{}", esc(key), esc(input), esc(what)).unwrap();
    }
    for s in &ctx.samples {
        writeln!(out, "S\t{}", esc(s)).unwrap();
    }
    for (c, n) in &ctx.classes {
        writeln!(out, "C\t{n}\t{}", esc(c)).unwrap();
    }
    let mut f = File::create(format!("{dir}/o{k}")).unwrap();
    let mut buf = Vec::with_capacity(ctx.outcomes.len() * 8);
    for h in &ctx.outcomes {
        buf.extend_from_slice(&h.to_le_bytes());
    }
    f.write_all(&buf).unwrap();
    writeln!(out, "N\t{}\t{}\t{}\t{}\t{}\t{}", ctx.evals, ctx.states, ctx.transitions, ctx.traces, ctx.next, ctx.stop as u8).unwrap();
    writeln!(out, "DONE").unwrap();
}

fn known_findings() -> Vec<(String, String, String)> {
    // lines: known: property=<id> key=<escaped key> :: <description>
    let mut v = Vec::new();
    if let Ok(s) = fs::read_to_string(format!("{VERIF}/known_findings.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("known: property=") {
                if let Some((id, r)) = r.split_once(" key=") {
                    if let Some((key, d)) = r.split_once(" :: ") {
                        v.push((id.trim().to_string(), unesc(key.trim()), d.to_string()));
                    }
                }
            }
        }
    }
    v
}

fn cpu_time(pid: u32) -> Option<f64> {
    let s = fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let r = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = r.split(' ').collect();
    let u: f64 = f.get(11)?.parse().ok()?;
    let k: f64 = f.get(12)?.parse().ok()?;
    Some((u + k) / 100.0)
}

struct W {
    child: Child,
    reader: std::thread::JoinHandle<Vec<String>>,
    prog: Progress,
    last: u64,
    last_cpu: f64,
    last_wall: Instant,
    done: bool,
    restarts: u32,
}
fn spawn_worker(spec: &Spec, tier: Tier, k: u64, n: u64, dir: &str, from: u64) -> W {
    let exe = std::env::current_exe().unwrap();
    let _ = fs::remove_file(format!("{dir}/p{k}"));
    let mut child = Command::new(&exe)
        .args(["worker", spec.id, tier_name(tier), &k.to_string(), &n.to_string(), dir, &from.to_string()])
        .env("RUST_BACKTRACE", "0")
        .stdout(Stdio::piped())
        .stderr(if std::env::var_os("MC_STDERR").is_some() { Stdio::inherit() } else { Stdio::null() })
        .spawn()
        .unwrap();
    let so = child.stdout.take().unwrap();
    let reader = std::thread::spawn(move || BufReader::new(so).lines().map_while(Result::ok).collect());
    W { child, reader, prog: Progress::open(&format!("{dir}/p{k}")), last: 0, last_cpu: 0.0, last_wall: Instant::now(), done: false, restarts: 0 }
}

pub struct Viol {
    pub idx: u64,
    pub key: String,
    pub input: String,
    pub what: String,
}

fn tier_name(t: Tier) -> &'static str {
    if t == Tier::Quick { "quick" } else { "thorough" }
}

/// Run the case numbered `idx` alone in a fresh process; returns Some(description) if it violates.
fn rerun_single(spec: &Spec, tier: Tier, idx: u64) -> Option<String> {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe)
        .args(["one", spec.id, tier_name(tier), &idx.to_string()])
        .env("RUST_BACKTRACE", "0")
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let pid = c.id();
    let t0 = Instant::now();
    loop {
        if let Some(st) = c.try_wait().unwrap() {
            let mut s = String::new();
            use std::io::Read;
            let _ = c.stdout.take().unwrap().read_to_string(&mut s);
            if let Some(sig) = st.signal() {
                return Some(format!("process killed by signal {sig} ({})", match sig { 6 => "abort: stack overflow, allocation failure or double panic", 11 => "segmentation fault", _ => "?" }));
            }
            return match st.code() {
                Some(0) => None,
                Some(1) => Some(s),
                _ => None,
            };
        }
        if cpu_time(pid).unwrap_or(0.0) > HANG_CPU_SECS * 1.5 || t0.elapsed() > Duration::from_secs(180) {
            let _ = c.kill();
            let _ = c.wait();
            return Some("no result within the time limit (hang)".into());
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

/// Evaluate a single case (used for replay and for confirming crashes).
pub fn one(spec: &Spec, tier: Tier, idx: u64) -> i32 {
    install_panic_hook();
    set_limits();
    let ctx = new_ctx(spec.id, tier, Mode::Only(idx), None);
    let ctx = run_on_thread(spec.run, ctx);
    for (_, key, input, what) in &ctx.violations {
        println!("case {idx}: {what}\n  input: {input}\n  key: {key}");
    }
    if ctx.evals == 0 {
        println!("case {idx} not found");
        return 2;
    }
    if ctx.violations.is_empty() { 0 } else { 1 }
}

pub fn supervise(spec: &Spec, tier: Tier) -> i32 {
    let t0 = Instant::now();
    if let Some(p) = spec.prepare {
        if let Err(e) = p(tier) {
            eprintln!("preparation failed: {e}");
            return 2;
        }
    }
    let dir = format!("{VERIF}/work/{}-{}", spec.id, std::process::id());
    fs::create_dir_all(&dir).unwrap();
    let n = spec.workers;
    let mut ws: Vec<W> = (0..n).map(|k| spawn_worker(spec, tier, k, n, &dir, 0)).collect();
    let mut viols: Vec<Viol> = Vec::new();
    let mut errors: Vec<String> = Vec::new();
    let mut suspects: Vec<(u64, String, String)> = Vec::new();
    let mut incomplete = false;
    loop {
        let mut alive = false;
        for (k, w) in ws.iter_mut().enumerate() {
            if w.done {
                continue;
            }
            let mut lost: Option<(u64, String, String)> = None;
            match w.child.try_wait().unwrap() {
                Some(st) => {
                    w.done = true;
                    if !st.success() {
                        let (i, d) = w.prog.get();
                        if st.code().is_some() {
                            errors.push(format!("worker {k} exited with {st} at case {i}: {d}"));
                        } else {
                            lost = Some((i & ((1 << 40) - 1), d, format!("worker died: {st}")));
                        }
                    }
                }
                None => {
                    alive = true;
                    let (i, d) = w.prog.get();
                    let cpu = cpu_time(w.child.id()).unwrap_or(0.0);
                    if i != w.last {
                        w.last = i;
                        w.last_cpu = cpu;
                        w.last_wall = Instant::now();
                    } else if i != 0 && (cpu - w.last_cpu > HANG_CPU_SECS || w.last_wall.elapsed() > Duration::from_secs(300)) {
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        w.done = true;
                        lost = Some((i & ((1 << 40) - 1), d, "hang".into()));
                    }
                }
            }
            if let Some((i, d, how)) = lost {
                // The rest of this worker's share is explored by a new worker.
                if i > 0 && w.restarts < MAX_RESTARTS {
                    let restarts = w.restarts + 1;
                    *w = spawn_worker(spec, tier, k as u64, n, &dir, i);
                    w.restarts = restarts;
                    alive = true;
                } else {
                    incomplete = true;
                }
                suspects.push((i, d, how));
            }
        }
        if !alive {
            break;
        }
        std::thread::sleep(Duration::from_millis(50));
    }
    let (mut evals, mut states, mut transitions, mut traces) = (0u64, 0u64, 0u64, 0u64);
    let mut total_cases = 0u64;
    let mut stopped = false;
    let mut samples = Vec::new();
    let mut classes: std::collections::BTreeMap<String, u64> = Default::default();
    let mut outcomes: HashSet<u64> = HashSet::new();
    for (k, w) in ws.into_iter().enumerate() {
        let lines = w.reader.join().unwrap();
        let complete = lines.last().map(|l| l == "DONE").unwrap_or(false);
        for l in &lines {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "V" if f.len() == 5 => viols.push(Viol { idx: f[1].parse().unwrap(), key: unesc(f[2]), input: unesc(f[3]), what: unesc(f[4]) }),
                "S" if k == 0 || samples.len() < 6 => samples.push(unesc(f[1])),
                "C" => *classes.entry(unesc(f[2])).or_insert(0) += f[1].parse::<u64>().unwrap(),
                "N" => {
                    evals += f[1].parse::<u64>().unwrap();
                    states = states.max(f[2].parse::<u64>().unwrap());
                    transitions = transitions.max(f[3].parse::<u64>().unwrap());
                    traces += f[4].parse::<u64>().unwrap();
                    total_cases = total_cases.max(f[5].parse::<u64>().unwrap());
                    stopped |= f[6] == "1";
                }
                _ => {}
            }
        }
        if complete {
            if let Ok(b) = fs::read(format!("{dir}/o{k}")) {
                for c in b.chunks_exact(8) {
                    outcomes.insert(u64::from_le_bytes(c.try_into().unwrap()));
                }
            }
        } else {
            stopped = true;
        }
    }
    // Confirm crashes and hangs in a fresh process before believing them.
    for (i, d, how) in suspects {
        if i == 0 {
            errors.push(format!("worker ended before its first case ({how})"));
            continue;
        }
        match rerun_single(spec, tier, i - 1) {
            Some(w) => viols.push(Viol { idx: i - 1, key: format!("crash:{d}"), input: d.clone(), what: format!("{how}; confirmed: {w}") }),
            // A kill from outside or an overloaded machine; the case itself holds alone.
            None => println!("note: {how} at case {} ({d}) did not happen again", i - 1),
        }
    }
    let _ = fs::remove_dir_all(&dir);
    viols.sort_by_key(|v| v.idx);
    let known = known_findings();
    let mut seen_known: Vec<String> = Vec::new();
    let mut real: Vec<&Viol> = Vec::new();
    for v in &viols {
        if let Some((_, key, d)) = known.iter().find(|(id, key, _)| id == spec.id && *key == v.key) {
            if !seen_known.contains(key) {
                seen_known.push(key.clone());
                println!("KNOWN-FINDING: property={} {} [{}]", spec.id, d, v.input.escape_debug());
            }
        } else {
            real.push(v);
        }
    }
    let exhaustive = !stopped && !incomplete && errors.is_empty();
    let wall = t0.elapsed().as_secs_f64();
    let mut cov = String::new();
    cov.push_str(&format!("\"evaluations\": {evals}, \"distinct_nontrivial\": {}, ", outcomes.len()));
    if states > 0 {
        cov.push_str(&format!("\"states\": {states}, \"transitions\": {transitions}, \"traces_validated_against_impl\": {traces}, "));
    }
    cov.push_str(&format!("\"rule\": {}, \"bounds\": {}, \"exhaustive\": {exhaustive}, \"cases_enumerated\": {total_cases}, ", json_str(spec.rule), json_str(&(spec.bounds)(tier))));
    cov.push_str(&format!("\"outcome_classes\": {{{}}}, ", classes.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect::<Vec<_>>().join(", ")));
    samples.truncate(30);
    cov.push_str(&format!("\"samples\": [{}]", samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")));
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let ev = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": {}, \"coverage\": {{{cov}}}, \"assumptions\": [{}], \"wall_s\": {wall:.2}, \"violations\": {}, \"known_findings\": {}}}\n",
        json_str(spec.id), json_str(tier_name(tier)), json_str(spec.level),
        spec.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        real.len(), seen_known.len()
    );
    fs::create_dir_all(format!("{VERIF}/evidence")).unwrap();
    fs::write(format!("{VERIF}/evidence/{}.json", spec.id), ev).unwrap();
    println!("{} {}: evaluations={evals} cases={total_cases} states={states} transitions={transitions} distinct={} exhaustive={exhaustive} wall={wall:.1}s", spec.id, tier_name(tier), outcomes.len());
    for (k, v) in classes.iter().take(40) {
        println!("  {v:>10}  {k}");
    }
    if !real.is_empty() {
        let rdir = format!("{VERIF}/replays");
        fs::create_dir_all(&rdir).unwrap();
        let mut shown = 0;
        // for development: MC_ALL=<file> lists every violation
        if let Ok(f) = std::env::var("MC_ALL") {
            let all: String = real.iter().map(|v| format!("{}\n\t{}\n", v.input.escape_debug(), v.what)).collect();
            let _ = fs::write(f, all);
        }
        for v in real.iter().take(30) {
            let path = format!("{rdir}/{}-{}.txt", spec.id, v.idx);
            let _ = fs::write(&path, format!(
                "property: {}\ntier: {}\ncase: {}\nkey: {}\nreplay: ./run.sh replay {}\n\ninput:\n{}\n\nwhat:\n{}\n",
                spec.id, tier_name(tier), v.idx, esc(&v.key), path, v.input, v.what));
            if shown < 12 {
                println!("VIOLATION property={} replay={}", spec.id, path);
                println!("  input: {}\n  what: {}", v.input.escape_debug(), v.what.chars().take(600).collect::<String>());
            }
            shown += 1;
        }
        println!("{} violations in total", real.len());
        return 1;
    }
    if !errors.is_empty() {
        for e in &errors {
            eprintln!("ERROR: {e}");
        }
        return 2;
    }
    0
}

/// Re-run the case recorded in a replay file.
pub fn replay(specs: &[Spec], path: &str) -> i32 {
    let s = fs::read_to_string(path).expect("replay file");
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).map(|x| x.trim().to_string()).unwrap();
    let id = get("property:");
    let tier = if get("tier:") == "quick" { Tier::Quick } else { Tier::Thorough };
    let idx: u64 = get("case:").parse().unwrap();
    let spec = specs.iter().find(|s| s.id == id).expect("property");
    if let Some(p) = spec.prepare {
        if let Err(e) = p(tier) {
            eprintln!("preparation failed: {e}");
            return 2;
        }
    }
    match rerun_single(spec, tier, idx) {
        Some(w) => {
            println!("VIOLATION property={id} replay={path}\n{w}");
            1
        }
        None => {
            println!("case {idx} of {id} does not violate the property on this tree");
            0
        }
    }
}
pub fn count(spec: &Spec, tier: Tier) -> u64 {
    let ctx = new_ctx(spec.id, tier, Mode::Count, None);
    run_on_thread(spec.run, ctx).next
}
