//! Runs the cases of a check in worker processes, watches them, and gives the verdict.
//!
//! Verdicts are three-valued. A case is *violated* when its oracle says so, when the code
//! under test panics, when the process dies from a signal other than SIGKILL, or when it
//! burns more CPU time than CPU_LIMIT (at least two orders of magnitude more than any case
//! needs) or is deadlocked (no thread has run for a minute). It is *inconclusive* when the
//! worker was SIGKILLed (out of memory) or the harness itself failed. Wall-clock time never
//! decides a verdict, it only bounds how many cases are started.
use crate::rng::hash_bytes;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{self, BufRead, BufReader, Write};
use std::os::fd::FromRawFd;
use std::panic::{self, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier { Quick, Thorough }

#[derive(Clone, Copy)]
pub struct Ctx { pub tier: Tier, pub seed: u64 }

impl Ctx {
    pub fn quick(&self) -> bool { self.tier == Tier::Quick }
    /// q in quick runs, t in thorough ones
    pub fn n(&self, q: usize, t: usize) -> usize { if self.quick() { q } else { t } }
    pub fn rng(&self, salt: u64) -> crate::Rng { crate::Rng::new(crate::rng::mix(self.seed).wrapping_add(salt.wrapping_mul(0x9E3779B97F4A7C15))) }
}

#[derive(Clone, Debug)]
pub struct Viol { pub sig: String, pub msg: String }
impl Viol { pub fn new<S: Into<String>, M: Into<String>>(sig: S, msg: M) -> Self { Viol { sig: sig.into(), msg: msg.into() } } }
pub type R = Result<(), Viol>;

/// What a case observed.
#[derive(Default)]
pub struct Obs {
    evals: u64,
    fps: HashSet<u64>,
    counts: BTreeMap<String, u64>,
    maxes: BTreeMap<String, f64>,
    sample: Option<String>,
}
impl Obs {
    /// One more execution judged by the oracle; if it is not trivial, `key` identifies it.
    pub fn eval(&mut self, nontrivial: bool, key: &[u8]) {
        self.evals += 1;
        if nontrivial { self.fps.insert(hash_bytes(key)); }
    }
    pub fn evals(&mut self, n: u64) { self.evals += n }
    pub fn fp(&mut self, h: u64) { self.fps.insert(h); }
    pub fn count(&mut self, k: &str, n: u64) { *self.counts.entry(k.into()).or_insert(0) += n }
    pub fn max(&mut self, k: &str, v: f64) {
        let e = self.maxes.entry(k.into()).or_insert(v);
        if v > *e { *e = v }
    }
    pub fn sample(&mut self, s: String) { if self.sample.is_none() { self.sample = Some(s) } }
}

#[derive(Default)]
pub struct Totals {
    pub evals: u64,
    pub cases_done: u64,
    pub cases_planned: u64,
    pub fps: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub maxes: BTreeMap<String, f64>,
    pub samples: Vec<String>,
}
impl Totals {
    pub fn c(&self, k: &str) -> u64 { self.counts.get(k).copied().unwrap_or(0) }
}

pub trait Check: Sync {
    fn id(&self) -> &'static str;
    fn level(&self) -> &'static str { "exploration" }
    /// How cases are made and what makes one non-trivial
    fn rule(&self) -> String;
    fn assumptions(&self) -> Vec<String> { Vec::new() }
    /// One line per case, self-describing: `run` must depend on nothing else
    fn cases(&self, ctx: &Ctx) -> Vec<String>;
    fn run(&self, case: &str, obs: &mut Obs) -> R;
    /// Judgement over the whole run (statistical bounds, coverage requirements)
    fn finish(&self, _ctx: &Ctx, _t: &Totals) -> R { Ok(()) }
    /// Seconds of wall-clock after which no new case is started
    fn budget(&self, ctx: &Ctx) -> u64 { if ctx.quick() { 90 } else { 3000 } }
    fn workers(&self) -> usize { 8 }
    fn cpu_limit(&self) -> u64 { 150 }
    /// Address-space limit of a worker in bytes (0: none)
    fn mem_limit(&self) -> u64 { 7 << 29 }
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/..")))
}

pub fn esc(s: &str) -> String { s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r") }
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' { match it.next() { Some('n') => o.push('\n'), Some('t') => o.push('\t'), Some('r') => o.push('\r'), Some(x) => o.push(x), None => {} } }
        else { o.push(c) }
    }
    o
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"'); o
}

/* ---------------------------------------------------------------- worker */

thread_local! { static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None); }
static OTHER_PANIC: std::sync::Mutex<Option<(String, String)>> = std::sync::Mutex::new(None);

fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info.payload().downcast_ref::<String>().cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "?".into());
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc.clone(), msg.clone())));
        if let Ok(mut g) = OTHER_PANIC.lock() { *g = Some((loc, msg)); }
    }));
}

/// The location and message of the latest panic of this thread
pub fn last_panic() -> (String, String) {
    LAST_PANIC.with(|p| p.borrow().clone())
        .or_else(|| OTHER_PANIC.lock().ok().and_then(|g| g.clone()))
        .unwrap_or_default()
}

/// Locations in this crate are relative to its root; those of cniic and of the
/// dependencies are absolute.
pub fn is_harness_location(loc: &str) -> bool { loc.starts_with("src/") || loc.is_empty() }

pub fn panic_viol(what: &str) -> Viol {
    let (loc, msg) = last_panic();
    if is_harness_location(&loc) { return Viol::new("HARNESS", format!("{what}: harness panic at {loc}: {msg}")); }
    let file = loc.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("").to_string();
    Viol::new(format!("panic:{file}"), format!("{what}: panicked at {loc}: {msg}"))
}

/// Run a piece of the code under test, turning a panic into a violation.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Viol> {
    panic::catch_unwind(AssertUnwindSafe(f)).map_err(|_| panic_viol(what))
}

fn run_case(check: &dyn Check, case: &str, obs: &mut Obs) -> R {
    match panic::catch_unwind(AssertUnwindSafe(|| check.run(case, obs))) {
        Ok(r) => r,
        Err(_) => Err(panic_viol("case")),
    }
}

fn worker(check: &dyn Check, ctx: &Ctx) -> ! {
    // stdout is the protocol: move it away, the code under test prints a lot
    let mut out = unsafe {
        let null = fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
        use std::os::fd::AsRawFd;
        let p = dup(1);
        dup2(null.as_raw_fd(), 1);
        fs::File::from_raw_fd(p)
    };
    unsafe {
        prctl(1, 9, 0, 0, 0); // die with the parent
        if check.mem_limit() > 0 { let l = check.mem_limit(); setrlimit(9, &[l, l]); }
    }
    install_hook();
    let cases = check.cases(ctx);
    for line in io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let Ok(i) = line.trim().parse::<usize>() else { break };
        let _ = writeln!(out, "B\t{i}");
        let mut obs = Obs::default();
        let r = run_case(check, &cases[i], &mut obs);
        let (st, sig, msg) = match &r {
            Ok(()) => ("ok", String::new(), String::new()),
            Err(v) if v.sig == "HARNESS" => ("err", v.sig.clone(), v.msg.clone()),
            Err(v) => ("viol", v.sig.clone(), v.msg.clone()),
        };
        let fps: Vec<String> = obs.fps.iter().map(|x| format!("{x:x}")).collect();
        let counts: Vec<String> = obs.counts.iter().map(|(k, v)| format!("{k}={v}")).collect();
        let maxes: Vec<String> = obs.maxes.iter().map(|(k, v)| format!("{k}={v}")).collect();
        let _ = writeln!(out, "E\t{i}\t{st}\t{}\t{}\t{}\t{}\t{}\t{}\t{}", esc(&sig), esc(&msg), obs.evals,
            fps.join(","), counts.join(";"), maxes.join(";"), esc(obs.sample.as_deref().unwrap_or("")));
    }
    std::process::exit(0)
}

/* ---------------------------------------------------------------- parent */

enum Ev { Begin(usize, usize), End(usize, String), Gone(usize) }

struct W {
    child: Child,
    stdin: Option<ChildStdin>,
    /// assigned case and CPU ticks at its start
    case: Option<usize>,
    cpu0: u64,
    last_cpu: u64,
    idle_since: Instant,
    stderr_path: PathBuf,
    killed_for: Option<String>,
}

fn ticks_of_stat(s: &str) -> u64 {
    let r = match s.rfind(')') { Some(i) => &s[i + 1..], None => return 0 };
    let f: Vec<&str> = r.split_whitespace().collect();
    // utime stime cutime cstime
    (11..15).map(|i| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)).sum()
}

/// CPU ticks of a process and of its waited-for children
pub fn cpu_ticks(pid: u32) -> u64 { fs::read_to_string(format!("/proc/{pid}/stat")).map(|s| ticks_of_stat(&s)).unwrap_or(0) }

fn spawn(check: &dyn Check, id: usize, tx: &mpsc::Sender<Ev>, scratch: &Path, n: usize) -> io::Result<W> {
    let stderr_path = scratch.join(format!("w{id}-{n}.err"));
    let mut child = Command::new(std::env::current_exe()?)
        .arg("--worker")
        .stdin(Stdio::piped()).stdout(Stdio::piped())
        .stderr(Stdio::from(fs::File::create(&stderr_path)?))
        .env("MON_SCRATCH", scratch)
        .env("MALLOC_ARENA_MAX", "4")
        .spawn()?;
    let stdout = child.stdout.take().unwrap();
    let stdin = child.stdin.take();
    let tx = tx.clone();
    let _ = check;
    std::thread::spawn(move || {
        for l in BufReader::new(stdout).lines() {
            let Ok(l) = l else { break };
            if let Some(r) = l.strip_prefix("B\t") {
                if let Ok(i) = r.parse() { let _ = tx.send(Ev::Begin(id, i)); }
            } else if l.starts_with("E\t") { let _ = tx.send(Ev::End(id, l)); }
        }
        let _ = tx.send(Ev::Gone(id));
    });
    Ok(W { child, stdin, case: None, cpu0: 0, last_cpu: 0, idle_since: Instant::now(), stderr_path, killed_for: None })
}

fn tail(p: &Path, n: usize) -> String {
    let b = fs::read(p).unwrap_or_default();
    let s = String::from_utf8_lossy(&b[b.len().saturating_sub(n)..]).into_owned();
    s
}

struct Finding { id: String, sig: String, what: String }
fn known_findings() -> Vec<Finding> {
    // "finding: property=<id> sig=<signature> <what fails>"; "fixed:" lines suppress nothing
    let s = fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    s.lines().filter_map(|l| {
        let r = l.strip_prefix("finding: property=")?;
        let (id, r) = r.split_once(' ')?;
        let r = r.strip_prefix("sig=")?;
        let (sig, what) = r.split_once(' ').unwrap_or((r, ""));
        Some(Finding { id: id.into(), sig: sig.into(), what: what.into() })
    }).collect()
}

pub fn main_for(check: &dyn Check) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let ctx = Ctx {
        tier: if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick },
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
    };
    if args.iter().any(|a| a == "--worker") { worker(check, &ctx) }
    if args.iter().any(|a| a == "--list") { for c in check.cases(&ctx) { println!("{c}") } std::process::exit(0) }
    if let Some(i) = args.iter().position(|a| a == "--replay") {
        let text = fs::read_to_string(&args[i + 1]).unwrap_or_else(|e| { eprintln!("{e}"); std::process::exit(2) });
        let case = text.lines().find_map(|l| l.strip_prefix("case: ")).map(unesc).unwrap_or_else(|| { eprintln!("no case in the replay file"); std::process::exit(2) });
        replay(check, &case, &args[i + 1])
    }
    if let Some(i) = args.iter().position(|a| a == "--case") { replay(check, &unesc(&args[i + 1]), "-") }
    parent(check, &ctx)
}

fn replay(check: &dyn Check, case: &str, path: &str) -> ! {
    if let Some(w) = case.strip_prefix("whole-run ") {
        // A judgement over a whole run is replayed by repeating the run
        let g = |k: &str| w.split(' ').find_map(|x| x.strip_prefix(k)).unwrap_or("").to_string();
        let ctx = Ctx { seed: g("seed=").parse().unwrap_or(1), tier: if g("tier=") == "thorough" { Tier::Thorough } else { Tier::Quick } };
        std::env::set_var("VERIF_SEED", ctx.seed.to_string());
        std::env::set_var("VERIF_TIER", if ctx.quick() { "quick" } else { "thorough" });
        parent(check, &ctx)
    }
    install_hook();
    let mut obs = Obs::default();
    let r = run_case(check, case, &mut obs);
    match r {
        Ok(()) => { eprintln!("held on this case: {case}\n  {} evaluations, counts {:?} maxes {:?}", obs.evals, obs.counts, obs.maxes); std::process::exit(0) }
        Err(v) => { println!("\n{}: {}", v.sig, v.msg); println!("VIOLATION property={} replay={}", check.id(), path); std::process::exit(1) }
    }
}

pub fn make_scratch() -> PathBuf {
    let base = std::env::temp_dir();
    let p = base.join(format!("cniic-mon-{}", std::process::id()));
    let _ = fs::remove_dir_all(&p);
    fs::create_dir_all(&p).expect("scratch directory");
    p
}

fn parent(check: &dyn Check, ctx: &Ctx) -> ! {
    let t0 = Instant::now();
    let scratch = make_scratch();
    let cases = check.cases(ctx);
    let mut tot = Totals { cases_planned: cases.len() as u64, ..Default::default() };
    let mut viols: Vec<(String, Viol)> = Vec::new();
    let mut errors: Vec<String> = Vec::new();
    let mut crashes: BTreeMap<usize, u32> = BTreeMap::new();
    let (tx, rx) = mpsc::channel();
    let nw = check.workers().min(cases.len().max(1));
    let mut gen = nw;
    let mut ws: Vec<Option<W>> = (0..nw).map(|i| spawn(check, i, &tx, &scratch, i).map_err(|e| eprintln!("spawn: {e}")).ok()).collect();
    let mut next = 0usize;
    let mut retry: Vec<usize> = Vec::new();
    let budget = Duration::from_secs(std::env::var("MON_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(check.budget(ctx)));
    let mut truncated = false;
    const MAX_VIOLS: usize = 3;

    macro_rules! assign { ($id:expr) => {{
        let id = $id;
        let stop = viols.len() >= MAX_VIOLS || (t0.elapsed() > budget && !cases.is_empty());
        let c = if stop { if next < cases.len() { truncated = true } None } else if let Some(c) = retry.pop() { Some(c) } else if next < cases.len() { next += 1; Some(next - 1) } else { None };
        if let Some(w) = ws[id].as_mut() {
            match c {
                Some(c) => {
                    w.case = Some(c);
                    w.cpu0 = cpu_ticks(w.child.id()); w.last_cpu = w.cpu0; w.idle_since = Instant::now();
                    if let Some(si) = w.stdin.as_mut() { let _ = writeln!(si, "{c}"); let _ = si.flush(); }
                }
                None => { w.case = None; w.stdin = None; }
            }
        }
    }}}
    for id in 0..nw { if ws[id].is_some() { assign!(id) } }

    let mut last_poll = Instant::now();
    while ws.iter().any(|w| w.is_some()) {
        let ev = rx.recv_timeout(Duration::from_millis(500));
        match ev {
            Ok(Ev::Begin(_, _)) => {}
            Ok(Ev::End(id, l)) => {
                let f: Vec<&str> = l.split('\t').collect();
                if f.len() >= 10 {
                    let i: usize = f[1].parse().unwrap_or(0);
                    tot.cases_done += 1;
                    tot.evals += f[5].parse::<u64>().unwrap_or(0);
                    for h in f[6].split(',').filter(|s| !s.is_empty()) { if let Ok(h) = u64::from_str_radix(h, 16) { tot.fps.insert(h); } }
                    for kv in f[7].split(';') { if let Some((k, v)) = kv.split_once('=') { *tot.counts.entry(k.into()).or_insert(0) += v.parse::<u64>().unwrap_or(0) } }
                    for kv in f[8].split(';') { if let Some((k, v)) = kv.split_once('=') {
                        let v: f64 = v.parse().unwrap_or(0.0); let e = tot.maxes.entry(k.into()).or_insert(v); if v > *e { *e = v } } }
                    if !f[9].is_empty() && tot.samples.len() < 400 { tot.samples.push(unesc(f[9])) }
                    match f[2] {
                        "viol" => viols.push((cases[i].clone(), Viol { sig: unesc(f[3]), msg: unesc(f[4]) })),
                        "err" => errors.push(format!("case {:?}: {}", cases[i], unesc(f[4]))),
                        _ => {}
                    }
                }
                assign!(id)
            }
            Ok(Ev::Gone(id)) => {
                if let Some(mut w) = ws[id].take() {
                    let st = w.child.wait();
                    if let Some(c) = w.case {
                        use std::os::unix::process::ExitStatusExt;
                        let sig = st.as_ref().ok().and_then(|s| s.signal());
                        let err = tail(&w.stderr_path, 1500);
                        let n = { let n = crashes.entry(c).or_insert(0); *n += 1; *n };
                        if let Some(why) = w.killed_for.take() {
                            viols.push((cases[c].clone(), Viol::new("hang", why)));
                        } else if sig == Some(9) {
                            // Out of memory, most likely: try again later, alone in its worker
                            if n < 3 { retry.insert(0, c) } else { errors.push(format!("case {:?}: worker killed {n} times (out of memory?)", cases[c])) }
                        } else if err.contains("cannot open") && sig.is_none() {
                            errors.push(format!("case {:?}: {err}", cases[c]));
                        } else {
                            let s = match sig { Some(s) => format!("signal {s}"), None => format!("{st:?}") };
                            let kind = if err.contains("overflowed its stack") { "stack-overflow" } else if err.contains("memory allocation of") { "memory" } else if err.contains("Sanitizer") { "sanitizer" } else { "crash" };
                            viols.push((cases[c].clone(), Viol::new(kind, format!("the process died ({s}): {}", err.trim()))));
                        }
                        // Replace the worker
                        gen += 1;
                        ws[id] = spawn(check, id, &tx, &scratch, gen).ok();
                        if ws[id].is_some() { assign!(id) }
                    }
                }
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {}
            Err(_) => break,
        }
        if last_poll.elapsed() > Duration::from_secs(1) {
            last_poll = Instant::now();
            for w in ws.iter_mut().flatten() {
                let Some(c) = w.case else { continue };
                let pid = w.child.id();
                let now = cpu_ticks(pid) ;
                if now != w.last_cpu || proc_busy(pid) { w.last_cpu = now; w.idle_since = Instant::now(); }
                let used = now.saturating_sub(w.cpu0) / 100;
                if used > check.cpu_limit() {
                    w.killed_for = Some(format!("no end after {used} s of CPU time on case {:?}", cases[c]));
                    let _ = w.child.kill();
                } else if w.idle_since.elapsed() > Duration::from_secs(100) {
                    w.killed_for = Some(format!("deadlock: no thread of the process ran for 100 s on case {:?}", cases[c]));
                    let _ = w.child.kill();
                }
            }
        }
    }
    let _ = fs::remove_dir_all(&scratch);

    if viols.is_empty() && errors.is_empty() && !truncated {
        if let Err(v) = check.finish(ctx, &tot) {
            if v.sig == "HARNESS" { errors.push(v.msg) } else { viols.push((format!("whole-run seed={} tier={}", ctx.seed, if ctx.quick() { "quick" } else { "thorough" }), v)) }
        }
    } else if viols.is_empty() && truncated {
        // The statistical judgements are still meaningful with fewer cases
        if let Err(v) = check.finish(ctx, &tot) {
            if v.sig != "HARNESS" { viols.push((format!("whole-run seed={} tier={}", ctx.seed, if ctx.quick() { "quick" } else { "thorough" }), v)) } else { eprintln!("note: {}", v.msg) }
        }
    }

    // Known findings
    let known = known_findings();
    let mut fresh = Vec::new();
    for (c, v) in viols {
        match known.iter().find(|k| k.id == check.id() && (k.sig == v.sig)) {
            Some(k) => println!("KNOWN-FINDING: property={} {}", k.id, k.what),
            None => fresh.push((c, v)),
        }
    }

    write_evidence(check, ctx, &tot, &fresh, t0.elapsed().as_secs_f64(), truncated, &errors);
    eprintln!("{}: {}/{} cases, {} evaluations, {} distinct non-trivial, {:.1} s, {} violations, {} errors{}", check.id(), tot.cases_done, tot.cases_planned,
        tot.evals, tot.fps.len(), t0.elapsed().as_secs_f64(), fresh.len(), errors.len(), if truncated { " (stopped early)" } else { "" });
    if !fresh.is_empty() {
        let dir = verif_dir().join("replay");
        let _ = fs::create_dir_all(&dir);
        for (c, v) in fresh.iter().take(3) {
            let p = dir.join(format!("{}-{:08x}.txt", check.id(), hash_bytes(c.as_bytes()) as u32));
            let _ = fs::write(&p, format!("property: {}\ncase: {}\nsignature: {}\nmessage: {}\n", check.id(), esc(c), v.sig, v.msg));
            let p = fs::canonicalize(&p).unwrap_or(p);
            println!("{}: {}", v.sig, v.msg.chars().take(1200).collect::<String>());
            println!("VIOLATION property={} replay={}", check.id(), p.display());
        }
        std::process::exit(1)
    }
    if !errors.is_empty() || tot.cases_done == 0 {
        for e in errors.iter().take(5) { eprintln!("inconclusive: {e}"); }
        if tot.cases_done == 0 { eprintln!("inconclusive: nothing was observed"); }
        std::process::exit(2)
    }
    std::process::exit(0)
}

/// Is any thread of the process or of its children running or in uninterruptible I/O?
pub fn busy(pid: u32) -> bool { proc_busy(pid) }

fn proc_busy(pid: u32) -> bool {
    let mut todo = vec![pid];
    while let Some(p) = todo.pop() {
        let Ok(tasks) = fs::read_dir(format!("/proc/{p}/task")) else { continue };
        for t in tasks.flatten() {
            if let Ok(s) = fs::read_to_string(t.path().join("stat")) {
                if let Some(i) = s.rfind(')') {
                    if matches!(s[i + 1..].trim_start().chars().next(), Some('R') | Some('D')) { return true }
                }
            }
            if let Ok(ch) = fs::read_to_string(t.path().join("children")) {
                todo.extend(ch.split_whitespace().filter_map(|x| x.parse::<u32>().ok()));
            }
        }
    }
    false
}

fn write_evidence(check: &dyn Check, ctx: &Ctx, t: &Totals, viols: &[(String, Viol)], wall: f64, truncated: bool, errors: &[String]) {
    let dir = verif_dir().join("evidence");
    let _ = fs::create_dir_all(&dir);
    // Spread the samples over the run
    let n = t.samples.len();
    let step = (n / 8).max(1);
    let mut samples: Vec<String> = t.samples.iter().step_by(step).take(8).map(|s| json_str(s)).collect();
    for (c, v) in viols.iter().take(3) { samples.push(json_str(&format!("VIOLATED {c}: {}", v.msg.chars().take(600).collect::<String>()))) }
    let counts: Vec<String> = t.counts.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
    let maxes: Vec<String> = t.maxes.iter().map(|(k, v)| format!("{}: {}", json_str(k), if v.is_finite() { format!("{v}") } else { json_str(&v.to_string()) })).collect();
    let ass: Vec<String> = check.assumptions().iter().map(|s| json_str(s)).collect();
    let s = format!("{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"cases_completed\": {},\n  \"cases_planned\": {},\n  \"stopped_early\": {},\n  \"inconclusive\": {},\n  \"drives_internal_modules\": {},\n  \"observed\": {{{}}},\n  \"observed_max\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        json_str(check.id()), if ctx.quick() { "quick" } else { "thorough" }, ctx.seed, json_str(check.level()),
        t.evals, t.fps.len(), json_str(&check.rule()), t.cases_done, t.cases_planned, truncated, errors.len(), cfg!(feature = "direct"),
        counts.join(", "), maxes.join(", "), samples.join(",\n   "), ass.join(", "), wall, viols.len());
    let _ = fs::write(dir.join(format!("{}.json", check.id())), s);
}
