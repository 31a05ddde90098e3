//! Runs the real program (the `cniic` entry point) in a scratch directory and watches it.
use crate::run::cpu_ticks;
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Out { pub code: Option<i32>, pub signal: Option<i32>, pub stdout: String, pub stderr: String, pub hang: Option<String>, pub cpu_ms: u64 }
impl Out {
    /// How many lines of the error output report something
    pub fn errors(&self) -> usize { self.stderr.lines().filter(|l| !l.trim().is_empty() && !l.starts_with("Saved to")).count() }
    pub fn how(&self) -> String {
        let e: String = self.stderr.chars().rev().take(700).collect::<Vec<_>>().into_iter().rev().collect();
        format!("exit {:?} signal {:?} hang {:?} stderr: {}", self.code, self.signal, self.hang, e)
    }
}

/// The program built next to this check
pub fn cli() -> PathBuf { std::env::current_exe().expect("exe").parent().expect("dir").join("cniic_cli") }

/// Runs a case with the unoptimised build of this check: optimisation turns some recursion into loops
pub fn unoptimised(case: &str, obs: &mut crate::Obs) -> crate::R {
    let Some(exe) = std::env::var_os("MON_UNOPT").map(PathBuf::from).filter(|p| p.exists()) else { obs.count("cases_without_unoptimised_build", 1); return Ok(()) };
    let dir = Scratch::new("unopt");
    let o = run_with(&exe, dir.path(), &["--case".into(), crate::run::esc(case).into()], &[], 300);
    if let Some(h) = o.hang { crate::viol!("hang", "unoptimised build, {case}: {h}") }
    if o.code == Some(1) { crate::viol!("unoptimised", "unoptimised build: {}", o.stdout.trim().chars().take(1500).collect::<String>()) }
    crate::ensure!(o.code == Some(0), "died", "unoptimised build, {case}: {}", Out { hang: None, ..o }.how());
    obs.eval(true, case.as_bytes());
    obs.count("cases_with_the_unoptimised_build", 1);
    Ok(())
}

/// The program with the replaced system calls
pub fn faulty() -> PathBuf { cli().with_file_name("cniic_faulty") }

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        let base = std::env::var_os("MON_SCRATCH").map(PathBuf::from).unwrap_or_else(std::env::temp_dir);
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let p = base.join(format!("{tag}-{}-{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
        let _ = fs::remove_dir_all(&p);
        fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
    pub fn path(&self) -> &Path { &self.0 }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = fs::remove_dir_all(&self.0); } }

/// `during` runs on another thread while the program does (to feed pipes, for instance);
/// it is told when the program has ended.
pub fn run(dir: &Path, args: &[std::ffi::OsString], env: &[(&str, String)], cpu_limit_s: u64) -> Out { run_with(&cli(), dir, args, env, cpu_limit_s) }

pub fn run_with(exe: &Path, dir: &Path, args: &[std::ffi::OsString], env: &[(&str, String)], cpu_limit_s: u64) -> Out {
    let so = dir.join(".stdout");
    let se = dir.join(".stderr");
    let mut c = Command::new(exe);
    c.args(args).current_dir(dir).stdin(Stdio::null())
        .stdout(Stdio::from(fs::File::create(&so).expect("scratch file"))).stderr(Stdio::from(fs::File::create(&se).expect("scratch file")))
        .env("RUST_BACKTRACE", "0").env_remove("RAYON_NUM_THREADS")
        // Many threads would otherwise reserve more address space than their limit allows
        .env("MALLOC_ARENA_MAX", "4");
    for (k, v) in env { c.env(k, v); }
    let mut ch = c.spawn().expect("cannot start the program");
    let pid = ch.id();
    let mut hang = None;
    let (mut last, mut since) = (0, Instant::now());
    let mut polls = 0u64;
    let st = loop {
        if let Ok(Some(s)) = ch.try_wait() { break s }
        polls += 1;
        std::thread::sleep(Duration::from_millis(if polls < 50 { 1 } else { 10 }));
        if polls % 20 == 0 {
            let t = cpu_ticks(pid);
            if t != last || crate::run::busy(pid) { last = t; since = Instant::now() }
            if t / 100 > cpu_limit_s { hang = Some(format!("no end after {} s of CPU time", t / 100)); let _ = ch.kill(); }
            else if since.elapsed() > Duration::from_secs(60) { hang = Some("deadlock: no thread ran for 60 s".into()); let _ = ch.kill(); }
        }
    };
    use std::os::unix::process::ExitStatusExt;
    let rd = |p: &Path| String::from_utf8_lossy(&fs::read(p).unwrap_or_default()).into_owned();
    let o = Out { code: st.code(), signal: st.signal(), stdout: rd(&so), stderr: rd(&se), hang, cpu_ms: last * 10 };
    let _ = fs::remove_file(so);
    let _ = fs::remove_file(se);
    o
}

extern "C" {
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn signal(s: i32, h: usize) -> usize;
}

/// The program with no file allowed to grow beyond that size (a disk that gets full): further writes fail
pub fn run_limited(dir: &Path, args: &[std::ffi::OsString], env: &[(&str, String)], fsize: Option<u64>) -> Out {
    use std::os::unix::process::CommandExt;
    let mut c = Command::new(cli());
    for (k, v) in env { c.env(k, v); }
    if let Some(k) = fsize { unsafe { c.pre_exec(move || {
        signal(25, 1); // SIGXFSZ is ignored: writing reports an error instead
        if setrlimit(1, &[k, k]) != 0 { return Err(std::io::Error::last_os_error()) }
        Ok(())
    }); } }
    c.stdout(Stdio::null()).stderr(Stdio::piped());
    watch(c, dir, args)
}

/// Where the standard output or error of the program leads
pub fn drain(kind: &str) -> Stdio {
    match kind {
        "full" => Stdio::from(fs::OpenOptions::new().write(true).open("/dev/full").expect("/dev/full")),
        // A pipe nobody reads from
        "closed" => { let (r, w) = std::io::pipe().expect("pipe"); drop(r); Stdio::from(w) }
        "pipe" => Stdio::piped(),
        _ => Stdio::null(),
    }
}

/// A rule for it
pub fn rule(call: &str, path: &str, first: u64, count: u64, action: String) -> String { format!("{call}\x1f{path}\x1f{first}\x1f{count}\x1f{action}\x1e") }

/// The program with misbehaving system calls (see cniic_faulty). Also returns the calls that matched a rule: (call, fate, path).
pub fn run_faulty(dir: &Path, args: &[std::ffi::OsString], env: &[(&str, String)], rules: &str, stdout: &str, stderr: &str) -> (Out, Vec<(String, String, String)>) {
    let log = dir.join(".faults");
    let _ = fs::remove_file(&log);
    let mut c = Command::new(faulty());
    for (k, v) in env { c.env(k, v); }
    c.env("MON_FAULTS", rules).env("MON_FAULT_LOG", &log).stdout(drain(stdout)).stderr(drain(stderr));
    let o = watch(c, dir, args);
    (o, fault_log(&log))
}
pub fn fault_log(log: &Path) -> Vec<(String, String, String)> {
    let t = String::from_utf8_lossy(&fs::read(log).unwrap_or_default()).into_owned();
    let _ = fs::remove_file(log);
    t.split('\x1e').filter_map(|l| { let mut f = l.splitn(3, ' '); Some((f.next()?.into(), f.next()?.into(), f.next()?.into())) }).collect()
}

fn watch(mut c: Command, dir: &Path, args: &[std::ffi::OsString]) -> Out {
    use std::io::Read;
    use std::os::unix::process::ExitStatusExt;
    c.args(args).current_dir(dir).stdin(Stdio::null()).env("RUST_BACKTRACE", "0").env("MALLOC_ARENA_MAX", "4");
    if !c.get_envs().any(|(k, _)| k == "RAYON_NUM_THREADS") { c.env_remove("RAYON_NUM_THREADS"); }
    let mut ch = c.spawn().expect("cannot start the program");
    drop(c);
    let pid = ch.id();
    let rd = ch.stderr.take().map(|mut pipe| std::thread::spawn(move || { let mut b = vec![]; let _ = pipe.read_to_end(&mut b); b }));
    let mut hang = None;
    let (mut last, mut since, mut polls) = (0, Instant::now(), 0u64);
    let st = loop {
        if let Ok(Some(s)) = ch.try_wait() { break s }
        polls += 1;
        std::thread::sleep(Duration::from_millis(if polls < 50 { 1 } else { 10 }));
        if polls % 20 == 0 {
            let t = cpu_ticks(pid);
            if t != last || crate::run::busy(pid) { last = t; since = Instant::now() }
            if t / 100 > 60 { hang = Some(format!("no end after {} s of CPU time", t / 100)); let _ = ch.kill(); }
            else if since.elapsed() > Duration::from_secs(60) { hang = Some("deadlock: no thread ran for 60 s".into()); let _ = ch.kill(); }
        }
    };
    let err = rd.map(|r| r.join().unwrap_or_default()).unwrap_or_default();
    Out { code: st.code(), signal: st.signal(), stdout: String::new(), stderr: String::from_utf8_lossy(&err).into_owned(), hang, cpu_ms: last * 10 }
}

/// All files under a directory: relative path and contents
pub fn snapshot(dir: &Path) -> std::collections::BTreeMap<String, Vec<u8>> {
    fn go(root: &Path, d: &Path, m: &mut std::collections::BTreeMap<String, Vec<u8>>) {
        if let Ok(rd) = fs::read_dir(d) {
            for e in rd.flatten() {
                let p = e.path();
                let Ok(t) = e.file_type() else { continue };
                if t.is_dir() { go(root, &p, m) }
                else if t.is_file() { m.insert(p.strip_prefix(root).unwrap_or(&p).to_string_lossy().into_owned(), fs::read(&p).unwrap_or_default()); }
            }
        }
    }
    let mut m = Default::default();
    go(dir, dir, &mut m);
    m
}
