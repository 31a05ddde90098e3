//! The program itself, with the system calls it uses to read and write files replaced by
//! ones that misbehave on demand.
//!
//! MON_FAULTS is a list of rules (call, path, first, count, action), the fields ending with 0x1f
//! and the rules with 0x1e: from the `first`th (1-based) matching call on, `count` calls (0: all)
//! do `action`, which is E<errno> or S<max bytes>. `call` is r(ead), w(rite) or o(pen); `path` is
//! the end of the file's path or, with a / at its end, any part of it.
//! MON_FAULT_LOG names a file that gets a line (ending with 0x1e) per matching call.
use std::ffi::{c_char, c_int, c_long, c_uint, c_void, CStr};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::OnceLock;

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}
const READ: c_long = 0;
const WRITE: c_long = 1;
const WRITEV: c_long = 20;
const OPENAT: c_long = 257;
const READLINK: c_long = 89;
const AT_FDCWD: c_long = -100;

enum Act { Err(c_int), Short(usize) }
struct Rule { call: u8, path: Vec<u8>, first: u64, count: u64, act: Act, seen: AtomicU64 }
struct Plan { rules: Vec<Rule>, log: Option<c_long> }

fn env(name: &str) -> Option<String> {
    extern "C" { fn getenv(n: *const c_char) -> *const c_char; }
    let n: Vec<u8> = name.bytes().chain([0]).collect();
    let p = unsafe { getenv(n.as_ptr() as *const c_char) };
    if p.is_null() { None } else { Some(unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned()) }
}

fn plan() -> &'static Plan {
    static P: OnceLock<Plan> = OnceLock::new();
    P.get_or_init(|| {
        let rules = env("MON_FAULTS").unwrap_or_default().split('\x1e').filter(|r| !r.is_empty()).map(|r| {
            let f: Vec<&str> = r.split('\x1f').collect();
            let n: u64 = f[4][1..].parse().expect("number");
            Rule { call: f[0].as_bytes()[0], path: f[1].as_bytes().to_vec(), first: f[2].parse().expect("first"), count: f[3].parse().expect("count"),
                   act: if f[4].starts_with('E') { Act::Err(n as c_int) } else { Act::Short(n as usize) }, seen: AtomicU64::new(0) }
        }).collect();
        let log = env("MON_FAULT_LOG").map(|p| { let p: Vec<u8> = p.bytes().chain([0]).collect(); unsafe { syscall(OPENAT, AT_FDCWD, p.as_ptr(), 0o2001 as c_long | 0o100, 0o644 as c_long) } });
        Plan { rules, log }
    })
}

fn path_of(fd: c_int) -> Vec<u8> {
    let name = format!("/proc/self/fd/{fd}\0");
    let mut b = vec![0u8; 8192];
    let n = unsafe { syscall(READLINK, name.as_ptr(), b.as_mut_ptr(), b.len()) };
    b.truncate(n.max(0) as usize);
    b
}

/// What is to happen to this call
fn fate(call: u8, path: &[u8]) -> Option<&'static Act> {
    let p = plan();
    let (mut hit, mut concerned) = (None, false);
    for r in &p.rules {
        if r.call != call || !(path.ends_with(&r.path) || r.path.ends_with(b"/") && path.windows(r.path.len()).any(|w| w == &r.path[..])) { continue }
        concerned = true;
        let k = r.seen.fetch_add(1, SeqCst) + 1;
        if hit.is_none() && k >= r.first && (r.count == 0 || k < r.first + r.count) { hit = Some(&r.act) }
    }
    if let (Some(fd), true) = (p.log, concerned) {
        let s = format!("{} {} {}\x1e", call as char, match hit { None => "-".into(), Some(Act::Err(e)) => format!("E{e}"), Some(Act::Short(n)) => format!("S{n}") }, String::from_utf8_lossy(path));
        unsafe { syscall(WRITE, fd, s.as_ptr(), s.len()) };
    }
    hit
}
fn fail(e: c_int) { unsafe { *__errno_location() = e } }

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> isize {
    let mut n = n;
    if fd > 2 { match fate(b'w', &path_of(fd)) {
        Some(Act::Err(e)) => { fail(*e); return -1 }
        Some(Act::Short(m)) => n = n.min(*m),
        None => {}
    } }
    syscall(WRITE, fd as c_long, b, n) as isize
}
#[repr(C)]
pub struct Vector { base: *const c_void, len: usize }
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const Vector, k: c_int) -> isize {
    if fd <= 2 || k == 0 { return syscall(WRITEV, fd as c_long, v, k as c_long) as isize }
    write(fd, (*v).base, (*v).len)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: usize) -> isize {
    let mut n = n;
    if fd > 2 { match fate(b'r', &path_of(fd)) {
        Some(Act::Err(e)) => { fail(*e); return -1 }
        Some(Act::Short(m)) => n = n.min(*m),
        None => {}
    } }
    syscall(READ, fd as c_long, b, n) as isize
}
unsafe fn do_open(dir: c_long, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if let Some(Act::Err(e)) = fate(b'o', CStr::from_ptr(p).to_bytes()) { fail(*e); return -1 }
    syscall(OPENAT, dir, p, flags as c_long, mode as c_long) as c_int
}
// Note: std passes the mode always
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int { do_open(AT_FDCWD, p, flags, mode) }
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int { do_open(d as c_long, p, flags, mode) }

fn main() {
    plan();
    cniic::verif::main()
}
