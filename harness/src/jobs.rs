//! Runs of the benchmark over generated image files, and the judgement of what they left behind.
use crate::codecs::{self, Flat};
use crate::imgs::{self, Spec};
use crate::proc::{self, Out, Scratch};
use crate::{ensure, refs, viol, Obs, Rng, Viol, R};
use image::DynamicImage;
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};

pub const EXTS: [&str; 10] = ["png", "bmp", "tiff", "tga", "ff", "ppm", "qoi", "gif", "jpg", "exr"];

/// Save under that extension, converting to what the format can hold
pub fn save(img: &DynamicImage, p: &Path, ext: &str) {
    let img = match ext {
        "png" => match img { DynamicImage::ImageRgb32F(_) | DynamicImage::ImageRgba32F(_) => DynamicImage::ImageRgb16(img.to_rgb16()), i => i.clone() },
        "ff" => DynamicImage::ImageRgba16(img.to_rgba16()),
        "exr" => DynamicImage::ImageRgb32F(img.to_rgb32f()),
        "gif" => DynamicImage::ImageRgba8(img.to_rgba8()),
        "tiff" => match img { DynamicImage::ImageRgb16(_) | DynamicImage::ImageLuma8(_) | DynamicImage::ImageLuma16(_) => img.clone(), i => DynamicImage::ImageRgb8(i.to_rgb8()) },
        "bmp" | "tga" | "qoi" => match img { DynamicImage::ImageRgba8(_) => img.clone(), i => DynamicImage::ImageRgb8(i.to_rgb8()) },
        _ => DynamicImage::ImageRgb8(img.to_rgb8()),
    };
    img.save(p).unwrap_or_else(|e| panic!("cannot write {p:?}: {e}"));
}

/// One path of the command line
pub struct File {
    /// With undecodable bytes replaced, as in the CSV
    pub arg: String,
    pub os: OsString,
    /// What the program can see there, if it is an image
    pub img: Option<DynamicImage>,
    pub what: String,
    /// A pipe, and the bytes to send through it
    pub pipe: Option<Vec<u8>>,
}
impl File {
    pub fn new<A: Into<OsString>>(os: A, img: Option<DynamicImage>, what: String, pipe: Option<Vec<u8>>) -> File { let os = os.into(); File { arg: os.to_string_lossy().into_owned(), os, img, what, pipe } }
    pub fn readable(&self) -> bool { self.img.as_ref().is_some_and(|i| i.width() > 0 && i.height() > 0) }
}

#[derive(Default)]
pub struct Rows { pub rows: Vec<(String, u64, f64, f64)>, pub empty: bool }

pub struct Job { pub dir: Scratch, pub codec: String, pub files: Vec<File>, pub threads: Option<usize>, pub order: String, pub seed: u64, pub exe: PathBuf,
    /// Rules for misbehaving system calls (see cniic_faulty)
    pub rules: String }
pub struct Done { pub faults: Vec<(String, String, String)>, pub out: Out, pub before: BTreeMap<String, Vec<u8>>, pub after: BTreeMap<String, Vec<u8>>, pub released: Vec<usize>, pub opened_together: u64 }

extern "C" { fn mkfifo(p: *const std::ffi::c_char, mode: u32) -> i32; }

/// Names that are easy to get wrong
pub fn name(i: usize, r: &mut Rng) -> String {
    match r.below(14) {
        0 => format!("a b{i}"), 1 => format!("x,y{i}"), 2 => format!("q\"{i}"), 3 => format!("dot.ted.{i}"), 4 => format!("é🦀{i}"), 5 => format!("nl\n{i}"),
        6 => format!("-dash{i}"), 7 => format!("UPPER{i}"), 8 => format!("{i}.png"), 9 => format!("'{i}'"), 10 => format!("per%{i}"), _ => format!("img{i}"),
    }
}

pub fn spec(r: &mut Rng, max: u64) -> Spec {
    let (w, h) = match r.below(8) { 0 => (1, 1), 1 => (1, r.range(1, max)), 2 => (r.range(1, max), 1), 3 => { let s = *r.pick(&[2, 4, 8, 16]); (s, s) } _ => (r.range(1, max), r.range(1, max)) };
    let f = *r.pick(&imgs::FORMATS);
    let s = Spec::random(r, w as u32, h as u32);
    if r.chance(1, 2) { s } else { s.with_fmt(f) }
}

/// Files on which the decoders of the image library panic (where overflows are checked)
const CRASHING: [(&str, &[u8]); 3] = [
    ("webp", b"\x52\x49\x46\x46\x4e\x00\x00\x00\x57\x45\x42\x50\x56\x50\x38\x4c\x42\x00\x00\x00\x2f\x06\x00\x01\x10\xcd\x55\x20\x22\x02\x1e\x08\xc8\x09\x00\x00\x00\x80\x7e\xb8\x0b\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xd0\xbc\x00\x00\x88\x88\x3b\x79\x93\x09\xf6\x8a\xc5\x1f\x17"),
    ("webp", b"\x52\x49\x46\x46\xaa\x00\x00\x00\x57\x45\x42\x50\x56\x50\x38\x4c\x9e\x00\x00\x00\x2f\x06\x00\x01\x00\xcd\x55\x20\x22\x02\x1e\x88\x04\x00\x00\x00\x00\x80\x01\x02\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x60\x00\x00\x00\x00\xff\xff\xff\xff\xff\x00\xe7\x3f\x30\x00\x00\x00\x00\x00\x00\x00\x00\x80\x01\x02\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x40\x00\x0f\x04\x08\x00\x00\x00\x00\xe0\xfc\x03\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x7f\x22\x0b\x8d\x41\x84\x09\x65\x1c\x22\x4c\x28\xe3\x10\x61\x42\x19\x87\x08\x13\xca\x38\x00"),
    ("jpg", b"\xff\xd8\xff\xe0\x00\x10\x4a\x46\x49\x46\x00\x01\x02\x00\x00\x01\x00\x01\x00\x00\xff\xc0\x00\x0b\x08\xff\xff\x00\x04\x01\x01\x11\x00\xff\xdb\x00\x43\x00\x06\x04\x05\x06\x05\x04\xb7\x06\x06\x05\x06\x07\x07\x06\x08\x0a\x10\x0a\x0a\x60\x09\x09\x0a\x14\x0e\x0f\x0c\x10\x17\x14\x18\x18\x17\x14\x16\x16\x1a\x1d\x25\x1f\x1a\x1b\x23\x1c\x16\x16\x20\x2c\x20\x23\x26\x27\x29\x2a\x29\x19\x1f\x2d\x30\x2d\x28\x30\x25\x28\x29\x28\xff\xc4\x00\x1f\x00\x00\x01\x05\x01\x01\x01\x01\x01\x01\x00\x00\x00\x00\x00\x00\x00\x00\x01\x02\x03\x04\x05\x06\x07\x08\x09\x0a\x0b\xff\xc4\x00\xb5\x10\x00\x02\x01\x03\x03\x02\x04\x03\x05\x05\x04\x04\x00\x00\x01\x7d\x01\x02\x03\x00\x04\x11\x05\x12\x21\x31\x41\x06\x13\x51\x61\x07\x22\x71\x14\x32\x81\x91\xa1\x08\x23\x42\xb1\xc1\x15\x52\xd1\xf0\x24\x33\x62\x72\x82\x09\x0a\x16\x17\x18\x19\x1a\x25\x26\x27\x28\x29\x2a\x34\x35\x36\x37\x38\x39\x3a\x43\x44\x45\x46\x47\x48\x49\x4a\x53\x54\x55\x56\x57\x58\x59\x5a\x63\x64\x65\x66\x67\x68\x69\x6a\x73\x74\x75\x76\x77\x78\x79\x7a\x83\x84\x85\x86\x87\x88\x89\x8a\x92\x93\x94\x95\x96\x97\x98\x99\x9a\xa2\xa3\xa4\xa5\xa6\xa7\xa8\xa9\xaa\xb2\xb3\xb4\xb5\xb6\xb7\xb8\xb9\xba\xc2\xc3\xc4\xc5\xc6\xc7\xc8\xc9\xca\xd2\xd3\xd4\xd5\xd6\xd7\xd8\xd9\xda\xe1\xe2\xe3\xe4\xe5\xe6\xe7\xe8\xe9\xea\xf1\xf2\xf3\xf4\xf5\xf6\xf7\xf8\xf9\xfa\xff\xda\x00\x08\x01\x01\x00\x00\x3f\x00\xf9\x52\xbf\xff\xd9"),
];

/// What the library makes of a file, if anything
fn open(p: &Path) -> Option<DynamicImage> { std::panic::catch_unwind(|| image::open(p)).ok()?.ok() }

/// Changes a few bytes, preferably near the start
fn damage(b: &mut Vec<u8>, r: &mut Rng) {
    for _ in 0..r.range(1, 6) {
        if b.is_empty() { return }
        let l = b.len();
        let m = if r.chance(2, 3) { l.min(80) } else { l };
        let i = r.us(m);
        match r.below(8) {
            0 => b.truncate(r.us(l)),
            1 => b[i] ^= 1 << r.below(8),
            2 => b[i] = *r.pick(&[0, 255, 127, 128, 1, 64]),
            3 => b[i] = r.byte(),
            4 => b[i..(i + 4).min(l)].fill(*r.pick(&[0, 255])),
            5 => b.insert(i, r.byte()),
            6 => { b.remove(i); }
            _ => b[i] = b[i].wrapping_add(*r.pick(&[1, 255])),
        }
    }
}

pub const FAULTS: [&str; 18] = ["missing", "directory", "empty", "truncated", "garbage", "wrong-extension", "unknown-extension", "no-extension", "no-pixels", "dangling-link", "link-loop", "empty-argument", "dotdot", "too-long", "header-only", "bad-checksum", "crashing", "damaged"];

/// A named pipe of the smallest size, read slowly: whoever writes there has to wait in the middle
pub struct SlowPipe { f: std::fs::File }
impl SlowPipe {
    pub fn new(p: &Path) -> SlowPipe {
        use std::os::{fd::AsRawFd, unix::{ffi::OsStrExt, fs::OpenOptionsExt}};
        extern "C" { fn fcntl(fd: i32, op: i32, arg: i32) -> i32; }
        let c = std::ffi::CString::new(p.as_os_str().as_bytes()).expect("path");
        assert_eq!(unsafe { mkfifo(c.as_ptr(), 0o600) }, 0, "mkfifo");
        let f = std::fs::OpenOptions::new().read(true).write(true).custom_flags(0o4000).open(p).expect("pipe");
        unsafe { fcntl(f.as_raw_fd(), 1031, 4096) };
        SlowPipe { f }
    }
    /// Everything written until `stop` is set
    pub fn read(&mut self, stop: &AtomicBool) -> Vec<u8> {
        use std::io::Read;
        let (mut all, mut b) = (vec![], [0; 1500]);
        loop {
            let over = stop.load(SeqCst);
            match self.f.read(&mut b) { Ok(n) if n > 0 => all.extend(&b[..n]), _ if over => return all, _ => {} }
            if !over { std::thread::sleep(std::time::Duration::from_micros(200)) }
        }
    }
}

/// Splits what was written one after the other into PNG files
pub fn split_pngs(b: &[u8]) -> Result<Vec<&[u8]>, String> {
    let mut v = vec![];
    let mut at = 0;
    while at < b.len() {
        let from = at;
        if !b[at..].starts_with(b"\x89PNG\r\n\x1a\n") { return Err(format!("no PNG starts at byte {at}")) }
        at += 8;
        loop {
            let Some(h) = b.get(at..at + 8) else { return Err(format!("the PNG at byte {from} is cut off at {at}")) };
            let n = u32::from_be_bytes([h[0], h[1], h[2], h[3]]) as usize;
            if b.len() - at < 12 || n > b.len() - at - 12 { return Err(format!("the PNG at byte {from} is cut off in the chunk at {at}")) }
            at += 12 + n;
            if &h[4..] == b"IEND" { break }
        }
        v.push(&b[from..at]);
    }
    Ok(v)
}

/// Threads only meet at the same place if nothing else takes their cores
pub fn alone() -> std::fs::File {
    let l = std::fs::File::create(std::env::var_os("MON_SCRATCH").map(PathBuf::from).unwrap_or_else(std::env::temp_dir).join("rush.lock")).expect("lock");
    l.lock().expect("lock");
    l
}

impl Job {
    pub fn new(codec: &str, threads: Option<usize>, order: &str, seed: u64) -> Job {
        let dir = Scratch::new("job");
        std::fs::create_dir_all(dir.path().join("output")).expect("output");
        std::fs::create_dir_all(dir.path().join("in")).expect("in");
        Job { dir, codec: codec.into(), files: vec![], threads, order: order.into(), seed, exe: proc::cli(), rules: String::new() }
    }

    pub fn add_image(&mut self, s: &Spec, ext: &str, r: &mut Rng) {
        let i = self.files.len();
        let mut arg = format!("in/{}.{}", name(i, r), if r.chance(1, 12) { ext.to_uppercase() } else { ext.into() });
        if r.chance(1, 10) { arg = format!("./{arg}") }
        if r.chance(1, 12) { arg = self.dir.path().join(&arg).to_string_lossy().into_owned() }
        let mut os = OsString::from(&arg);
        // Names do not have to be valid Unicode
        if r.chance(1, 16) { use std::os::unix::ffi::OsStringExt; let mut b = arg.into_bytes(); let k = b.len() - ext.len() - 1; b.insert(k, 0x80 | r.byte()); os = OsString::from_vec(b) }
        self.put(os, s, ext)
    }

    pub fn put<A: Into<OsString>>(&mut self, os: A, s: &Spec, ext: &str) {
        let os = os.into();
        let p = self.dir.path().join(&os);
        // The library chooses the format by an extension that it can decode
        let tmp = self.dir.path().join(format!("in/tmp.{ext}"));
        save(&s.build(), &tmp, ext);
        std::fs::rename(&tmp, &p).expect("rename");
        let img = image::open(&p).unwrap_or_else(|e| panic!("{p:?} cannot be read back: {e}"));
        self.files.push(File::new(os, Some(img), format!("{} as {ext}", s.text()), None));
    }

    /// The same path again
    pub fn add_again(&mut self, i: usize) {
        let f = &self.files[i];
        if f.pipe.is_some() { return }
        let f = File::new(f.os.clone(), f.img.clone(), format!("{} again", f.what), None);
        self.files.push(f);
    }

    /// An image whose arrival the harness controls
    pub fn add_pipe(&mut self, s: &Spec, damage: bool, r: &mut Rng) {
        let i = self.files.len();
        let arg = format!("in/pipe{i}.png");
        let p = self.dir.path().join(&arg);
        let mut b = vec![];
        let img = match s.build() { i @ (DynamicImage::ImageRgb32F(_) | DynamicImage::ImageRgba32F(_)) => DynamicImage::ImageRgb8(i.to_rgb8()), i => i };
        img.write_to(&mut std::io::Cursor::new(&mut b), image::ImageOutputFormat::Png).expect("png");
        if damage { b.truncate(r.us(b.len())) }
        let img = image::load_from_memory_with_format(&b, image::ImageFormat::Png).ok();
        let c = std::ffi::CString::new(p.to_str().expect("utf-8")).expect("path");
        assert_eq!(unsafe { mkfifo(c.as_ptr(), 0o600) }, 0, "mkfifo");
        self.files.push(File::new(arg, img, format!("{} through a pipe{}", s.text(), if damage { ", truncated" } else { "" }), Some(b)));
    }

    pub fn add_fault(&mut self, kind: &str, r: &mut Rng) {
        let i = self.files.len();
        let root = self.dir.path().to_path_buf();
        let mut arg = format!("in/bad{i}.png");
        let png = || { let mut b = vec![]; Spec::new(9, 7, "noise", 256, i as u64, "rgb8").build().write_to(&mut std::io::Cursor::new(&mut b), image::ImageOutputFormat::Png).expect("png"); b };
        let w = |a: &str, b: &[u8]| std::fs::write(root.join(a), b).expect("write");
        match kind {
            "missing" => {}
            "directory" => std::fs::create_dir(root.join(&arg)).expect("dir"),
            "empty" => w(&arg, b""),
            "truncated" => { let b = png(); w(&arg, &b[..b.len() / 2]) }
            "garbage" => w(&arg, b"this is not an image at all, whatever its name says"),
            "wrong-extension" => { arg = format!("in/bad{i}.{}", r.pick(&["bmp", "jpg", "tiff", "gif"])); w(&arg, &png()) }
            "unknown-extension" => { arg = format!("in/bad{i}.xyz"); w(&arg, &png()) }
            "no-extension" => { arg = format!("in/bad{i}"); w(&arg, &png()) }
            "no-pixels" => {
                arg = format!("in/none{i}.ff");
                let mut b = b"farbfeld".to_vec();
                let (x, y) = *r.pick(&[(0u32, 0u32), (0, 5), (5, 0)]);
                b.extend(x.to_be_bytes()); b.extend(y.to_be_bytes());
                w(&arg, &b)
            }
            "dangling-link" => std::os::unix::fs::symlink("nowhere", root.join(&arg)).expect("link"),
            "link-loop" => std::os::unix::fs::symlink(format!("bad{i}.png"), root.join(&arg)).expect("link"),
            "empty-argument" => arg = String::new(),
            "dotdot" => arg = (*r.pick(&["..", "/", ".", "in/", "in/.."])).into(),
            "too-long" => arg = format!("in/{}.png", "x".repeat(300)),
            "header-only" => { let b = png(); w(&arg, &b[..33]) }
            "bad-checksum" => { let mut b = png(); let k = b.len() - 20; b[k] ^= 0x55; w(&arg, &b) }
            "crashing" => { let (e, b) = *r.pick(&CRASHING); arg = format!("in/crash{i}.{e}"); w(&arg, b) }
            "damaged" => {
                // Perhaps it can still be read
                let e = *r.pick(&EXTS);
                arg = format!("in/damaged{i}.{e}");
                save(&Spec::random(r, 9, 7).build(), &root.join(&arg), e);
                let good = std::fs::read(root.join(&arg)).expect("read");
                for _ in 0..20 {
                    let mut b = good.clone();
                    damage(&mut b, r);
                    w(&arg, &b);
                    if open(&root.join(&arg)).map_or(true, |i| i.width() as u64 * i.height() as u64 <= 3000) { break }
                    w(&arg, b"");
                }
            }
            k => panic!("unknown fault {k}"),
        }
        let img = if arg.is_empty() { None } else { open(&root.join(&arg)) };
        self.files.push(File::new(arg, img, kind.into(), None));
    }

    pub fn shuffle(&mut self) { let mut r = Rng::new(self.seed ^ 0x5417); let n = self.files.len(); for i in (1..n).rev() { let j = r.us(i + 1); self.files.swap(i, j) } }

    /// The program as its users build it: without optimisation there is more time between any two steps
    pub fn use_plain_build(&mut self, obs: &mut Obs) {
        if let Some(p) = std::env::var_os("MON_PLAIN").map(PathBuf::from).filter(|p| p.exists()) { self.exe = p; obs.count("cases_with_a_plain_build", 1) }
    }

    pub fn run(&self) -> Done {
        let before = proc::snapshot(self.dir.path());
        let mut args: Vec<OsString> = vec![format!("--codec={}", self.codec).into()];
        args.extend(self.files.iter().map(|f| f.os.clone()));
        let mut env = vec![];
        if let Some(t) = self.threads { env.push(("RAYON_NUM_THREADS", t.to_string())) }
        let log = self.dir.path().join(".faults");
        if !self.rules.is_empty() { env.push(("MON_FAULTS", self.rules.clone())); env.push(("MON_FAULT_LOG", log.to_string_lossy().into_owned())) }
        let stop = AtomicBool::new(false);
        let together = AtomicU64::new(0);
        let (out, released) = std::thread::scope(|s| {
            let h = s.spawn(|| self.feed(&stop, &together));
            let o = proc::run_with(&self.exe, self.dir.path(), &args, &env, 120);
            stop.store(true, SeqCst);
            (o, h.join().expect("feeder"))
        });
        let faults = proc::fault_log(&log);
        let after = proc::snapshot(self.dir.path());
        Done { faults, out, before, after, released, opened_together: together.load(SeqCst) }
    }

    /// Decides in which order the pipes the program has opened deliver their image
    fn feed(&self, stop: &AtomicBool, together: &AtomicU64) -> Vec<usize> {
        use std::io::Write;
        use std::os::unix::fs::OpenOptionsExt;
        let mut waiting: Vec<(usize, PathBuf)> = self.files.iter().enumerate().filter(|f| f.1.pipe.is_some()).map(|(i, f)| (i, self.dir.path().join(&f.arg))).collect();
        let mut ready: Vec<(usize, std::fs::File)> = vec![];
        let mut released = vec![];
        let mut r = Rng::new(self.seed ^ 0xFEED);
        let send = |f: &mut std::fs::File, b: &[u8], slow: bool, stop: &AtomicBool| {
            let mut at = 0;
            while at < b.len() && !stop.load(SeqCst) {
                let end = if slow { (at + b.len() / 4 + 1).min(b.len()) } else { b.len() };
                match f.write(&b[at..end]) {
                    Ok(n) => { at += n; if slow { std::thread::sleep(std::time::Duration::from_micros(300)) } }
                    Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => std::thread::sleep(std::time::Duration::from_micros(200)),
                    Err(_) => break,
                }
            }
        };
        std::thread::scope(|s| {
            let mut calm = 0;
            while (!waiting.is_empty() || !ready.is_empty()) && !stop.load(SeqCst) {
                let n = waiting.len();
                waiting.retain(|(i, p)| match std::fs::OpenOptions::new().write(true).custom_flags(0o4000).open(p) { // O_NONBLOCK
                    Ok(f) => { ready.push((*i, f)); false }
                    Err(_) => true,
                });
                if waiting.len() < n { calm = 0 } else { calm += 1 }
                together.fetch_max(ready.len() as u64, SeqCst);
                // Once nothing new has been opened for a while, let something happen
                if calm < 4 || ready.is_empty() { std::thread::sleep(std::time::Duration::from_micros(500)); continue }
                let k = match self.order.as_str() { "burst" => ready.len(), "pairs" => 2.min(ready.len()), _ => 1 };
                for _ in 0..k {
                    let j = match self.order.as_str() { "lifo" => ready.len() - 1, "fifo" => 0, _ => r.us(ready.len()) };
                    let (i, mut f) = ready.remove(j);
                    released.push(i);
                    let b = self.files[i].pipe.as_ref().expect("pipe");
                    let slow = self.order == "slow";
                    s.spawn(move || send(&mut f, b, slow, stop));
                }
                calm = 2;
            }
            drop(ready);
        });
        released
    }

    fn parsed_name(&self) -> Result<String, Viol> { use cniic::verif::codec::Codec; Ok(codecs::codec(&self.codec)?.name()) }

    pub fn ended_well(&self, d: &Done) -> R {
        if let Some(h) = &d.out.hang { viol!("hang", "{}: {h}", self.describe()) }
        ensure!(d.out.code == Some(0), "exit-status", "{}: {}", self.describe(), d.out.how());
        Ok(())
    }

    pub fn describe(&self) -> String {
        let f: Vec<String> = self.files.iter().take(12).map(|f| format!("{:?} ({})", f.arg, f.what)).collect();
        format!("{} with {:?} threads on {} paths, {}{}", self.codec, self.threads, self.files.len(), f.join(", "), if self.files.len() > 12 { ", ..." } else { "" })
    }

    /// The rows of the CSV, after judging its syntax
    pub fn rows(&self, d: &Done) -> Result<Rows, Viol> {
        let p = format!("output/{}.csv", self.parsed_name()?);
        let Some(b) = d.after.get(&p) else { viol!("no-csv", "{}: {p} was not written; files: {:?}", self.describe(), d.after.keys()) };
        if b.is_empty() { return Ok(Rows { rows: vec![], empty: true }) }
        let t = match parse_csv(b) { Ok(t) => t, Err(e) => viol!("csv-syntax", "{}: {p}: {e}", self.describe()) };
        ensure!(t[0] == ["name", "compressed_size", "compression_ratio", "error"], "header", "{}: {p} starts with {:?}", self.describe(), t[0]);
        let mut rows = vec![];
        for r in &t[1..] {
            let ok = r.len() == 4;
            let v = if ok { (r[1].parse::<u64>().ok(), r[2].parse::<f64>().ok(), r[3].parse::<f64>().ok()) } else { (None, None, None) };
            match v {
                (Some(a), Some(b), Some(c)) => rows.push((r[0].clone(), a, b, c)),
                _ => viol!("incomplete-row", "{}: {p} has the row {r:?}", self.describe()),
            }
        }
        Ok(Rows { rows, empty: false })
    }

    /// One row for each readable path, in any order
    pub fn judge_rows(&self, rows: &Rows) -> R {
        let mut want: BTreeMap<&str, i64> = BTreeMap::new();
        for f in self.files.iter().filter(|f| f.readable()) { *want.entry(&f.arg).or_insert(0) += 1 }
        ensure!(rows.empty == want.is_empty(), "empty-csv", "{}: {} rows are expected, the CSV is {}", self.describe(), want.len(), if rows.empty { "empty" } else { "not empty" });
        for r in &rows.rows { *want.entry(&r.0).or_insert(0) -= 1 }
        for (k, v) in want {
            if v > 0 { viol!("lost-row", "{}: {v} row(s) missing for {k:?}", self.describe()) }
            if v < 0 { viol!("extra-row", "{}: {} row(s) too many for {k:?}", self.describe(), -v) }
        }
        Ok(())
    }

    /// What the CSV of each image has to say, given the reconstruction that was saved (if any)
    pub fn judge_figures(&self, d: &Done, rows: &Rows, obs: &mut Obs) -> R {
        let cd = codecs::codec(&self.codec)?;
        let random = self.codec.starts_with('c') || self.codec.starts_with("voronoi");
        for (n, size, ratio, error) in &rows.rows {
            let Some(f) = self.files.iter().find(|f| f.arg == *n && f.readable()) else { continue };
            let img = f.img.as_ref().expect("readable");
            let (orig, what) = (codecs::flat(img), format!("{} on {:?} ({}, {:?})", self.codec, f.arg, f.what, img.color()));
            let saved = saved_path(&f.arg).and_then(|p| d.after.get(&p).filter(|b| d.before.get(&p) != Some(b)).and_then(|b| image::load_from_memory(b).ok()));
            let raw = orig.w as f64 * orig.h as f64 * 24.0;
            ensure!(close(*ratio, 100.0 * *size as f64 / raw, 1e-9), "ratio", "{what}: the ratio is {ratio}, {size} bytes of {}x{} make {}", orig.w, orig.h, 100.0 * *size as f64 / raw);
            // Of an image that was measured more than once, only one reconstruction is left
            if random && rows.rows.iter().filter(|r| saved_path(&r.0) == saved_path(n)).count() > 1 { continue }
            let (want_size, want_error) = if random {
                // The clustering is random: the saved image tells what was done
                let got = match &saved { Some(i) => codecs::flat(i), None => Flat { w: orig.w, h: orig.h, px: orig.px.clone() } };
                let size = if self.codec.starts_with('c') { refs::hufman_size(&got.px) } else { codecs::encode(&cd, img)?.len() as u64 };
                (size, mse(&orig, &got))
            } else {
                let b = codecs::encode(&cd, img)?;
                let Some(dec) = codecs::decode(&cd, &b)? else { viol!("none", "{what}: the stream cannot be decoded") };
                (b.len() as u64, mse(&orig, &codecs::flat(&dec)))
            };
            ensure!(*size == want_size, "size", "{what}: the compressed size is given as {size}, it is {want_size}");
            ensure!(close(*error, want_error, 1e-6), "error", "{what}: the error is given as {error}, it is {want_error}");
            ensure!((*error == 0.0) == (want_error == 0.0), "error-zero", "{what}: the error is given as {error}, it is {want_error}");
            obs.count("rows_judged", 1);
            if want_error > 0.0 { obs.count("rows_with_error", 1) }
            obs.max("largest_error", *error);
            obs.fp(crate::rng::hash_bytes(format!("{what}{size}").as_bytes()));
        }
        Ok(())
    }

    /// What is written besides the CSV
    pub fn judge_files(&self, d: &Done, rows: &Rows, obs: &mut Obs) -> R {
        let cd = codecs::codec(&self.codec)?;
        let random = self.codec.starts_with('c') || self.codec.starts_with("voronoi");
        let csv = format!("output/{}.csv", self.parsed_name()?);
        let mut allowed: BTreeMap<String, usize> = BTreeMap::new();
        for (n, _, _, error) in &rows.rows {
            let Some(i) = self.files.iter().position(|f| f.arg == *n && f.readable()) else { continue };
            let Some(p) = saved_path(n) else { continue };
            let f = &self.files[i];
            let img = f.img.as_ref().expect("readable");
            let orig = codecs::flat(img);
            let what = format!("{} on {:?} ({}, {:?})", self.codec, f.arg, f.what, img.color());
            let new = d.after.get(&p).filter(|b| d.before.get(&p) != Some(b));
            if *error == 0.0 {
                if let Some(b) = new {
                    let same = image::load_from_memory(b).ok().is_some_and(|s| codecs::diff(&orig, &codecs::flat(&s)).is_none());
                    viol!("needless", "{what}: the error is 0, but {p} was written (it is{} the original)", if same { "" } else { " not" })
                }
                obs.count("images_without_loss", 1);
                continue
            }
            allowed.insert(p.clone(), i);
            let Some(b) = d.after.get(&p) else { viol!("not-saved", "{what}: the error is {error}, but {p} was not written; files: {:?}", d.after.keys()) };
            let got = match image::load_from_memory_with_format(b, image::ImageFormat::Png) { Ok(g) => g, Err(e) => viol!("not-a-png", "{what}: {p} cannot be read: {e}") };
            let got = codecs::flat(&got);
            ensure!((got.w, got.h) == (orig.w, orig.h), "dimensions", "{what}: {p} is {}x{}", got.w, got.h);
            ensure!(close(*error, mse(&orig, &got), 1e-6), "error-of-saved", "{what}: {p} has the error {}, the CSV says {error}", mse(&orig, &got));
            if !random {
                let b = codecs::encode(&cd, img)?;
                let Some(dec) = codecs::decode(&cd, &b)? else { viol!("none", "{what}: the stream cannot be decoded") };
                if let Some(e) = codecs::diff(&codecs::flat(&dec), &got) { viol!("not-the-decoded", "{what}: {p} is not the decoded image: {e}") }
            }
            obs.count("reconstructions_judged", 1);
        }
        for (k, v) in &d.after {
            if k == &csv || allowed.contains_key(k) || d.before.get(k) == Some(v) { continue }
            viol!("unexpected-file", "{}: {k} was {}", self.describe(), if d.before.contains_key(k) { "modified" } else { "created" })
        }
        for k in d.before.keys() { ensure!(d.after.contains_key(k), "deleted", "{}: {k} was deleted", self.describe()) }
        Ok(())
    }
}

impl Job {
    /// The reconstructions of images that share their stem: one of them has to be there, whole
    /// What went through a pipe in the place of the one reconstruction
    pub fn judge_written_in_turn(&self, b: &[u8], rows: &Rows, obs: &mut Obs) -> R {
        let cd = codecs::codec(&self.codec)?;
        let mut wanted = vec![];
        for (n, _, _, error) in &rows.rows {
            let Some(f) = self.files.iter().find(|f| f.arg == *n && f.readable()) else { continue };
            if *error == 0.0 { continue }
            let b = codecs::encode(&cd, f.img.as_ref().expect("readable"))?;
            if let Some(x) = codecs::decode(&cd, &b)? { wanted.push((n, codecs::flat(&x))) }
        }
        let what = format!("{}: {} bytes written to the reconstruction of {} images", self.describe(), b.len(), wanted.len());
        ensure!(wanted.is_empty() || !b.is_empty(), "not-saved", "{what}");
        let parts = match split_pngs(b) { Ok(p) => p, Err(e) => viol!("mixed", "{what}: {e}") };
        for (k, p) in parts.iter().enumerate() {
            let got = match image::load_from_memory_with_format(p, image::ImageFormat::Png) { Ok(g) => codecs::flat(&g), Err(e) => viol!("mixed", "{what}: file {k} cannot be read: {e}") };
            let Some(i) = wanted.iter().position(|w| codecs::diff(&w.1, &got).is_none()) else { viol!("none-of-them", "{what}: file {k} is the decoded image of none of them") };
            wanted.remove(i);
            obs.count("reconstructions_through_a_pipe", 1);
        }
        Ok(())
    }

    pub fn judge_shared(&self, d: &Done, rows: &Rows, obs: &mut Obs) -> R {
        let cd = codecs::codec(&self.codec)?;
        let random = self.codec.starts_with('c') || self.codec.starts_with("voronoi");
        let mut by: BTreeMap<String, Vec<(usize, f64)>> = BTreeMap::new();
        for (n, _, _, error) in &rows.rows {
            let Some(i) = self.files.iter().position(|f| f.arg == *n && f.readable()) else { continue };
            by.entry(saved_path(n).expect("stem")).or_default().push((i, *error));
        }
        for (p, v) in by {
            let new = d.after.get(&p).filter(|b| d.before.get(&p) != Some(b));
            let lossy: Vec<_> = v.iter().filter(|x| x.1 != 0.0).collect();
            let what = format!("{}: {p}, the reconstruction of {:?}", self.describe(), v.iter().map(|x| &self.files[x.0].arg).collect::<Vec<_>>());
            if lossy.is_empty() { ensure!(new.is_none(), "needless", "{what} was written although no error is given"); continue }
            let Some(b) = d.after.get(&p) else { viol!("not-saved", "{what} was not written") };
            let got = match image::load_from_memory_with_format(b, image::ImageFormat::Png) { Ok(g) => codecs::flat(&g), Err(e) => viol!("not-a-png", "{what} cannot be read: {e}") };
            let mut ok = false;
            for (i, error) in &lossy {
                let img = self.files[*i].img.as_ref().expect("readable");
                let orig = codecs::flat(img);
                if (orig.w, orig.h) != (got.w, got.h) { continue }
                ok |= if random { close(*error, mse(&orig, &got), 1e-6) } else {
                    let b = codecs::encode(&cd, img)?;
                    match codecs::decode(&cd, &b)? { Some(x) => codecs::diff(&codecs::flat(&x), &got).is_none(), None => false }
                }
            }
            ensure!(ok, "none-of-them", "{what}, is the decoded image of none of them");
            obs.count("shared_reconstructions_judged", 1);
        }
        Ok(())
    }
}

pub fn saved_os(os: &std::ffi::OsStr) -> Option<OsString> { let mut o = OsString::from("output/"); o.push(Path::new(os).file_stem()?); o.push(".png"); Some(o) }
/// output/<stem>.png
pub fn saved_path(arg: &str) -> Option<String> { let p = Path::new(arg); Some(format!("output/{}.png", p.file_stem()?.to_str()?)) }

pub fn close(a: f64, b: f64, tol: f64) -> bool { a == b || (a - b).abs() <= tol * a.abs().max(b.abs()) }

/// Mean squared Euclidean distance, in integers
pub fn mse(a: &Flat, b: &Flat) -> f64 {
    let s: u64 = a.px.iter().zip(&b.px).map(|(p, q)| (0..3).map(|c| { let d = p[c] as i64 - q[c] as i64; (d * d) as u64 }).sum::<u64>()).sum();
    s as f64 / (a.w as u64 * a.h as u64) as f64
}

/// A strict reader of quoted CSV
pub fn parse_csv(b: &[u8]) -> Result<Vec<Vec<String>>, String> {
    let s = std::str::from_utf8(b).map_err(|e| format!("not UTF-8: {e}"))?;
    let c: Vec<char> = s.chars().collect();
    let (mut rows, mut row, mut i) = (vec![], vec![], 0);
    if c.last() != Some(&'\n') { return Err(format!("the last line is not complete: {:?}", c.iter().rev().take(60).collect::<Vec<_>>().into_iter().rev().collect::<String>())) }
    while i < c.len() {
        let mut f = String::new();
        if c[i] == '"' {
            i += 1;
            loop {
                match c.get(i) {
                    None => return Err("unterminated quote".into()),
                    Some('"') if c.get(i + 1) == Some(&'"') => { f.push('"'); i += 2 }
                    Some('"') => { i += 1; break }
                    Some(x) => { f.push(*x); i += 1 }
                }
            }
        } else { while i < c.len() && c[i] != ',' && c[i] != '\n' { if c[i] == '"' { return Err(format!("a quote within the field {f:?}")) } f.push(c[i]); i += 1 } }
        row.push(f);
        match c.get(i) {
            Some(',') => { i += 1; if c.get(i) == Some(&'\n') { return Err("empty last field".into()) } }
            Some('\n') => { i += 1; rows.push(std::mem::take(&mut row)) }
            x => return Err(format!("{x:?} after a field")),
        }
    }
    Ok(rows)
}
