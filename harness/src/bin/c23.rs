//! C23: results that cannot be written are never passed off as success
use cniic_mon::jobs::{self, Job};
use cniic_mon::{proc::rule, *};
use std::collections::BTreeSet;
use std::ffi::OsString;
use std::path::Path;

const CODECS: [&str; 8] = ["hufman", "delta", "zip(dict)", "hilbert(rle)", "hilbert(rle(30))", "hilbert(rle(500))", "cluster-colors(3)", "voronoi(3)"];
const OBSTACLES: [&str; 5] = ["directory", "full-device", "link-to-nowhere", "no-output-directory", "output-is-a-file"];

/// Puts something in the way of a file under output/
fn obstruct(root: &Path, kind: &str, at: &str) {
    let p = root.join(at);
    let _ = std::fs::remove_file(&p);
    match kind {
        "directory" => std::fs::create_dir_all(&p).expect("dir"),
        "full-device" => std::os::unix::fs::symlink("/dev/full", &p).expect("link"),
        "link-to-nowhere" => std::os::unix::fs::symlink("missing/place", &p).expect("link"),
        "no-output-directory" => { std::fs::remove_dir_all(root.join("output")).expect("rmdir") }
        _ => { std::fs::remove_dir_all(root.join("output")).expect("rmdir"); std::fs::write(root.join("output"), "a file").expect("write") }
    }
}

fn regular(p: &Path) -> Option<Vec<u8>> { std::fs::symlink_metadata(p).ok().filter(|m| m.is_file()).and_then(|_| std::fs::read(p).ok()) }

/// Nothing of the last run remains
fn clear(root: &Path) {
    let o = root.join("output");
    if o.is_dir() { std::fs::remove_dir_all(&o).expect("rmdir") } else { let _ = std::fs::remove_file(&o); }
    std::fs::create_dir(&o).expect("mkdir");
}

fn bench(j: &Job, limit: Option<u64>) -> proc::Out {
    let mut args: Vec<OsString> = vec![format!("--codec={}", j.codec).into()];
    args.extend(j.files.iter().map(|f| f.os.clone()));
    let env: Vec<(&str, String)> = j.threads.map(|t| ("RAYON_NUM_THREADS", t.to_string())).into_iter().collect();
    proc::run_limited(j.dir.path(), &args, &env, limit)
}

/// Calls that fail, or do less than asked, at one point
fn plans(log: &[(String, String, String)], root: &Path, few: bool, r: &mut Rng) -> Vec<(String, String, bool)> {
    // (file, rules, harmless)
    let mut v = vec![];
    let mut calls: std::collections::BTreeMap<String, (u64, u64)> = Default::default();
    let pre = format!("{}/", root.to_string_lossy());
    for (c, _, p) in log { let e = calls.entry(p.strip_prefix(&pre).unwrap_or(p).to_string()).or_default(); if c == "w" { e.0 += 1 } else { e.1 += 1 } }
    let mut pngs = 0;
    for (p, (w, o)) in calls {
        if p.ends_with(".png") { pngs += 1; if pngs > 3 { continue } }
        for k in 1..=o { v.push((p.clone(), rule("o", &p, k, r.below(2), format!("E{}", r.pick(&[13, 24, 28, 5]))), false)) }
        let mut at: Vec<u64> = if w <= 4 { (1..=w).collect() } else { vec![1, 2, w, r.range(3, w - 1), r.range(3, w - 1)] };
        at.sort(); at.dedup();
        for k in at {
            let e = format!("E{}", *r.pick(&[28, 5, 122, 27, 11]));
            if !few || r.chance(1, 2) { v.push((p.clone(), rule("w", &p, k, 1, e.clone()), false)) }
            // Some of it is accepted before that
            v.push((p.clone(), rule("w", &p, k, 1, format!("S{}", r.range(1, 2000))) + &rule("w", &p, k + 1, 1, e.clone()), false));
            if r.chance(1, 3) { v.push((p.clone(), rule("w", &p, k, 0, e), false)) }
            if r.chance(1, 3) { v.push((p.clone(), rule("w", &p, k, r.range(1, 5), "E4".into()), true)) }
        }
        v.push((p.clone(), rule("w", &p, 1, 0, format!("S{}", *r.pick(&[1, 7, 100, 4096]))), true));
    }
    v
}
/// Matches all calls without changing any
fn watch() -> String { rule("w", "output/", 1 << 40, 1, "E5".into()) + &rule("o", "output/", 1 << 40, 1, "E5".into()) }

/// A benchmark run some of whose output could not be written. Returns whether it claimed success.
fn judge_bench(what: &str, j: &Job, o: &proc::Out, obs: &mut Obs) -> Result<bool, Viol> {
    if let Some(h) = &o.hang { viol!("hang", "{what}: {h}") }
    ensure!(o.signal.is_none(), "signal", "{what}: {}", o.how());
    if o.code != Some(0) { obs.count("reported_by_exit_status", 1); return Ok(false) }
    let root = j.dir.path();
    let csv = { use cniic::verif::codec::Codec; codecs::codec(&j.codec)?.name() };
    let b = regular(&root.join(format!("output/{csv}.csv")));
    let Some(b) = b else { viol!("no-csv", "{what}: exit status 0, but there is no CSV") };
    let rows = if b.is_empty() { vec![] } else { match jobs::parse_csv(&b) { Ok(t) => t, Err(e) => viol!("incomplete-csv", "{what}: exit status 0, but the CSV of {} bytes is not complete: {e}", b.len()) } };
    let mut seen = BTreeSet::new();
    for (i, x) in rows.iter().enumerate() {
        if i == 0 { ensure!(x[..] == ["name", "compressed_size", "compression_ratio", "error"], "header", "{what}: the CSV starts with {x:?}"); continue }
        ensure!(x.len() == 4, "incomplete-row", "{what}: exit status 0, but there is the row {x:?}");
        let Some(f) = j.files.iter().find(|f| f.arg == x[0]) else { viol!("foreign-row", "{what}: the row {x:?} is of no image") };
        ensure!(seen.insert(&f.arg), "double-row", "{what}: two rows for {:?}", f.arg);
        let Some(error) = x[3].parse::<f64>().ok() else { viol!("incomplete-row", "{what}: the row {x:?}") };
        if error != 0.0 {
            // A row with an error promises a reconstruction
            let p = jobs::saved_path(&f.arg).unwrap();
            let Some(b) = regular(&root.join(&p)) else { viol!("not-saved", "{what}: exit status 0 and a row with error {error} for {:?}, but {p} could not be written", f.arg) };
            let got = match image::load_from_memory_with_format(&b, image::ImageFormat::Png) { Ok(g) => codecs::flat(&g), Err(e) => viol!("not-saved", "{what}: exit status 0 and a row with error {error} for {:?}, but {p} of {} bytes can't be read: {e}", f.arg, b.len()) };
            let orig = codecs::flat(f.img.as_ref().unwrap());
            ensure!((got.w, got.h) == (orig.w, orig.h) && jobs::close(error, jobs::mse(&orig, &got), 1e-6), "wrong-reconstruction", "{what}: {p} has the error {}, the row says {error}", jobs::mse(&orig, &got));
        }
    }
    let want = j.files.iter().filter(|f| f.readable()).count();
    let missing = want - seen.len().min(want);
    ensure!(missing <= o.errors(), "silent-loss", "{what}: exit status 0, {missing} of {want} rows are missing and {} errors were printed", o.errors());
    if missing > 0 { obs.count("rows_lost_with_a_message", missing as u64) }
    Ok(true)
}

const DUMPS: [&str; 3] = ["rect", "small", "large"];
fn dump_path(f: &jobs::File, k: &str) -> String { format!("output/{}.{k}.hilbert.csv", Path::new(&f.arg).file_stem().and_then(|s| s.to_str()).unwrap()) }

struct C;
impl Check for C {
    fn id(&self) -> &'static str { "C23" }
    fn level(&self) -> &'static str { "fault_enumeration" }
    fn rule(&self) -> String {
        "A case is a benchmark or --special=hilbert run on one to four generated images, repeated with its output obstructed: the CSV, a reconstruction or a dump replaced by a directory, by a link to a full device or by a link to nowhere, no output directory, a file in its place, and a disk that gets full (RLIMIT_FSIZE, with writes failing) after every kth byte of any file (all sizes up to 40 bytes, every size next to that of a result or to a multiple of 8192, 30 others). A run that exits with 0 has to have left a complete CSV, whose rows with an error have their exact reconstruction beside them and whose missing rows are each accounted for by a message on stderr; dumps have to be complete. An obstructed CSV or dump must lead to failure. In 'fault' runs single calls misbehave: each open and up to five writes of each result fail once or for good, with a part of the data accepted before in most cases, or (harmlessly) accept few bytes or are interrupted; an image whose own results are not concerned has to have its row, whatever the exit status. In 'std' runs nothing can be written to the standard output or error. An evaluation is one obstructed run, non-trivial if the obstacle was met (failure, message, or loss); distinct by (case, obstacle).".into()
    }
    fn cases(&self, ctx: &Ctx) -> Vec<String> {
        let mut v = vec![];
        let mut r = ctx.rng(23);
        for c in CODECS {
            for _ in 0..ctx.n(3, 30) { v.push(format!("disk|{c}|{}|{}|{}", r.range(1, 4), *r.pick(&[3, 12, 40]), r.next() >> 12)) }
            for o in OBSTACLES { for t in ["csv", "png"] { for _ in 0..ctx.n(3, 30) { v.push(format!("{t}:{o}|{c}|{}|{}|{}", r.range(1, 5), *r.pick(&[3, 12, 40]), r.next() >> 12)) } } }
        }
        // Many rows, so that the CSV is written in several steps
        for _ in 0..ctx.n(2, 20) { for c in ["hufman", "hilbert(rle(500))"] { v.push(format!("disk|{c}|{}|4|{}", 500 + r.below(100), r.next() >> 12)) } }
        for c in CODECS { for _ in 0..ctx.n(3, 30) {
            v.push(format!("fault|{c}|{}|{}|{}", r.range(1, 4), *r.pick(&[3, 12, 40]), r.next() >> 12));
            v.push(format!("std|{c}|{}|{}|{}", r.range(1, 4), *r.pick(&[3, 12, 40]), r.next() >> 12));
        } }
        // Long paths, so that the CSV is written in several steps
        for _ in 0..ctx.n(6, 60) { for c in ["hufman", "hilbert(rle(500))"] { v.push(format!("fault|{c}|{}|4|{}", r.range(18, 45), r.next() >> 12)) } }
        for _ in 0..ctx.n(10, 100) { v.push(format!("dump-fault||{}|{}|{}", r.range(1, 3), *r.pick(&[1, 5, 30, 60]), r.next() >> 12)) }
        // ... and dumps
        for _ in 0..ctx.n(8, 80) { v.push(format!("dump-fault||1|{}|{}", r.range(100, 300), r.next() >> 12)) }
        for _ in 0..ctx.n(12, 120) { v.push(format!("dump-disk||{}|{}|{}", r.range(1, 3), *r.pick(&[1, 5, 30, 60]), r.next() >> 12)) }
        for o in OBSTACLES { for d in DUMPS { for _ in 0..ctx.n(4, 30) { v.push(format!("dump:{o}|{d}|{}|{}|{}", r.range(1, 3), *r.pick(&[1, 5, 30]), r.next() >> 12)) } } }
        v
    }
    fn run(&self, case: &str, obs: &mut Obs) -> R {
        let f: Vec<&str> = case.split('|').collect();
        let (n, m, seed): (usize, u64, u64) = (f[2].parse().unwrap(), f[3].parse().unwrap(), f[4].parse().unwrap());
        let mut r = Rng::new(seed);
        let mut j = Job::new(if f[0].starts_with("dump") { "hufman" } else { f[1] }, Some(*r.pick(&[1, 2, 4])), "", seed);
        for _ in 0..n {
            let mut s = jobs::spec(&mut r, m);
            if m >= 100 { s.w = r.range(m / 2, m) as u32; s.h = r.range(m / 2, m) as u32 }
            let e = *r.pick(&["png", "bmp", "ppm"]); j.add_image(&s, e, &mut r);
        }
        // Undecodable names would have to be reported under another one
        for f in &mut j.files { if f.os.to_str().is_none() { let p = format!("in/plain{}", f.what.len() + r.us(1000000)); let p = format!("{p}.{}", f.what.rsplit(' ').next().unwrap()); std::fs::rename(j.dir.path().join(&f.os), j.dir.path().join(&p)).expect("rename"); f.arg = p.clone(); f.os = p.into() } }
        let root = j.dir.path().to_path_buf();
        if n > 10 && f[0] == "fault" {
            let long = format!("in/{0}/{0}/{0}", "long".repeat(60));
            std::fs::create_dir_all(root.join(&long)).expect("dir");
            for f in &mut j.files { let p = format!("{long}/{}", f.arg.rsplit('/').next().unwrap()); std::fs::rename(root.join(&f.arg), root.join(&p)).expect("rename"); f.arg = p.clone(); f.os = p.into() }
        }
        let name = { use cniic::verif::codec::Codec; codecs::codec(&j.codec)?.name() };
        let csv = format!("output/{name}.csv");
        if let Some(kind) = f[0].strip_prefix("csv:") {
            clear(&root);
            obstruct(&root, kind, &csv);
            let o = bench(&j, None);
            let what = format!("{}, {csv}: {kind}", j.describe());
            judge_csv_failed(&what, &j, &o, obs)?;
            obs.eval(true, case.as_bytes());
            obs.count(&format!("csv:{kind}"), 1);
            obs.sample(format!("{what}: exit status {:?}", o.code));
        }
        else if let Some(kind) = f[0].strip_prefix("png:") {
            if kind.contains("output") { obs.evals(1); return Ok(()) }
            clear(&root);
            let k = r.us(j.files.len());
            let p = jobs::saved_path(&j.files[k].arg).unwrap();
            obstruct(&root, kind, &p);
            let o = bench(&j, None);
            let what = format!("{}, {p}: {kind}", j.describe());
            let ok = judge_bench(&what, &j, &o, obs)?;
            let _ = ok;
            others_listed(&what, &j, &j.files[k].arg, &csv)?;
            obs.eval(o.errors() > 0, case.as_bytes());
            obs.count(&format!("png:{kind}"), 1);
            obs.sample(format!("{what}: exit status {:?}, {} messages", o.code, o.errors()));
        }
        else if f[0] == "fault" || f[0] == "std" {
            let mut args: Vec<OsString> = vec![format!("--codec={}", j.codec).into()];
            args.extend(j.files.iter().map(|f| f.os.clone()));
            let env: Vec<(&str, String)> = j.threads.map(|t| ("RAYON_NUM_THREADS", t.to_string())).into_iter().collect();
            clear(&root);
            if f[0] == "std" {
                for (so, se) in [("full", "pipe"), ("closed", "pipe"), ("null", "full"), ("null", "closed")] {
                    clear(&root);
                    let (mut o, _) = proc::run_faulty(&root, &args, &env, "", so, se);
                    // Messages about lost rows can't be seen then
                    if se != "pipe" { o.stderr.clear() }
                    let what = format!("{}, standard output {so}, standard error {se}", j.describe());
                    let ok = judge_bench(&what, &j, &o, obs)?;
                    if ok { all_listed(&what, &j, &csv)? }
                    obs.eval(!ok, format!("{case}{so}{se}").as_bytes());
                    obs.count("runs_with_a_broken_standard_stream", 1);
                }
                return Ok(())
            }
            let (o, log) = proc::run_faulty(&root, &args, &env, &watch(), "null", "pipe");
            ensure!(judge_bench(&j.describe(), &j, &o, obs)?, "exit-status", "{}: {}", j.describe(), o.how());
            obs.max("writes_of_the_csv", log.iter().filter(|l| l.0 == "w" && l.2.ends_with(".csv")).count() as f64);
            for (p, rules, harmless) in plans(&log, &root, n > 10, &mut r) {
                clear(&root);
                let (o, log) = proc::run_faulty(&root, &args, &env, &rules, "null", "pipe");
                let met: Vec<String> = log.iter().filter(|l| l.1 != "-").map(|l| format!("{}:{}", l.0, l.1)).take(8).collect();
                let what = format!("calls on {p:?} that misbehave by {rules:?} (observed: {met:?}), {}", j.describe());
                let ok = judge_bench(&what, &j, &o, obs)?;
                if met.is_empty() { obs.evals(1); continue }
                if harmless { ensure!(ok, "harmless", "{what}: {}", o.how()) }
                if harmless || ok && p == csv { all_listed(&what, &j, &csv)? }
                else if p != csv { let k = j.files.iter().find(|f| jobs::saved_path(&f.arg).as_ref() == Some(&p)).map_or("", |f| &f.arg); others_listed(&what, &j, k, &csv)? }
                obs.eval(true, format!("{case}{rules}").as_bytes());
                obs.count(if harmless { "harmless_faults" } else if p == csv { "csv_faults" } else { "reconstruction_faults" }, 1);
                if ok && !harmless && p == csv { obs.count("csv_faults_survived", 1) }
                obs.sample(format!("{what}: exit status {:?}, {} messages", o.code, o.errors()));
            }
        }
        else if f[0] == "disk" {
            clear(&root);
            let o = bench(&j, None);
            let what0 = format!("{}, a disk that is never full", j.describe());
            ensure!(judge_bench(&what0, &j, &o, obs)?, "exit-status", "{what0}: {}", o.how());
            let mut marks: Vec<u64> = proc::snapshot(&root.join("output")).values().map(|b| b.len() as u64).collect();
            let full = regular(&root.join(&csv)).unwrap_or_default().len() as u64;
            marks.sort(); marks.dedup();
            for k in limits(&marks, n > 100, &mut r) {
                clear(&root);
                let o = bench(&j, Some(k));
                let what = format!("{}, a disk that is full after {k} bytes of a file (the CSV takes {full})", j.describe());
                let ok = judge_bench(&what, &j, &o, obs)?;
                obs.eval(!ok || o.errors() > 0, format!("{case}{k}").as_bytes());
                obs.count("full_disk_runs", 1);
            }
            obs.sample(format!("{}: results of {marks:?} bytes, every limit reported", j.describe()));
        }
        else {
            let mut args: Vec<OsString> = vec!["--special=hilbert".into()];
            args.extend(j.files.iter().map(|f| f.os.clone()));
            let go = |limit| proc::run_limited(&root, &args, &[], limit);
            let names: Vec<_> = j.files.iter().map(|f| format!("{:?} ({})", f.arg, f.what)).collect();
            clear(&root);
            let o = go(None);
            ensure!(o.code == Some(0), "exit-status", "--special=hilbert on {names:?}: {}", o.how());
            let whole: Vec<(String, Vec<u8>)> = proc::snapshot(&root).into_iter().filter(|x| x.0.starts_with("output/")).collect();
            let judge = |what: &str, o: &proc::Out, obs: &mut Obs| -> R {
                if let Some(h) = &o.hang { viol!("hang", "{what}: {h}") }
                ensure!(o.signal.is_none(), "signal", "{what}: {}", o.how());
                if o.code == Some(0) { for (p, b) in &whole {
                    let got = regular(&root.join(p)).map_or(0, |b| b.len());
                    ensure!(regular(&root.join(p)).as_ref() == Some(b), "incomplete-dump", "{what}: exit status 0, but {p} has {got} bytes instead of {}", b.len());
                } } else { obs.count("reported_by_exit_status", 1) }
                Ok(())
            };
            if let Some(kind) = f[0].strip_prefix("dump:") {
                clear(&root);
                let p = dump_path(r.pick(&j.files), f[1]);
                obstruct(&root, kind, &p);
                let o = go(None);
                let what = format!("--special=hilbert on {names:?}, {p}: {kind}");
                judge(&what, &o, obs)?;
                ensure!(o.code != Some(0), "dump-success", "{what}: exit status 0");
                obs.eval(true, case.as_bytes());
                obs.count(&format!("dump:{kind}"), 1);
                obs.sample(format!("{what}: exit status {:?}", o.code));
            } else if f[0] == "dump-fault" {
                let (o, log) = proc::run_faulty(&root, &args, &[], &watch(), "null", "pipe");
                judge("an undisturbed run", &o, obs)?;
                for (p, rules, harmless) in plans(&log, &root, false, &mut r) {
                    clear(&root);
                    let (o, log) = proc::run_faulty(&root, &args, &[], &rules, "null", "pipe");
                    let met = log.iter().filter(|l| l.1 != "-").count();
                    let what = format!("--special=hilbert on {names:?}, calls on {p} that misbehave by {rules:?} ({met} did)");
                    judge(&what, &o, obs)?;
                    if met == 0 { obs.evals(1); continue }
                    ensure!(!harmless || o.code == Some(0), "harmless", "{what}: {}", o.how());
                    obs.eval(true, format!("{case}{rules}").as_bytes());
                    obs.count(if harmless { "harmless_dump_faults" } else { "dump_faults" }, 1);
                }
            } else {
                let mut marks: Vec<u64> = whole.iter().map(|x| x.1.len() as u64).collect();
                marks.sort(); marks.dedup();
                for k in limits(&marks, false, &mut r) {
                    clear(&root);
                    let o = go(Some(k));
                    judge(&format!("--special=hilbert on {names:?}, a disk that is full after {k} bytes of a file"), &o, obs)?;
                    obs.eval(o.code != Some(0), format!("{case}{k}").as_bytes());
                    obs.count("full_disk_dumps", 1);
                }
                obs.sample(format!("--special=hilbert on {names:?}: dumps of {marks:?} bytes, every limit reported"));
            }
        }
        Ok(())
    }
    fn finish(&self, _: &Ctx, t: &Totals) -> R {
        ensure!(t.c("reported_by_exit_status") > 300 && t.c("rows_lost_with_a_message") > 30, "HARNESS", "too few obstacles were met: {:?}", t.counts);
        Ok(())
    }
}

fn listed(csv: &str, j: &Job) -> BTreeSet<String> {
    let b = regular(&j.dir.path().join(csv)).unwrap_or_default();
    if b.is_empty() { Default::default() } else { jobs::parse_csv(&b).unwrap_or_default().into_iter().map(|x| x[0].clone()).collect() }
}
fn all_listed(what: &str, j: &Job, csv: &str) -> R {
    let l = listed(csv, j);
    for f in j.files.iter().filter(|f| f.readable()) { ensure!(l.contains(&f.arg), "lost-row", "{what}: {:?} has no row", f.arg) }
    Ok(())
}
/// Images are not affected by what happens to another
fn others_listed(what: &str, j: &Job, except: &str, csv: &str) -> R {
    let l = listed(csv, j);
    for f in j.files.iter().filter(|f| f.readable() && f.arg != except) { ensure!(l.contains(&f.arg), "others-affected", "{what}: {:?} lost its row", f.arg) }
    Ok(())
}

fn judge_csv_failed(what: &str, j: &Job, o: &proc::Out, obs: &mut Obs) -> R {
    if let Some(h) = &o.hang { viol!("hang", "{what}: {h}") }
    ensure!(o.signal.is_none(), "signal", "{what}: {}", o.how());
    let want = j.files.iter().filter(|f| f.readable()).count();
    ensure!(o.code != Some(0), "csv-success", "{what}: exit status 0 although the CSV with {want} rows could not be written");
    obs.count("reported_by_exit_status", 1);
    Ok(())
}

fn limits(marks: &[u64], few: bool, r: &mut Rng) -> Vec<u64> {
    let top = *marks.last().unwrap_or(&1);
    let mut v: Vec<u64> = if few { vec![0, 1, 40] } else { (0..40.min(top)).collect() };
    for m in marks.iter().take(12) { v.extend([m.saturating_sub(1), *m, *m + 1]) }
    let mut k = 8192;
    while k <= top && k < 100_000 { v.extend([k - 1, k, k + 1]); k += 8192 }
    for _ in 0..if few { 4 } else { 30 } { v.push(r.below(top + 2)) }
    v.sort(); v.dedup();
    v
}
fn main() { cniic_mon::run::main_for(&C) }
