//! C17: every readable image gets exactly one row, whatever fails or runs concurrently
use cniic_mon::jobs::{self, Job};
use cniic_mon::{imgs::Spec, *};

const CODECS: [&str; 9] = ["hufman", "delta", "zip(dict)", "zip(back)", "hilbert(rle)", "hilbert(zip)", "hilbert(rle(6))", "cluster-colors(3)", "voronoi(4)"];
const ORDERS: [&str; 6] = ["fifo", "lifo", "random", "burst", "pairs", "slow"];

struct C;
impl Check for C {
    fn id(&self) -> &'static str { "C17" }
    fn rule(&self) -> String {
        "A case is one run of the program on a list of paths mixing images, repeated paths, eighteen kinds of faulty paths, and named pipes through which the harness delivers images in an order of its choice (first or last opened first, random, in pairs, all at once, byte by byte), with 1 to 16 threads, over a stale CSV of an earlier run. In 'reads' cases the system calls that read the images return only a few bytes at a time, or fail for one image, at first or for good. 'rush' cases run the program again and again on up to 90 tiny images that all threads finish at about the same time. Exactly-once is judged on the parsed CSV (strict syntax, header, multiset of names, empty if nothing can be measured), then the figures of each row, and a line on the error output for each path without row; the exit status has to be 0. An evaluation is one run; distinct orders of completion (permutations of the rows relative to the command line) of runs with more than one row, and distinct (codec, image, size), are counted.".into()
    }
    fn cases(&self, ctx: &Ctx) -> Vec<String> {
        let mut v = vec![];
        let mut r = ctx.rng(17);
        let th = |r: &mut Rng| *r.pick(&[0u64, 1, 2, 3, 4, 8, 16]);
        // Cheap images that are all done at the same time, again and again. These come first, and one by one: see below.
        for c in ["hilbert(rle)", "hufman", "hilbert(rle(6))", "zip(dict)"] { for (n, t) in [(4, 4), (8, 8), (16, 16), (5, 8), (30, 8), (64, 16)] { for _ in 0..ctx.n(1, 8) { v.push(format!("{c}|rush:{}|{n}|{t}|fifo|{}", ctx.n(24, 60), r.next() >> 12)) } } }
        for c in CODECS {
            v.push(format!("{c}|none|0|0|fifo|{}", r.next() >> 12));
            for o in ORDERS {
                for _ in 0..ctx.n(25, 250) { v.push(format!("{c}|pipes|{}|{}|{o}|{}", r.range(2, 14), th(&mut r), r.next() >> 12)) }
                for _ in 0..ctx.n(25, 250) { v.push(format!("{c}|mixed|{}|{}|{o}|{}", r.range(1, 30), th(&mut r), r.next() >> 12)) }
            }
            for _ in 0..ctx.n(20, 200) { v.push(format!("{c}|faults|{}|{}|fifo|{}", r.range(1, 12), th(&mut r), r.next() >> 12)) }
            for _ in 0..ctx.n(12, 100) { v.push(format!("{c}|many|{}|{}|fifo|{}", r.range(100, 400), th(&mut r), r.next() >> 12)) }
        }
        for c in CODECS { for k in ["short", "broken", "unopened", "once"] { for _ in 0..ctx.n(4, 60) { v.push(format!("{c}|reads:{k}|{}|{}|fifo|{}", r.range(1, 9), th(&mut r), r.next() >> 12)) } } }
        // Each kind of fault at each place among three images
        for k in jobs::FAULTS { for p in 0..4 { for c in ["hufman", "hilbert(rle(6))"] { v.push(format!("{c}|one:{k}:{p}|3|{}|fifo|{}", r.range(1, 4), r.next() >> 12)) } } }
        v
    }
    fn run(&self, case: &str, obs: &mut Obs) -> R {
        let f: Vec<&str> = case.split('|').collect();
        let (n, t, seed): (usize, usize, u64) = (f[2].parse().unwrap(), f[3].parse().unwrap(), f[5].parse().unwrap());
        let mut r = Rng::new(seed);
        // Threads only meet at the same place if nothing else takes their cores
        let mut faulty = None;
        let lock = f[1].starts_with("rush").then(jobs::alone);
        let mut j = Job::new(f[0], if t == 0 { None } else { Some(t) }, f[4], seed);
        if lock.is_some() { j.use_plain_build(obs) }
        // What an earlier, longer run left behind
        let csv = { use cniic::verif::codec::Codec; codecs::codec(f[0])?.name() };
        if r.chance(1, 2) { std::fs::write(j.dir.path().join(format!("output/{csv}.csv")), "name,compressed_size,compression_ratio,error\nold.png,1,2.0,3.0\n".repeat(r.us(300) + 1)).expect("write") }
        let image = |j: &mut Job, r: &mut Rng, m: u64| { let s = jobs::spec(r, m); let e = if r.chance(2, 3) { "png" } else { *r.pick(&jobs::EXTS) }; j.add_image(&s, e, r) };
        match f[1] {
            "none" => {}
            "pipes" => for _ in 0..n { let s = jobs::spec(&mut r, 30); let d = r.chance(1, 8); j.add_pipe(&s, d, &mut r) },
            "mixed" => {
                for _ in 0..n {
                    match r.below(10) {
                        0..=2 => { let s = jobs::spec(&mut r, 30); let d = r.chance(1, 6); j.add_pipe(&s, d, &mut r) }
                        3 | 4 => { let k = *r.pick(&jobs::FAULTS); j.add_fault(k, &mut r) }
                        5 if !j.files.is_empty() => { let i = r.us(j.files.len()); j.add_again(i) }
                        _ => image(&mut j, &mut r, 40),
                    }
                }
                j.shuffle()
            }
            "faults" => for _ in 0..n { let k = *r.pick(&jobs::FAULTS); j.add_fault(k, &mut r) },
            k if k.starts_with("rush") => { let s = Spec::random(&mut r, 2, 2); for _ in 0..n { j.add_image(&s, "png", &mut r) } }
            k if k.starts_with("reads") => {
                for _ in 0..n { image(&mut j, &mut r, 40) }
                j.exe = proc::faulty();
                let all = proc::rule("r", "in/", 1, 0, format!("S{}", *r.pick(&[1, 2, 13, 500])));
                let at = r.us(n);
                let path = j.files[at].os.to_string_lossy().into_owned();
                let path = path.trim_start_matches("./");
                let e = format!("E{}", r.pick(&[5, 13, 24, 12]));
                j.rules = match k {
                    "reads:short" => all,
                    "reads:broken" => proc::rule("r", path, r.range(1, 3), 0, e) + &all,
                    "reads:unopened" => proc::rule("o", path, 1, 0, e),
                    _ => proc::rule(*r.pick(&["o", "r"]), path, 1, 1, e),
                };
                if k != "reads:short" { faulty = Some(at) }
            }
            "many" => for _ in 0..n { image(&mut j, &mut r, 9) },
            k => {
                let p: Vec<&str> = k.split(':').collect();
                for i in 0..4 { if i.to_string() == p[2] { j.add_fault(p[1], &mut r) } if i < 3 { image(&mut j, &mut r, 30) } }
            }
        }
        let mut d = j.run();
        if let Some(at) = faulty {
            // The image may have been read nevertheless
            let met = d.faults.iter().any(|l| l.1.starts_with('E'));
            obs.count(if met { "faults_while_reading" } else { "faults_not_met" }, 1);
            let listed = d.out.code == Some(0) && j.rows(&d)?.rows.iter().any(|x| x.0 == j.files[at].arg);
            if met && !listed { j.files[at].img = None }
        }
        obs.count("short_reads", d.faults.iter().filter(|l| l.0 == "r" && l.1.starts_with('S')).count() as u64);
        let again: usize = f[1].strip_prefix("rush:").map_or(0, |k| k.parse().unwrap());
        for _ in 0..again {
            j.ended_well(&d)?;
            j.judge_rows(&j.rows(&d)?)?;
            obs.count("runs_in_a_rush", 1);
            obs.evals(1);
            d = j.run();
        }
        drop(lock);
        j.ended_well(&d)?;
        let rows = j.rows(&d)?;
        j.judge_rows(&rows)?;
        let bad = j.files.iter().filter(|f| !f.readable()).count();
        ensure!(d.out.errors() >= bad, "unreported", "{}: {bad} paths have no row, but the error output says only: {:?}", j.describe(), d.out.stderr.chars().take(600).collect::<String>());
        j.judge_figures(&d, &rows, obs)?;
        // The observed schedule: where each row's path stands on the command line
        let perm: Vec<u8> = rows.rows.iter().map(|x| j.files.iter().position(|f| f.arg == x.0).unwrap_or(255) as u8).collect();
        obs.eval(perm.len() > 1, &perm);
        if perm.windows(2).any(|w| w[0] > w[1]) { obs.count("runs_with_rows_out_of_order", 1) }
        obs.count("rows", rows.rows.len() as u64);
        obs.count("paths_without_row", j.files.iter().filter(|f| !f.readable()).count() as u64);
        obs.count("pipes_delivered", d.released.len() as u64);
        obs.max("pipes_open_at_the_same_time", d.opened_together as f64);
        obs.max("rows_of_one_run", rows.rows.len() as f64);
        if rows.empty { obs.count("empty_csvs", 1) }
        obs.sample(format!("{} paths, {} threads, {}: pipes released as {:?}, rows of paths {perm:?}", j.files.len(), f[3], f[4], d.released));
        Ok(())
    }
    fn finish(&self, _: &Ctx, t: &Totals) -> R {
        ensure!(t.c("runs_with_rows_out_of_order") > 20 && t.c("paths_without_row") > 100 && t.c("faults_while_reading") > 20, "HARNESS", "too little was observed: {:?}", t.counts);
        Ok(())
    }
    fn budget(&self, ctx: &Ctx) -> u64 { if ctx.quick() { 150 } else { 3000 } }
}
fn main() { cniic_mon::run::main_for(&C) }
