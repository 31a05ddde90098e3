//! C19: saved reconstructions are the decoded images, and appear only when needed
use cniic_mon::jobs::{self, Job};
use cniic_mon::{imgs::Spec, *};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};

const CODECS: [&str; 20] = ["hufman", "delta", "zip(dict)", "zip(back)", "hilbert(rle)", "hilbert(zip)", "hilbert(rle(0.5))", "hilbert(rle(1))", "hilbert(rle(3))", "hilbert(rle(20))", "hilbert(rle(1000))",
    "cluster-colors(1)", "cluster-colors(2)", "cluster-colors(9)", "cluster-colors(80)", "voronoi(1)", "voronoi(2)", "voronoi(9)", "voronoi(80)", "voronoi(5000)"];

struct C;
impl Check for C {
    fn id(&self) -> &'static str { "C19" }
    fn rule(&self) -> String {
        "A case is one run of the program on several generated images (distinct stems) and faulty paths, with inputs, stale reconstructions of earlier runs (also ones of just the length that is going to be written) and unrelated files in place. Snapshots of the whole directory tree before and after are compared: apart from the CSV, exactly the PNGs of the images whose error is not 0 may differ, each must be a PNG of the original's dimensions with the error of the CSV row (integer recomputation) and, for codecs without random choices, be exactly the decoded image. In 'clash' cases several images share a stem: what is saved there has to be, whole, the decoded image of one of them; in 'clash:pipe' cases that file is a small named pipe which is read slowly, so that every writer is stopped in the middle, and what arrives has to be whole PNGs, each the decoded image of another one of them. An evaluation is one run; distinct (codec, image, size) are counted.".into()
    }
    fn cases(&self, ctx: &Ctx) -> Vec<String> {
        let mut v = vec![];
        let mut r = ctx.rng(19);
        for _ in 0..ctx.n(12, 120) { for c in ["hilbert(rle(60))", "hilbert(rle(20))", "hilbert(rle(150))"] { v.push(format!("{c}|clash:pipe|{}|{}", *r.pick(&[20, 60, 100]), r.next() >> 12)) } }
        for _ in 0..ctx.n(200, 2500) { for c in CODECS { v.push(format!("{c}|{}|{}|{}", r.range(1, 8), *r.pick(&[5, 20, 60]), r.next() >> 12)) } }
        for _ in 0..ctx.n(6, 100) { for c in CODECS { v.push(format!("{c}|clash|{}|{}", *r.pick(&[8, 40, 90]), r.next() >> 12)) } }
        v
    }
    fn run(&self, case: &str, obs: &mut Obs) -> R {
        let f: Vec<&str> = case.split('|').collect();
        let seed: u64 = f[3].parse().unwrap();
        let mut r = Rng::new(seed);
        let mut j = Job::new(f[0], if r.chance(1, 2) { None } else { Some(r.range(1, 6) as usize) }, "random", seed);
        if f[1].starts_with("clash") {
            // Images that differ only in their directory or extension are saved to the same place
            let pipe = f[1] == "clash:pipe";
            j.threads = Some(if pipe { r.range(2, 8) as usize } else { *r.pick(&[1, 4, 8]) });
            let m: u64 = f[2].parse().unwrap();
            for i in 0..r.range(2, 9) {
                std::fs::create_dir_all(j.dir.path().join(format!("in/d{i}"))).expect("dir");
                // Big results of different lengths
                let s = if pipe { Spec::new((m * (10 + i) / 10) as u32, m as u32, "noise", 256, r.next() >> 20, "rgb8") } else { jobs::spec(&mut r, m) };
                let (stem, ext) = if pipe { ("a", "png") } else { (*r.pick(&["a", "a", "b.c"]), *r.pick(&["png", "bmp", "ppm", "qoi"])) };
                j.put(format!("in/d{i}/{stem}.{ext}"), &s, ext);
            }
            let (d, written) = if pipe {
                // Whoever saves is stopped in the middle, so that the others catch up
                let mut p = jobs::SlowPipe::new(&j.dir.path().join("output/a.png"));
                let stop = AtomicBool::new(false);
                std::thread::scope(|s| {
                    let h = s.spawn(|| p.read(&stop));
                    let d = j.run();
                    stop.store(true, SeqCst);
                    (d, Some(h.join().expect("reader")))
                })
            } else { (j.run(), None) };
            j.ended_well(&d)?;
            let rows = j.rows(&d)?;
            match written {
                Some(b) if !d.after.contains_key("output/a.png") => j.judge_written_in_turn(&b, &rows, obs)?,
                _ => j.judge_shared(&d, &rows, obs)?,
            }
            for (i, x) in rows.rows.iter().enumerate() { obs.fp(rng::hash_bytes(format!("{}{}{}{i}", f[0], x.1, x.3).as_bytes())) }
            obs.evals(1);
            obs.sample(format!("{}: errors {:?}", j.describe(), rows.rows.iter().map(|r| r.3).collect::<Vec<_>>()));
            return Ok(())
        }
        for _ in 0..f[1].parse::<usize>().unwrap() {
            let s = jobs::spec(&mut r, f[2].parse().unwrap());
            match r.below(10) {
                0 => { let k = *r.pick(&jobs::FAULTS); j.add_fault(k, &mut r) }
                1 => j.add_pipe(&s, false, &mut r),
                _ => { let e = if r.chance(1, 2) { "png" } else { *r.pick(&jobs::EXTS) }; j.add_image(&s, e, &mut r) }
            }
        }
        j.shuffle();
        // Files that are nobody's business, and reconstructions of earlier runs
        let root = j.dir.path();
        for n in ["output/other.csv", "output/notes.txt", "precious.png", "in/precious.csv", "output/precious.png"] { std::fs::write(root.join(n), format!("precious {seed}")).expect("write") }
        for f in &j.files { if let Some(p) = jobs::saved_os(&f.os) { if f.img.is_some() && r.chance(1, 4) { std::fs::write(root.join(p), "stale").expect("write") } } }
        if r.chance(1, 3) && j.files.iter().all(|f| f.pipe.is_none()) {
            // What a whole earlier run saved, of the same length as what this one will save, but not the same
            let d = j.run();
            j.ended_well(&d)?;
            // (by the names as they are: not every one is Unicode)
            let mut names: Vec<_> = j.files.iter().filter_map(|f| jobs::saved_os(&f.os)).collect();
            names.sort();
            names.dedup();
            for p in names {
                let p = j.dir.path().join(p);
                let Ok(mut b) = std::fs::read(&p) else { continue };
                if b.len() < 20 || p.ends_with("precious.png") { continue }
                let k = r.us(b.len());
                b[k] ^= 1 << r.below(8);
                std::fs::write(p, b).expect("write");
                obs.count("stale_files_of_the_same_length", 1);
            }
        }
        let d = j.run();
        j.ended_well(&d)?;
        let rows = j.rows(&d)?;
        j.judge_files(&d, &rows, obs)?;
        for (i, x) in rows.rows.iter().enumerate() { obs.fp(rng::hash_bytes(format!("{}{}{}{i}", f[0], x.1, x.3).as_bytes())) }
        obs.evals(1);
        obs.count("images", rows.rows.len() as u64);
        obs.count("files_compared", d.after.len() as u64);
        obs.sample(format!("{}: errors {:?}; output has {:?}", j.describe(), rows.rows.iter().map(|r| r.3).collect::<Vec<_>>(), d.after.keys().filter(|k| k.starts_with("output/")).collect::<Vec<_>>()));
        Ok(())
    }
    fn finish(&self, _: &Ctx, t: &Totals) -> R {
        ensure!(t.c("reconstructions_judged") > 300 && t.c("images_without_loss") > 300 && t.c("shared_reconstructions_judged") > 50 && t.c("reconstructions_through_a_pipe") > 30, "HARNESS", "too little was observed: {:?}", t.counts);
        Ok(())
    }
}
fn main() { cniic_mon::run::main_for(&C) }
