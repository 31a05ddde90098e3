//! C18: the Hilbert CSV dumps contain the right colours under the right labels
use cniic_mon::jobs::{self, Job};
use cniic_mon::*;
use std::ffi::OsString;

fn order(kind: &str, w: u32, h: u32) -> Vec<(u32, u32)> {
    match kind {
        "rect" => refs::hilbert_order(w, h),
        "large" => { let mut p = 1; while p < w.max(h) { p *= 2 } refs::hilbert_order(p, p).into_iter().filter(|q| q.0 < w && q.1 < h).collect() }
        _ => { let mut p = 1; while p * 2 <= w.min(h) { p *= 2 } refs::hilbert_order(p, p) }
    }
}

struct C;
impl Check for C {
    fn id(&self) -> &'static str { "C18" }
    fn rule(&self) -> String {
        "A case is one run of --special=hilbert on several generated image files (ten file formats, all pixel formats, hostile names), over stale dumps. Each of the three files of each image is parsed strictly; its columns are found by their labels, and every row is compared with the pixel that the traversal model (validated by C14: the rectangle curve, the curve of the enclosing square, the curve of the inscribed square) has at that place. Nothing else may be written. An evaluation is one dump; distinct dumps of more than one row are counted.".into()
    }
    fn cases(&self, ctx: &Ctx) -> Vec<String> {
        let mut v = vec![];
        let mut r = ctx.rng(18);
        // All small dimensions
        for w in 1..=ctx.n(17, 40) { v.push(format!("dims|{w}|{}|{}", ctx.n(17, 40), r.next() >> 12)) }
        for _ in 0..ctx.n(150, 3000) { v.push(format!("mix|{}|{}|{}", r.range(1, 6), *r.pick(&[10, 40, 100]), r.next() >> 12)) }
        for _ in 0..ctx.n(12, 120) { v.push(format!("mix|1|400|{}", r.next() >> 12)) }
        for (w, h) in [(1, 3000), (3000, 1), (2, 2049), (512, 512), (513, 511), (520, 700), (700, 530), (1023, 600), (1025, 1030), (256, 1024), (64, 64), (128, 127), (33, 700)] { v.push(format!("one|{w}|{h}|{}", r.next() >> 12)) }
        v
    }
    fn run(&self, case: &str, obs: &mut Obs) -> R {
        let f: Vec<&str> = case.split('|').collect();
        let seed: u64 = f[3].parse().unwrap();
        let (a, b): (u64, u64) = (f[1].parse().unwrap(), f[2].parse().unwrap());
        let mut r = Rng::new(seed);
        let mut j = Job::new("hufman", None, "", seed);
        match f[0] {
            "dims" => for h in 1..=b { let s = imgs::Spec::random(&mut r, a as u32, h as u32); j.add_image(&s, "png", &mut r) },
            "one" => { let s = imgs::Spec::random(&mut r, a as u32, b as u32); j.add_image(&s, "png", &mut r) }
            _ => for _ in 0..a { let s = jobs::spec(&mut r, b); let e = if r.chance(1, 2) { "png" } else { *r.pick(&jobs::EXTS) }; j.add_image(&s, e, &mut r) },
        }
        let root = j.dir.path();
        std::fs::write(root.join("output/precious.csv"), "precious").expect("write");
        for f in &j.files { if r.chance(1, 4) { for k in ["rect", "small", "large"] { std::fs::write(root.join(os_path(&f.os, k)), "red,green,blue\n1,2,3\n".repeat(9)).expect("write") } } }
        let before = proc::snapshot(root);
        let mut args: Vec<OsString> = vec!["--special=hilbert".into()];
        args.extend(j.files.iter().map(|f| f.os.clone()));
        let o = proc::run(root, &args, &[], 120);
        if let Some(h) = &o.hang { viol!("hang", "{case}: {h}") }
        let names: Vec<_> = j.files.iter().map(|f| format!("{:?} ({})", f.arg, f.what)).take(8).collect();
        ensure!(o.code == Some(0), "exit-status", "{case}: {} on {names:?}", o.how());
        let after = proc::snapshot(root);
        let mut mine = std::collections::BTreeSet::new();
        for f in &j.files {
            let img = codecs::flat(f.img.as_ref().expect("image"));
            for k in ["rect", "small", "large"] {
                let p = path(&f.arg, k);
                mine.insert(p.clone());
                let what = format!("{p} of {:?} ({})", f.arg, f.what);
                let Some(b) = after.get(&p) else { viol!("missing", "{what} was not written; files: {:?}", after.keys().filter(|k| k.starts_with("output")).collect::<Vec<_>>()) };
                let t = match jobs::parse_csv(b) { Ok(t) if !t.is_empty() => t, Ok(_) => viol!("csv-syntax", "{what} is empty"), Err(e) => viol!("csv-syntax", "{what}: {e}") };
                let col = |n: &str| t[0].iter().position(|x| x == n);
                let (Some(cr), Some(cg), Some(cb), 3) = (col("red"), col("green"), col("blue"), t[0].len()) else { viol!("labels", "{what}: the columns are {:?}", t[0]) };
                let want = order(k, img.w, img.h);
                for (i, row) in t[1..].iter().enumerate() {
                    ensure!(i < want.len(), "rows", "{what}: {} rows instead of {}", t.len() - 1, want.len());
                    let got: Vec<Option<u8>> = [cr, cg, cb].iter().map(|c| row.get(*c).and_then(|x| x.parse().ok())).collect();
                    let (x, y) = want[i];
                    let px = img.px[(y * img.w + x) as usize];
                    ensure!(got == px.map(Some) && row.len() == 3, "pixel", "{what}: row {i} is {row:?}; the pixel there, ({x}, {y}), has red, green, blue = {px:?}");
                }
                ensure!(t.len() - 1 == want.len(), "rows", "{what}: {} rows instead of {}", t.len() - 1, want.len());
                obs.eval(want.len() > 1, format!("{k}{}", f.what).as_bytes());
                obs.count("rows_compared", want.len() as u64);
            }
        }
        for (k, v) in &after { ensure!(mine.contains(k) || before.get(k) == Some(v), "unexpected-file", "{case}: {k} was written") }
        for k in before.keys() { ensure!(after.contains_key(k), "deleted", "{case}: {k} was deleted") }
        obs.count("images", j.files.len() as u64);
        obs.sample(format!("{case}: {names:?}"));
        Ok(())
    }
}
fn path(arg: &str, k: &str) -> String { format!("output/{}.{k}.hilbert.csv", std::path::Path::new(arg).file_stem().and_then(|s| s.to_str()).expect("stem")) }
fn os_path(os: &std::ffi::OsStr, k: &str) -> OsString { let mut o = OsString::from("output/"); o.push(std::path::Path::new(os).file_stem().expect("stem")); o.push(format!(".{k}.hilbert.csv")); o }
fn main() { cniic_mon::run::main_for(&C) }
