//! C16: benchmark figures are correct
use cniic_mon::jobs::{self, Job};
use cniic_mon::*;

const CODECS: [&str; 22] = ["hufman", "delta", "zip(dict)", "zip(back)", "hilbert(rle)", "hilbert(zip)", "hilbert(rle(0))", "hilbert(rle(0.5))", "hilbert(rle(1))", "hilbert(rle(8))", "hilbert(rle(20.25))", "hilbert(rle(1000))",
    "cluster-colors(1)", "cluster-colors(2)", "cluster-colors(16)", "cluster-colors(300)", "cluster-colors(100000)", "voronoi(1)", "voronoi(2)", "voronoi(20)", "voronoi(150)", "voronoi(100000)"];

struct C;
impl Check for C {
    fn id(&self) -> &'static str { "C16" }
    fn rule(&self) -> String {
        "A case is one run of the program on several generated image files (ten file formats, all pixel formats, hostile names) with one codec. The size of each row is compared with the length of what the codec writes for that image (cluster-colors: with the independent size model applied to the saved reconstruction), the ratio with 100 size / (24 w h), the error with an integer recomputation from the decoded image (random codecs: from the saved reconstruction, or 0 if none was saved). An evaluation is one run; distinct non-trivial (codec, image, size) are counted.".into()
    }
    fn assumptions(&self) -> Vec<String> { vec!["figures are compared with a relative tolerance of 1e-9 (ratio) and 1e-6 (error); sizes and zero errors exactly".into()] }
    fn cases(&self, ctx: &Ctx) -> Vec<String> {
        let mut v = vec![];
        let mut r = ctx.rng(16);
        // More raw bits than 32 bits can count, with the fastest codec
        v.push("huge|hilbert(rle)|16400|11000".to_string());
        if !ctx.quick() { v.push("huge|hilbert(rle(3))|16400|11000".into()) }
        v.push("huge|hilbert(rle(1))|1|70000".into());
        v.push("huge|delta|66000|2".into());
        // Rows, columns and whole images whose squared distances add up to more than 32 bits
        for (c, w, h) in [("cluster-colors(1)", 140_000, 1), ("cluster-colors(1)", 1, 140_000), ("voronoi(1)", 120_000, 2), ("hilbert(rle(1000))", 70_000, 3), ("hilbert(rle(1000))", 2, 70_000), ("hilbert(rle(1000))", 500, 500)] { v.push(format!("sums|{c}|{w}|{h}")) }
        for _ in 0..ctx.n(40, 500) { for c in CODECS { v.push(format!("mix|{c}|{}|{}|{}", r.range(1, 8), *r.pick(&[12, 40, 90]), r.next() >> 12)) } }
        for _ in 0..ctx.n(4, 60) { for c in CODECS { v.push(format!("mix|{c}|2|220|{}", r.next() >> 12)) } }
        v
    }
    fn run(&self, case: &str, obs: &mut Obs) -> R {
        let f: Vec<&str> = case.split('|').collect();
        let mut j = match f[0] {
            "huge" => {
                let (w, h): (u32, u32) = (f[2].parse().unwrap(), f[3].parse().unwrap());
                let mut j = Job::new(f[1], None, "", 1);
                let img = image::DynamicImage::ImageLuma8(image::ImageBuffer::from_fn(w, h, |x, y| image::Luma([(x / 4096 + y / 500) as u8])));
                let arg = "in/huge.png".to_string();
                img.save(j.dir.path().join(&arg)).expect("png");
                j.files.push(jobs::File::new(arg, Some(img), format!("{w}x{h}"), None));
                j
            }
            "sums" => {
                let (w, h): (u32, u32) = (f[2].parse().unwrap(), f[3].parse().unwrap());
                let mut j = Job::new(f[1], None, "", 1);
                // Black first, white for the most part
                let img = image::DynamicImage::ImageRgb8(image::ImageBuffer::from_fn(w, h, |x, y| image::Rgb([if (y as u64 * w as u64 + x as u64) * 9 < w as u64 * h as u64 * 4 { 0 } else { 255 }; 3])));
                let arg = "in/sums.png".to_string();
                img.save(j.dir.path().join(&arg)).expect("png");
                j.files.push(jobs::File::new(arg, Some(img), format!("{w}x{h}"), None));
                j
            }
            _ => {
                let seed: u64 = f[4].parse().unwrap();
                let mut r = Rng::new(seed);
                let mut j = Job::new(f[1], if r.chance(1, 2) { None } else { Some(r.range(1, 4) as usize) }, "", seed);
                for _ in 0..f[2].parse::<usize>().unwrap() { let m: u64 = f[3].parse().unwrap();
                    // Clustering n points into n clusters takes memory in n^2
                    let s = jobs::spec(&mut r, if f[1].contains("100000") { m.min(55) } else { m }); let e = if r.chance(1, 2) { "png" } else { *r.pick(&jobs::EXTS) }; j.add_image(&s, e, &mut r) }
                j
            }
        };
        j.shuffle();
        let d = j.run();
        j.ended_well(&d)?;
        let rows = j.rows(&d)?;
        ensure!(!rows.rows.is_empty(), "no-rows", "{}: the CSV has no rows", j.describe());
        j.judge_figures(&d, &rows, obs)?;
        obs.evals(1);
        obs.count("images", j.files.len() as u64);
        obs.sample(format!("{}: {:?}", j.describe(), rows.rows.iter().map(|r| (r.1, r.2, r.3)).take(3).collect::<Vec<_>>()));
        Ok(())
    }
    fn finish(&self, _: &Ctx, t: &Totals) -> R { ensure!(t.c("rows_with_error") > 100, "HARNESS", "too few lossy rows"); Ok(()) }
    fn budget(&self, ctx: &Ctx) -> u64 { if ctx.quick() { 150 } else { 3000 } }
    fn cpu_limit(&self) -> u64 { 300 }
}
fn main() { cniic_mon::run::main_for(&C) }
