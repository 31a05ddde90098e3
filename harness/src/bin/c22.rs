//! C22: streams are self-delimiting
use cniic::verif::codec::{AnyCodec, Codec};
use cniic_mon::{codecs::*, imgs::*, *};

const ALL: [&str; 12] = ["hufman", "delta", "zip(dict)", "zip(back)", "hilbert(rle)", "hilbert(zip)", "hilbert(rle(12))", "hilbert(rle(0.5))", "cluster-colors(1)", "cluster-colors(5)", "voronoi(1)", "voronoi(7)"];

/// What follows the last image
fn tail(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[0, 0, 1, 2, 3, 4, 5, 7, 8, 12, 40, 300]);
    match r.below(5) { 0 => vec![0; n], 1 => vec![255; n], 2 => vec![1, 0].into_iter().cycle().take(n).collect(), _ => (0..n).map(|_| r.byte()).collect() }
}

struct C;
impl Check for C {
    fn id(&self) -> &'static str { "C22" }
    fn rule(&self) -> String {
        "A case is a list of up to twelve (codec, image) pairs whose streams are stored one after another, followed by zeros, ones, random bytes or nothing. They are decoded in order from one source that counts what is taken. Every decoder must take exactly the bytes of its own stream, must not ask for anything after the last of them (a source that ends there, or blocks, would notice), and must give the image that its stream gives alone. An evaluation is one decoded image with other data behind it or at the end; distinct by (codec, image, what follows).".into()
    }
    fn cases(&self, ctx: &Ctx) -> Vec<String> {
        let mut v: Vec<(u64, String)> = vec![];
        let mut r = ctx.rng(22);
        let mut push = |items: Vec<(String, Spec)>, seed: u64| {
            let cost = items.iter().map(|(c, s)| s.w as u64 * s.h as u64 * if c.starts_with('c') || c.starts_with('v') { 9 } else { 1 }).sum();
            v.push((cost, format!("{seed}|{}", items.iter().map(|(c, s)| format!("{c}@{}", s.text())).collect::<Vec<_>>().join("|"))))
        };
        // Every small shape with every codec, alone
        for (w, h) in small_dims(ctx.n(6, 14) as u32) { for c in ALL { for _ in 0..ctx.n(2, 5) { push(vec![(c.into(), Spec::random(&mut r, w, h))], r.next() >> 12) } } }
        for (p, args) in PATTERNS { for a in args { for c in ALL { for _ in 0..ctx.n(1, 5) {
            let m = if c.starts_with('c') || c.starts_with('v') { 25 } else { 50 };
            push(vec![(c.into(), Spec::new(r.range(1, m) as u32, r.range(1, m) as u32, p, *a, r.next() >> 20, "rgb8"))], r.next() >> 12);
        } } } }
        for c in ALL { for (w, h) in [(1, 513), (600, 1), (64, 64), (255, 2), (128, 3)] { push(vec![(c.into(), Spec::random(&mut r, w, h))], r.next() >> 12) } }
        for c in &ALL[..6] { for (p, a) in [("noise", 256), ("solid", 3), ("photo", 3), ("equal", 256), ("skew", 24), ("hruns", 600), ("blockrep", 6500)] {
            let m = if *c == "zip(back)" { 150 } else { 330 };
            push(vec![(c.to_string(), Spec::new(r.range(m / 2, m) as u32, r.range(m / 2, m) as u32, p, a, r.next() >> 20, "rgb8"))], r.next() >> 12);
        } }
        // Streams that end with a long repetition
        for i in 0..ctx.n(40, 400) {
            let c = ["zip(back)", "zip(back)", "zip(dict)", "hilbert(zip)"][i % 4];
            let (p, a) = *r.pick(&[("solid", 3), ("solid", 0), ("rperiod", 2), ("rperiod", 3), ("rperiod", 7), ("rperiod", 40), ("zebra", 1), ("blockrep", 100)]);
            push(vec![(c.into(), Spec::new(r.range(15, 90) as u32, r.range(15, 60) as u32, p, a, r.next() >> 20, "rgb8"))], r.next() >> 12);
        }
        for c in ALL { for (w, h) in wide_dims() { if c != "zip(back)" && c != "cluster-colors(5)" && c != "voronoi(7)" {
            let (p, a) = *r.pick(&[("photo", 3), ("solid", 3), ("hruns", 600)]);
            push(vec![(c.to_string(), Spec::new(w, h, p, a, r.next() >> 20, "rgb8"))], r.next() >> 12);
        } } }
        // Several in a row, of one codec or of different ones
        for i in 0..ctx.n(600, 9000) {
            let one = *r.pick(&ALL);
            let n = r.range(2, 12);
            let m = *r.pick(&[3, 9, 24]);
            push((0..n).map(|_| { let (w, h) = (r.range(1, m) as u32, r.range(1, m) as u32); (if i % 2 == 0 { one } else { *r.pick(&ALL) }.to_string(), Spec::random(&mut r, w, h)) }).collect(), r.next() >> 12);
        }
        v.sort_by_key(|x| std::cmp::Reverse(x.0));
        v.into_iter().map(|x| x.1).collect()
    }
    fn run(&self, case: &str, obs: &mut Obs) -> R {
        let mut it = case.split('|');
        let mut r = Rng::new(it.next().unwrap().parse().unwrap());
        let mut all: Vec<u8> = vec![];
        let mut items: Vec<(String, AnyCodec, Flat, usize)> = vec![];
        for x in it {
            let (c, s) = x.split_once('@').unwrap();
            let cd = codec(c)?;
            let b = encode(&cd, &Spec::parse(s).build())?;
            let Some(d) = decode(&cd, &b)? else { viol!(format!("none:{c}"), "{c} can't decode its own stream of {s}") };
            all.extend(&b);
            items.push((format!("{c} on {s}"), cd, flat(&d), all.len()));
        }
        let end = all.len();
        let rest = tail(&mut r);
        all.extend(&rest);
        let mut m = Meter::new(&all);
        for (k, (what, cd, alone, until)) in items.iter().enumerate() {
            let c = what.split_once(" on ").unwrap().0;
            let from = m.pos;
            let behind = all.len() - until;
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cd.decode(&mut m)));
            let Ok(res) = res else { return Err(run::panic_viol(&format!("{what} with {behind} bytes behind it"))) };
            let Some(d) = res else { viol!(format!("none:{c}"), "{what}: the stream is decoded alone, but not with {behind} bytes behind it") };
            if let Some(e) = diff(alone, &flat(&d)) { viol!(format!("image:{c}"), "{what}: with {behind} bytes behind it, {e}") }
            ensure!(m.pos == *until, format!("taken:{c}"), "{what}: {} bytes of a stream of {} were taken ({behind} bytes are behind it)", m.pos - from, until - from);
            ensure!(m.after_end == 0, format!("beyond:{c}"), "{what}: the decoder asked {} times for a byte after the last one", m.after_end);
            obs.eval(true, format!("{what}{}", all.get(*until..).map_or(0, |x| rng::hash_bytes(x))).as_bytes());
            obs.count(&format!("streams:{}", c.split(&['(', ')'][..]).take(2).collect::<Vec<_>>().join("-")), 1);
            if k + 1 < items.len() { obs.count("followed_by_an_image", 1) } else if rest.is_empty() { obs.count("at_the_end", 1) } else { obs.count("followed_by_other_bytes", 1) }
        }
        ensure!(all[m.pos..] == rest[..], "HARNESS", "positions");
        obs.max("images_in_a_row", items.len() as f64);
        obs.sample(format!("{} streams in {end} bytes with {} more behind them: each decoder took its own", items.len(), rest.len()));
        Ok(())
    }
}
fn main() { cniic_mon::run::main_for(&C) }
