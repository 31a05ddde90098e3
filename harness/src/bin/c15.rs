//! C15: codec arguments are parsed exactly and never crash
use cniic::verif::codec::{AnyCodec, Codec};
use cniic_mon::proc::{self, Scratch};
use cniic_mon::*;
use std::ffi::OsString;
use std::str::FromStr;

#[derive(Debug, PartialEq)]
enum Want { Reject, Accept(String, bool), /** Either way, but without crashing */ Free }

/// The reference grammar, written without regular expressions or the call-syntax helper
fn denotes(s: &str) -> Want {
    use Want::*;
    if s.len() == 6 && s.bytes().zip(*b"hufman").all(|(a, b)| a | 0x20 == b && a.is_ascii_alphabetic()) { return Accept("Hufman".into(), true) }
    match s {
        "delta" => return Accept("delta".into(), true),
        "zip(dict)" => return Accept("zip-dict".into(), true),
        "zip(back)" => return Accept("zip-back".into(), true),
        "hilbert(rle)" | "Hilbert(rle)" => return Accept("hilbert-rle".into(), true),
        "hilbert(zip)" | "Hilbert(zip)" => return Accept("hilbert-zip".into(), true),
        _ => {}
    }
    if let Some(d) = s.strip_prefix("hilbert(rle(").or_else(|| s.strip_prefix("Hilbert(rle(")).and_then(|r| r.strip_suffix("))")) {
        return match decimal(d) {
            Num::Finite(v) if v == 0.0 => Accept("hilbert-rle".into(), true),
            Num::Finite(v) => Accept(format!("hilbert-rle-approx_{v}"), false),
            // Not numbers, but Rust reads them as floating point values
            Num::Special => Free,
            Num::No => Reject,
        };
    }
    for (p, name) in [("ccol(", "cluster-colors"), ("ccolors(", "cluster-colors"), ("c-col(", "cluster-colors"), ("c-colors(", "cluster-colors"),
        ("clustercol(", "cluster-colors"), ("clustercolors(", "cluster-colors"), ("cluster-col(", "cluster-colors"), ("cluster-colors(", "cluster-colors"), ("voronoi(", "voronoi")] {
        if let Some(d) = s.strip_prefix(p).and_then(|r| r.strip_suffix(')')) {
            if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) { return Reject }
            let d = d.trim_start_matches('0');
            // As large as the machine's size type
            if d.is_empty() || d.len() > 20 || d.parse::<u128>().map_or(true, |v| v > usize::MAX as u128) { return Reject }
            return Accept(format!("{name}_{d}"), false);
        }
    }
    Reject
}

enum Num { No, Special, Finite(f64) }
/// [+-] (digits [. digits*] | . digits+) [(e|E) [+-] digits+], or Rust's inf, infinity and nan
fn decimal(s: &str) -> Num {
    let b = s.strip_prefix(['+', '-']).unwrap_or(s);
    if ["inf", "infinity", "nan"].iter().any(|x| b.eq_ignore_ascii_case(x)) { return Num::Special }
    let (m, e) = match b.find(['e', 'E']) { Some(i) => (&b[..i], Some(&b[i + 1..])), None => (b, None) };
    let digits = |x: &str| x.bytes().all(|c| c.is_ascii_digit());
    let (i, f) = m.split_once('.').unwrap_or((m, ""));
    if !digits(i) || !digits(f) || i.len() + f.len() == 0 { return Num::No }
    if let Some(e) = e { let e = e.strip_prefix(['+', '-']).unwrap_or(e); if e.is_empty() || !digits(e) { return Num::No } }
    match s.parse::<f64>() { Ok(v) if v.is_finite() => Num::Finite(v), Ok(_) => Num::Special, Err(_) => Num::No }
}

fn show(s: &str) -> String { if s.len() > 200 { let h: String = s.chars().take(100).collect(); format!("{h:?}... ({} bytes)", s.len()) } else { format!("{s:?}") } }

fn judge(s: &str, obs: &mut Obs) -> R {
    let got = run::guard(&format!("parsing {}", show(s)), || AnyCodec::from_str(s).map(|c| (c.name(), c.is_lossless())).map_err(|e| format!("{e:?}").len()))?;
    let want = denotes(s);
    match (&want, &got) {
        (Want::Free, _) => { obs.count("not_judged", 1); }
        (Want::Reject, Err(_)) => { obs.count("rejected", 1); }
        (Want::Accept(n, l), Ok((gn, gl))) => {
            ensure!(n == gn, "name", "{} gives the codec {gn:?}, expected {n:?}", show(s));
            ensure!(l == gl, "lossless", "{} gives a codec with is_lossless() = {gl}", show(s));
            obs.count("accepted", 1);
        }
        (Want::Reject, Ok((n, _))) => viol!("wrongly-accepted", "{} is accepted as {n:?}", show(s)),
        (Want::Accept(n, _), Err(_)) => viol!("wrongly-rejected", "{} is rejected, it denotes {n:?}", show(s)),
    }
    obs.eval(!s.is_empty(), s.as_bytes());
    Ok(())
}

const TOKENS: [&str; 28] = ["zip", "hilbert", "Hilbert", "rle", "dict", "back", "delta", "hufman", "HufMan", "(", ")", ",", "1", "0", "-", "c", "cluster", "col", "colors", "ors", "voronoi", " ", "é", "\n", ".", "5e1", "(rle(", "))"];

fn valid(r: &mut Rng) -> String {
    let n = |r: &mut Rng| -> String { match r.below(7) { 0 => "1".into(), 1 => "0".into(), 2 => format!("{}", r.below(300)), 3 => format!("{}", usize::MAX), 4 => format!("{}0", usize::MAX), 5 => format!("00{}", r.below(100)), _ => format!("{}", r.next()) } };
    match r.below(9) {
        0 => "hufman".chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect(),
        1 => "delta".into(),
        2 => (*r.pick(&["zip(dict)", "zip(back)"])).into(),
        3 => (*r.pick(&["hilbert(rle)", "Hilbert(rle)", "hilbert(zip)", "Hilbert(zip)"])).into(),
        4 | 5 => {
            let d = match r.below(14) { 0 => "0".to_string(), 1 => "-0".into(), 2 => "0.0".into(), 3 => "1e-400".into(), 4 => ".5".into(), 5 => "5.".into(), 6 => "-3".into(), 7 => "+2".into(), 8 => "1e400".into(), 9 => "inf".into(), 10 => "NaN".into(), 11 => format!("{}", r.f64() * 300.0), 12 => format!("{:e}", r.f64() * 1e9), _ => format!("{}", r.below(443)) };
            format!("{}ilbert(rle({d}))", r.pick(&["h", "H"]))
        }
        6 | 7 => format!("{}{}{}({})", r.pick(&["c", "cluster"]), r.pick(&["", "-"]), r.pick(&["col", "colors"]), n(r)),
        _ => format!("voronoi({})", n(r)),
    }
}

const ODD: [char; 40] = ['(', ')', ',', '(', ')', ',', ' ', '\t', '\n', '\0', '-', '+', '.', '0', '1', '9', 'e', 'E', 'i', 'r', 'l', 'z', 'c', 'H', 'ſ', 'K', 'é', '٣', '９', '𝟗', '（', '）', '，', '🦀', '\u{301}', '\u{202e}', '\u{feff}', '"', '\\', '^'];

fn mutate(s: &str, r: &mut Rng) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.below(3) {
        let i = r.us(c.len() + 1);
        match r.below(9) {
            0 | 1 => c.insert(i, *r.pick(&ODD)),
            2 => { if i < c.len() { c.remove(i); } }
            3 => { if i < c.len() { c[i] = *r.pick(&ODD) } }
            4 => { if i + 1 < c.len() { c.swap(i, i + 1) } }
            5 => { if i < c.len() { let x = c[i]; c.insert(i, x) } }
            6 => { if i < c.len() { c[i] = if c[i].is_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() } } }
            7 => { let t: Vec<char> = valid(r).chars().collect(); for x in t.into_iter().rev() { c.insert(i, x) } }
            _ => c.truncate(i),
        }
    }
    c.into_iter().collect()
}

fn random(r: &mut Rng) -> String {
    (0..r.below(30)).map(|_| match r.below(4) {
        0 => *r.pick(&ODD),
        1 => (0x20 + r.below(95)) as u8 as char,
        2 => char::from_u32(r.below(0x3000) as u32).unwrap_or('x'),
        _ => char::from_u32(r.below(0x110000) as u32).unwrap_or('('),
    }).collect()
}

fn huge(i: u64) -> String {
    let rep = |s: &str, n: usize| s.repeat(n);
    match i {
        0 => rep("(", 200_000), 1 => rep("a(", 200_000), 2 => rep("a(", 100_000) + &rep(")", 100_000), 3 => rep("hilbert(", 70_000) + "rle" + &rep(")", 70_000),
        4 => format!("voronoi({})", rep("9", 1_000_000)), 5 => format!("voronoi({}1)", rep("0", 1_000_000)), 6 => format!("hilbert(rle({}))", rep("1", 300_000)),
        7 => format!("hilbert(rle(0.{}1))", rep("0", 300_000)), 8 => rep("hufman", 100_000), 9 => format!("zip({})", rep("dict,", 100_000)), 10 => rep(")", 100_000),
        11 => rep(",", 100_000), 12 => rep("é", 300_000), 13 => format!("é({})", rep("é", 100_000)), 14 => format!("zip({}dict{})", rep("(", 60_000), rep(")", 60_000)),
        15 => format!("cluster-colors({}", rep("1", 500_000)), 16 => format!("hilbert(rle({}1))", rep("(", 65_536)), 17 => format!("hilbert(rle({}{}))", rep("1(", 256), rep(")", 256)),
        18 => format!("hilbert(rle(1e{}))", rep("9", 100_000)), 19 => rep("\0", 100_000), 20 => rep("voronoi(1)", 50_000), _ => format!("hilbert({}", rep("rle(", 300)),
    }
}

/* The command line */

/// args, whether it has to succeed (and the CSV it then writes)
fn cli(case: &str, obs: &mut Obs) -> R {
    let f: Vec<&str> = case.splitn(3, '|').collect();
    let mut args: Vec<OsString> = vec![];
    if f[1] == "nonutf8" { use std::os::unix::ffi::OsStringExt; args.push(OsString::from_vec(b"--codec=huf\xffman".to_vec())); args.push("in/a.png".into()) }
    else { for a in f[2].split('\u{1}') { if !a.is_empty() || f[1] == "empty" { args.push(a.into()) } } }
    let s = Scratch::new("c15");
    std::fs::create_dir_all(s.path().join("output")).unwrap();
    std::fs::create_dir_all(s.path().join("in")).unwrap();
    let img = imgs::Spec::new(7, 5, "pal", 3, 5, "rgb8").build();
    img.save(s.path().join("in/a.png")).unwrap();
    for n in ["Hufman.csv", "delta.csv", "zip-dict.csv", "a.png", "note.txt", "a.rect.hilbert.csv", "voronoi_0.csv", "cluster-colors_0.csv"] { std::fs::write(s.path().join("output").join(n), b"precious").unwrap() }
    let before = proc::snapshot(s.path());
    let o = proc::run(s.path(), &args, &[], 60);
    if let Some(h) = &o.hang { viol!("hang", "{case:?}: {h}") }
    ensure!(o.signal.is_none(), "signal", "{args:?}: {}", o.how());
    let after = proc::snapshot(s.path());
    if let Some(csv) = f[1].strip_prefix("ok:") {
        ensure!(o.code == Some(0), "wrongly-rejected", "{args:?}: {}", o.how());
        let p = format!("output/{csv}.csv");
        ensure!(after.get(&p).is_some_and(|b| b != b"precious"), "csv-name", "{args:?}: {p} was not written; files: {:?}", after.keys());
        obs.count("runs_accepted", 1);
    } else {
        ensure!(o.code.is_some_and(|c| c != 0), "exit-status", "{args:?}: {}", o.how());
        if before != after {
            let d: Vec<&String> = before.keys().chain(after.keys()).filter(|k| before.get(*k) != after.get(*k)).collect();
            viol!("touched", "{args:?} failed, but changed {d:?}")
        }
        obs.count("runs_rejected", 1);
    }
    obs.eval(true, case.as_bytes());
    obs.sample(format!("cniic {args:?}: exit {:?}", o.code));
    Ok(())
}

struct C;
impl Check for C {
    fn id(&self) -> &'static str { "C15" }
    fn rule(&self) -> String {
        "Texts are judged by an independent grammar (no regular expressions): accepted or rejected as it says, with the name (so: codec and parameter) and lossless flag it says; infinities and NaN are only required not to crash. Texts are all sequences of up to 3 (thorough: 4) of 28 tokens, mutated valid arguments, random Unicode, and very long or very deep texts. The program is run with valid, invalid and missing commands in a scratch directory containing precious outputs: exit status and directory contents are compared. An evaluation is one text or one run; distinct non-empty texts are counted.".into()
    }
    fn cases(&self, ctx: &Ctx) -> Vec<String> {
        let mut v = vec![];
        let mut r = ctx.rng(15);
        // The program
        for a in ["", "--special=", "--special=Hilbert", "--special=hilbert2", "--special", "-special=hilbert", "--codec=", "--codec", "-codec=hufman", "codec=hufman", "hufman", "--codec=foo", "--codec=hufman2", "--codec =hufman", "--codec= hufman", "--codec=zip", "--codec=zip()", "--codec=zip(dict", "--codec=zip(dict,back)",
            "--codec=hilbert", "--codec=hilbert()", "--codec=hilbert(rle())", "--codec=hilbert(rle(x))", "--codec=voronoi(0)", "--codec=cluster-colors(0)", "--codec=voronoi(-1)", "--codec=xvoronoi(3)x", "--codec=voronoi(99999999999999999999)", "--codec=é(é)", "--codec=((((", "--codec=reduce-colors(4)", "--help", "-h", "--version", "in/a.png", "--CODEC=hufman", "--codec==hufman", "--", "--special=voronoi", "--codec=Delta", "--codec=DELTA", "--codec=zip(Dict)", "--codec=../../x", "--codec=delta\n", "--codec=voronoi(٣)", "--Special=hilbert"] {
            v.push(format!("cli|bad|{a}"));
            v.push(format!("cli|bad|{a}\u{1}in/a.png"));
            if !a.is_empty() { v.push(format!("cli|bad|{a}\u{1}--codec=hufman\u{1}in/a.png")) }
        }
        v.push("cli|empty|".into());
        v.push("cli|empty|\u{1}in/a.png".into());
        v.push("cli|nonutf8|".into());
        for (c, n) in [("hufman", "Hufman"), ("HUFMAN", "Hufman"), ("delta", "delta"), ("zip(dict)", "zip-dict"), ("zip(back)", "zip-back"), ("hilbert(rle)", "hilbert-rle"), ("Hilbert(zip)", "hilbert-zip"), ("hilbert(rle(2.50))", "hilbert-rle-approx_2.5"), ("hilbert(rle(-0))", "hilbert-rle"), ("c-col(007)", "cluster-colors_7"), ("clustercolors(2)", "cluster-colors_2"), ("voronoi(3)", "voronoi_3"), ("voronoi(18446744073709551615)", "voronoi_18446744073709551615")] {
            v.push(format!("cli|ok:{n}|--codec={c}\u{1}in/a.png"));
            v.push(format!("cli|ok:{n}|--codec={c}"));
        }
        v.push("cli|ok:a.rect.hilbert|--special=hilbert\u{1}in/a.png".into());
        for i in 0..22 { v.push(format!("huge|{i}")) }
        // All short token sequences
        let t = TOKENS.len();
        let n = (1..=ctx.n(3, 4)).map(|l| t.pow(l as u32)).sum::<usize>() + 1;
        let mut i = 0;
        while i < n { v.push(format!("enum|{i}|{}", (i + 2000).min(n))); i += 2000 }
        for _ in 0..ctx.n(160, 3000) { v.push(format!("mut|{}", r.next() >> 12)) }
        for _ in 0..ctx.n(40, 800) { v.push(format!("rand|{}", r.next() >> 12)) }
        v
    }
    fn run(&self, case: &str, obs: &mut Obs) -> R {
        let f: Vec<&str> = case.split('|').collect();
        match f[0] {
            "cli" => return cli(case, obs),
            "huge" => { let s = huge(f[1].parse().unwrap()); judge(&s, obs)?; obs.max("longest_text", s.len() as f64) }
            "enum" => for i in f[1].parse::<usize>().unwrap()..f[2].parse().unwrap() {
                let (mut k, mut l, mut s) = (i, 0, String::new());
                while k >= TOKENS.len().pow(l) { k -= TOKENS.len().pow(l); l += 1 }
                for _ in 0..l { s.push_str(TOKENS[k % TOKENS.len()]); k /= TOKENS.len() }
                judge(&s, obs)?;
                obs.sample(format!("{s:?}: {:?}", denotes(&s)));
            },
            "mut" => {
                let mut r = Rng::new(f[1].parse().unwrap());
                for _ in 0..200 { let s = valid(&mut r); judge(&s, obs)?; let m = mutate(&s, &mut r); judge(&m, obs)?; obs.sample(format!("{m:?}: {:?}", denotes(&m))) }
            }
            "rand" => { let mut r = Rng::new(f[1].parse().unwrap()); for _ in 0..200 { judge(&random(&mut r), obs)? } }
            k => panic!("unknown case {k}"),
        }
        Ok(())
    }
    fn finish(&self, _ctx: &Ctx, t: &Totals) -> R {
        ensure!(t.c("accepted") > 5000 && t.c("rejected") > 20_000, "HARNESS", "too few texts: {:?}", t.counts);
        Ok(())
    }
}
fn main() { cniic_mon::run::main_for(&C) }
