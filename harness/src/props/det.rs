//! C05: the same samples and options give the same bytes, whatever the environment does.
use super::common::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::series::*;
use crate::sim::*;
use serde::{Deserialize, Serialize};

/// One way in which the same command may meet the world
#[derive(Clone, PartialEq, Serialize, Deserialize)]
pub struct Variant {
    pub plan: Plan,
    /// Name of the input without directory
    pub name: String,
    /// Sub-directory the file lives in, if any
    pub dir: String,
    pub abs: bool,
    /// What the output file held before
    pub stale: Option<Stale>,
    /// Another series in the same directory; the whole directory is processed by one command
    pub earlier: Option<Series>,
    /// Before, the same command was given other data of the same size under the same name, on another day:
    /// only what is outside of the directories worked in has survived
    #[serde(default)]
    pub before: Option<u8>,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct DetCase {
    pub series: Series,
    pub style: String,
    pub opts: Opts,
    pub csv: bool,
    pub variants: Vec<Variant>,
    pub back: Vec<Variant>,
}

pub struct C05;

fn gen_variant(r: &mut Rng, n: usize, ext: &str, dirs: bool) -> Variant {
    let stem = *r.pick(&["s", "a", "zz9", "x.y", "UPPER", "sp ace", "m\u{e9}trique", "s.bro.d", "0"]);
    let e = if r.chance(1, 4) { *r.pick(&["dat", "", "WBRO", "x"]) } else { ext };
    let earlier = if dirs && r.chance(1, 3) { Some(Series(small_series(r, 700).0)) } else { None };
    Variant {
        plan: benign_plan(r, n * 8),
        name: if e.is_empty() { stem.replace('.', "_") } else { format!("{stem}.{e}") },
        dir: if earlier.is_some() || r.chance(1, 3) { "sub dir/".into() } else { String::new() },
        abs: r.chance(1, 3),
        stale: if r.chance(1, 3) { Some(Stale::gen(r, 4000)) } else { None },
        earlier,
        before: if r.chance(1, 3) { Some(r.below(4) as u8) } else { None },
    }
}

fn with_ext(name: &str, ext: &str) -> String {
    std::path::Path::new(name).with_extension(ext).to_str().unwrap().to_string()
}

/// Runs the command once in the given circumstances and returns what it wrote
fn produce(w: &mut World, c: &DetCase, v: &Variant, decompress: Option<&[u8]>, want: Option<&[u8]>) -> Result<Option<Vec<u8>>, Verdict> {
    if let Some(k) = v.before {
        let other: Vec<f64> = match k {
            0 => c.series.0.iter().rev().copied().collect(),
            1 => c.series.0.iter().map(|x| -x).collect(),
            2 => c.series.0.iter().map(|x| x + 1.0).collect(),
            _ => c.series.0.iter().map(|x| (x / 2.0).round()).collect(),
        };
        let o = DetCase { series: Series(other), variants: vec![], back: vec![], ..c.clone() };
        let u = Variant { before: None, earlier: None, stale: None, ..v.clone() };
        if decompress.is_none() {
            produce(w, &o, &u, None, None)?;
        } else if let Some(b) = produce(w, &o, &base(if c.csv { "csv" } else { "wbro" }), None, None)? {
            produce(w, &o, &u, Some(&b), None)?;
        }
    }
    w.reset(&Disk::new());
    let out_ext = if decompress.is_some() { "wbro" } else { "bro" };
    let input = format!("{}{}", v.dir, v.name);
    let output = with_ext(&input, out_ext);
    if let Some(b) = &v.stale {
        w.put(&output, &b.of(want));
    }
    let write = |w: &mut World, name: &str, s: &[f64]| {
        if c.csv {
            let t: String = std::iter::once("time,value\n".to_string()).chain(s.iter().enumerate().map(|(i, x)| format!("{i},{x:e}\n"))).collect();
            w.put(name, t.as_bytes());
        } else {
            put_wbro(w, name, s);
        }
    };
    match decompress {
        Some(b) => w.put(&input, b),
        None => write(w, &input, &c.series.0),
    }
    let mut target = format!("@{input}");
    if let Some(s) = &v.earlier {
        if decompress.is_none() {
            write(w, &format!("{}other.q", v.dir), &s.0);
        } else {
            // an independently compressed companion
            put_wbro(w, "tmp.wbro", &s.0);
            let x = w.exec(&cmd(Tool::Atsc, &[&c.opts.args()], "@tmp.wbro"), &Plan::default());
            let b = w.get("tmp.bro");
            let _ = std::fs::remove_file(w.path("tmp.bro"));
            if let (true, Some(b)) = (x.ok(), b) {
                w.put(&format!("{}other.q", v.dir), &b);
            }
        }
        target = format!("@{}", v.dir.trim_end_matches('/'));
        // a stale output would be an entry of the directory
        let _ = std::fs::remove_file(w.path(&output));
    }
    let mut k = match decompress {
        Some(_) => cmd(Tool::Atsc, &[&strs(&["-u"])], &target),
        None => {
            let mut a = c.opts.args();
            if c.csv {
                a.push("--csv".into());
            }
            cmd(Tool::Atsc, &[&a], &target)
        }
    };
    k.abs = v.abs;
    let x = attempt(w, &k, &v.plan);
    must_end(&x)?;
    if !x.ok() {
        return Ok(None);
    }
    Ok(w.get(&output))
}

fn base(ext: &str) -> Variant {
    Variant { plan: Plan::default(), name: format!("s.{ext}"), dir: String::new(), abs: false, stale: None, earlier: None, before: None }
}

fn what(a: &Option<Vec<u8>>, b: &Option<Vec<u8>>) -> String {
    match (a, b) {
        (Some(a), Some(b)) => format!("{} bytes, then {} bytes, first difference at {}", a.len(), b.len(), a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()))),
        (Some(_), None) => "the second execution failed".into(),
        _ => "the first execution failed".into(),
    }
}

impl Prop for C05 {
    type Case = DetCase;
    const ID: &'static str = "C05";
    const RUNS: (u64, u64) = (25_000, 600_000);
    const RULE: &'static str = "One series compressed by a plain process and again in 2-3 other environments (random source, clock, transfer splits, interruptions, name, directory, absolute path, left-over output, other work earlier in the process or under the same name by an earlier process); the bytes must agree, and so must those of decompressing.";
    const REAL: &'static str = "atsc command-line tool with wavbrro and all compressors, run as processes";
    fn gen(r: &mut Rng, thorough: bool) -> DetCase {
        let opts = Opts::gen(r);
        let cfg = LenCfg { max: if opts.compressor == "idw" { 600 } else { 270_000 }, huge: 4, allow_empty: true };
        let (mut s, style) = gen_series(r, &cfg);
        if r.chance(1, 10) {
            sprinkle_nonfinite(r, &mut s);
        }
        let csv = s.len() < 3000 && r.chance(1, 8);
        let n = s.len();
        let k = if thorough { 4 } else { 2 };
        DetCase {
            variants: (0..r.range(1, k)).map(|_| gen_variant(r, n, if csv { "csv" } else { "wbro" }, true)).collect(),
            back: (0..r.range(1, 2)).map(|_| gen_variant(r, n, "bro", true)).collect(),
            series: Series(s),
            style,
            opts,
            csv,
        }
    }
    fn run(w: &mut World, c: &DetCase) -> Res {
        let first = produce(w, c, &base(if c.csv { "csv" } else { "wbro" }), None, None)?;
        for v in &c.variants {
            // the companion of a directory run is compressed too, and is fine as an input
            let other = produce(w, c, v, None, first.as_deref())?;
            if first != other {
                return bad("compress-differs", format!("compressing {} samples ({}, -e {}, level {}): {}", c.series.0.len(), c.opts.compressor, c.opts.error, c.opts.level, what(&first, &other)));
            }
        }
        let bro = match first {
            Some(b) => b,
            None => return Ok(()),
        };
        let plain = produce(w, c, &base("bro"), Some(&bro), None)?;
        for v in &c.back {
            let other = produce(w, c, v, Some(&bro), plain.as_deref())?;
            if plain != other {
                return bad("decompress-differs", format!("decompressing {} samples ({}): {}", c.series.0.len(), c.opts.compressor, what(&plain, &other)));
            }
        }
        Ok(())
    }
    fn shrink(c: &DetCase) -> Vec<DetCase> {
        let mut out = vec![];
        for i in 0..c.variants.len() {
            let mut d = c.clone();
            d.variants.remove(i);
            out.push(d);
        }
        for i in 0..c.back.len() {
            let mut d = c.clone();
            d.back.remove(i);
            out.push(d);
        }
        if c.csv {
            out.push(DetCase { csv: false, ..c.clone() });
        }
        for o in c.opts.shrink() {
            out.push(DetCase { opts: o, ..c.clone() });
        }
        for s in shrink_series(&c.series.0, 0) {
            out.push(DetCase { series: Series(s), ..c.clone() });
        }
        let b = [base(if c.csv { "csv" } else { "wbro" }), base("bro")];
        for (which, b) in [0usize, 1].iter().zip(&b) {
            let list = if *which == 0 { &c.variants } else { &c.back };
            for i in 0..list.len() {
                let v = &list[i];
                let mut put = |v: Variant| {
                    let mut d = c.clone();
                    (if *which == 0 { &mut d.variants } else { &mut d.back })[i] = v;
                    out.push(d);
                };
                put(Variant { plan: v.plan.clone(), ..b.clone() });
                put(Variant { name: b.name.clone(), ..v.clone() });
                put(Variant { earlier: None, ..v.clone() });
                put(Variant { before: None, ..v.clone() });
                put(Variant { stale: None, ..v.clone() });
                put(Variant { abs: false, ..v.clone() });
                for p in shrink_plan(&v.plan) {
                    put(Variant { plan: p, ..v.clone() });
                }
            }
        }
        out
    }
    fn label(c: &DetCase) -> String {
        format!("{}/{}/{}/{}/{}/{}", c.style, c.opts.compressor, c.opts.error, c.opts.level, c.csv, c.series.0.len())
    }
}
