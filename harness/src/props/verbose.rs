//! C23: the verbose dump shows exactly the samples and changes nothing.
use super::common::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::series::*;
use crate::sim::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Serialize, Deserialize)]
pub struct C23Case {
    /// One file each; more than one: all in a directory given to one command
    pub series: Vec<Series>,
    pub opts: Opts,
    pub csv: bool,
    pub header: bool,
    /// --verbose before or behind the other arguments
    pub first: bool,
    pub plan: Plan,
    pub back: Plan,
}
pub struct C23;

/// The samples of every dump in what a command printed
fn dumps(out: &[u8], key: &str) -> Option<Vec<Vec<f64>>> {
    let s = String::from_utf8(out.to_vec()).ok()?;
    let mut v = vec![];
    let mut rest = s.as_str();
    while let Some(i) = rest.find(key) {
        rest = &rest[i + key.len()..];
        let open = rest.find('[')?;
        let close = rest.find(']')?;
        if open > close {
            return None;
        }
        let inner = &rest[open + 1..close];
        v.push(inner.split(',').map(|x| x.trim()).filter(|x| !x.is_empty()).map(|x| x.parse::<f64>().ok()).collect::<Option<Vec<_>>>()?);
        rest = &rest[close + 1..];
    }
    Some(v)
}
fn key(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| if x.is_nan() { f64::NAN.to_bits() } else { x.to_bits() }).collect()
}
fn same_dumps(mut a: Vec<Vec<u64>>, mut b: Vec<Vec<u64>>) -> bool {
    a.sort();
    b.sort();
    a == b
}

impl Prop for C23 {
    type Case = C23Case;
    const ID: &'static str = "C23";
    const RUNS: (u64, u64) = (18_000, 800_000);
    const RULE: &'static str = "One file or a directory of several is compressed and decompressed with and without --verbose under seeded split and interrupted transfers, directory orders, clocks and environments; the files written have to be the same, and the printed dumps have to parse to exactly the samples read (compressing) and written (decompressing).";
    const REAL: &'static str = "atsc command-line tool with wavbrro and all compressors, run as processes";
    fn gen(r: &mut Rng, _thorough: bool) -> C23Case {
        let opts = Opts::gen(r);
        let n = if r.chance(1, 4) { r.range(2, 4) } else { 1 };
        let mut size = 0;
        let csv = r.chance(1, 4);
        let series = (0..n)
            .map(|_| {
                let mut s = small_series(r, if opts.compressor == "idw" { 150 } else { *r.clone().pick(&[3usize, 60, 700, 3000]) }).0;
                if r.chance(1, 6) {
                    sprinkle_nonfinite(r, &mut s);
                }
                size += s.len() * 8;
                Series(s)
            })
            .collect();
        C23Case { series, opts, csv, header: r.chance(1, 2), first: r.chance(1, 2), plan: benign_plan(r, size), back: benign_plan(r, size) }
    }
    fn run(w: &mut World, c: &C23Case) -> Res {
        let many = c.series.len() > 1;
        let dir = if many { "d/" } else { "" };
        let names: Vec<String> = (0..c.series.len()).map(|i| format!("{dir}s{i}")).collect();
        let start = |w: &mut World| {
            w.reset(&Disk::new());
            for (n, s) in names.iter().zip(&c.series) {
                if c.csv {
                    let mut t = String::from(if c.header { "time,value\n" } else { "" });
                    for (i, x) in s.0.iter().enumerate() {
                        t.push_str(&if c.header { format!("{i},{x:e}\n") } else { format!("{x:e}\n") });
                    }
                    w.put(&format!("{n}.csv"), t.as_bytes());
                } else {
                    put_wbro(w, &format!("{n}.wbro"), &s.0);
                }
            }
        };
        let mut a = c.opts.args();
        if c.csv {
            a.push("--csv".into());
            if !c.header {
                a.push("--no-header".into());
            }
        }
        let verbose = |a: &[String]| {
            let mut a = a.to_vec();
            a.insert(if c.first { 0 } else { a.len() }, "--verbose".into());
            a
        };
        let target = if many { "@d".to_string() } else { format!("@s0.{}", if c.csv { "csv" } else { "wbro" }) };
        // compress
        start(w);
        let x = w.exec(&cmd(Tool::Atsc, &[&a], &target), &Plan::default());
        inconclusive_if_timeout(&x)?;
        let plain = w.snapshot();
        start(w);
        let (y, out) = w.exec_out(&cmd(Tool::Atsc, &[&verbose(&a)], &target), &c.plan);
        inconclusive_if_timeout(&y)?;
        if x.ok() != y.ok() {
            return bad("verbose-status", format!("compressing gives {x:?}, with --verbose {y:?}"));
        }
        if let Some(d) = diff_disks(&plain, &w.snapshot()) {
            return bad("verbose-changes", format!("compressing with --verbose leaves other files: {d}"));
        }
        if !x.ok() {
            return Ok(());
        }
        let want: Vec<Vec<u64>> = c.series.iter().map(|s| key(&s.0)).collect();
        match dumps(&out, "Input=") {
            Some(v) if same_dumps(v.iter().map(|v| key(v)).collect(), want.clone()) => {}
            v => return bad("input-dump", format!("{} series of {:?} samples are shown as {:?}", want.len(), want.iter().map(|s| s.len()).collect::<Vec<_>>(), v.map(|v| v.iter().map(|s| s.len()).collect::<Vec<_>>()))),
        }
        // decompress
        let bros: Disk = w.snapshot().into_iter().filter(|(n, _)| n.ends_with(".bro")).collect();
        let target = if many { "@d" } else { "@s0.bro" };
        let u = strs(&["-u"]);
        w.reset(&bros);
        let x = w.exec(&cmd(Tool::Atsc, &[&u], target), &Plan::default());
        inconclusive_if_timeout(&x)?;
        let plain = w.snapshot();
        let mut want: Vec<Vec<u64>> = vec![];
        for n in &names {
            want.push(key(&get_wbro(w, &format!("{n}.wbro")).unwrap_or_default()));
        }
        w.reset(&bros);
        let (y, out) = w.exec_out(&cmd(Tool::Atsc, &[&verbose(&u)], target), &c.back);
        inconclusive_if_timeout(&y)?;
        if x.ok() != y.ok() {
            return bad("verbose-status", format!("decompressing gives {x:?}, with --verbose {y:?}"));
        }
        if let Some(d) = diff_disks(&plain, &w.snapshot()) {
            return bad("verbose-changes", format!("decompressing with --verbose leaves other files: {d}"));
        }
        if !x.ok() {
            return Ok(());
        }
        match dumps(&out, "Output=") {
            Some(v) if same_dumps(v.iter().map(|v| key(v)).collect(), want.clone()) => Ok(()),
            v => bad("output-dump", format!("{} files of {:?} samples are shown as {:?}", want.len(), want.iter().map(|s| s.len()).collect::<Vec<_>>(), v.map(|v| v.iter().map(|s| s.len()).collect::<Vec<_>>()))),
        }
    }
    fn shrink(c: &C23Case) -> Vec<C23Case> {
        let mut out = vec![];
        for i in 0..c.series.len() {
            if c.series.len() > 1 {
                let mut d = c.clone();
                d.series.remove(i);
                out.push(d);
            }
            for s in shrink_series(&c.series[i].0, 0) {
                let mut d = c.clone();
                d.series[i] = Series(s);
                out.push(d);
            }
        }
        for o in c.opts.shrink() {
            out.push(C23Case { opts: o, ..c.clone() });
        }
        if c.csv {
            out.push(C23Case { csv: false, ..c.clone() });
        }
        if c.first {
            out.push(C23Case { first: false, ..c.clone() });
        }
        for p in shrink_plan(&c.plan) {
            out.push(C23Case { plan: p, ..c.clone() });
        }
        for p in shrink_plan(&c.back) {
            out.push(C23Case { back: p, ..c.clone() });
        }
        out
    }
    fn label(c: &C23Case) -> String {
        format!("{}/{}/{}/{}/{}", c.series.len(), c.opts.compressor, c.csv, c.header, c.series[0].0.len())
    }
}
