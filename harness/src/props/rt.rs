//! C01-C04: what comes back after compressing and decompressing with the real command-line tool.
use super::common::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::series::*;
use crate::sim::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Serialize, Deserialize)]
pub struct RtCase {
    pub series: Series,
    pub style: String,
    pub compressor: String,
    pub error: u8,
    pub level: u8,
    pub csv: bool,
    pub abs: bool,
    /// Attempts that are killed or fail before the compression that counts
    pub before: Vec<Plan>,
    pub plan_c: Plan,
    pub plan_d: Plan,
}

/// Ok(None): the compression itself did not succeed
pub fn roundtrip(w: &mut World, c: &RtCase, compress_ends: bool) -> Result<Option<Vec<f64>>, Verdict> {
    let ends = if compress_ends { must_end } else { inconclusive_if_timeout };
    let input = if c.csv { "s.csv" } else { "s.wbro" };
    if c.csv {
        let mut t = String::from("time,value\n");
        for (i, x) in c.series.0.iter().enumerate() {
            t.push_str(&format!("{},{:e}\n", i, x));
        }
        w.put(input, t.as_bytes());
    } else {
        put_wbro(w, input, &c.series.0);
    }
    let (e, l) = (c.error.to_string(), c.level.to_string());
    let inp = format!("@{input}");
    let mut a = vec!["--compressor", &c.compressor, "-e", &e, "-c", &l];
    if c.csv {
        a.push("--csv");
    }
    a.push(&inp);
    let mut cmd = Cmd::new(Tool::Atsc, &a);
    cmd.abs = c.abs;
    for p in &c.before {
        let x = attempt(w, &cmd, p);
        ends(&x)?;
    }
    let x = attempt(w, &cmd, &c.plan_c);
    ends(&x)?;
    if !x.ok() {
        return Ok(None);
    }
    if std::fs::rename(w.path("s.bro"), w.path("o.bro")).is_err() {
        return bad("no-output", "compression succeeded without producing its output file");
    }
    let mut cmd = Cmd::new(Tool::Atsc, &["-u", "@o.bro"]);
    cmd.abs = c.abs;
    let x = attempt(w, &cmd, &c.plan_d);
    must_end(&x)?;
    if !x.ok() {
        return bad("decompress-fails", format!("decompressing a successfully compressed series of {} samples ({}, -e {}) ended with {:?}", c.series.0.len(), c.compressor, c.error, x));
    }
    match get_wbro(w, "o.wbro") {
        Some(v) => {
            w.note(v.len() as u64);
            Ok(Some(v))
        }
        None => bad("output-unreadable", "the decompressed WBRO file cannot be read"),
    }
}

fn gen_plans(r: &mut Rng, n: usize) -> (Vec<Plan>, Plan, Plan) {
    let mut before = vec![];
    if n < 3000 && r.chance(1, 8) {
        for _ in 0..r.range(1, 2) {
            let mut p = benign_plan(r, n * 8);
            p.faults.push(hard_fault(r, true, true));
            before.push(p);
        }
    }
    let mut c = benign_plan(r, n * 8);
    let mut d = benign_plan(r, n * 8);
    if n < 3000 && r.chance(1, 4) {
        c.faults.push(soft_fault(r));
        d.faults.push(soft_fault(r));
    }
    (before, c, d)
}

fn shrink_rt(c: &RtCase) -> Vec<RtCase> {
    let mut out = vec![];
    let d = Plan::default();
    if !c.before.is_empty() {
        out.push(RtCase { before: vec![], ..c.clone() });
    }
    if c.plan_c != d || c.plan_d != d {
        out.push(RtCase { plan_c: d.clone(), plan_d: d.clone(), ..c.clone() });
        out.push(RtCase { plan_c: d.clone(), ..c.clone() });
        out.push(RtCase { plan_d: d.clone(), ..c.clone() });
    }
    if c.csv {
        out.push(RtCase { csv: false, ..c.clone() });
    }
    if c.abs {
        out.push(RtCase { abs: false, ..c.clone() });
    }
    if c.level != 0 {
        out.push(RtCase { level: 0, ..c.clone() });
    }
    for s in shrink_series(&c.series.0, 0) {
        out.push(RtCase { series: Series(s), ..c.clone() });
    }
    for p in shrink_plan(&c.plan_c) {
        out.push(RtCase { plan_c: p, ..c.clone() });
    }
    for p in shrink_plan(&c.plan_d) {
        out.push(RtCase { plan_d: p, ..c.clone() });
    }
    out
}

fn label(c: &RtCase) -> String {
    format!("{}/{}/{}/{}/{}/{}", c.style, c.compressor, c.error, c.level, c.csv, c.series.0.len())
}

fn base_case(r: &mut Rng, series: Vec<f64>, style: String) -> RtCase {
    let n = series.len();
    let (before, plan_c, plan_d) = gen_plans(r, n);
    RtCase {
        csv: n < 3000 && r.chance(1, 8),
        abs: r.chance(1, 3),
        series: Series(series),
        style,
        compressor: "auto".into(),
        error: 0,
        level: 0,
        before,
        plan_c,
        plan_d,
    }
}

fn tol(e: u8) -> f64 {
    e as f64 / 100.0 * (1.0 + 1e-6) + 1e-12
}

fn check_bound(c: &RtCase, out: &[f64]) -> Res {
    let fin = finite(&c.series.0);
    if fin.len() != out.len() {
        return bad("count", format!("{} finite samples in, {} out", fin.len(), out.len()));
    }
    let e = mean_rel_error(&fin, out);
    if !(e <= tol(c.error)) {
        return bad(
            "error-bound",
            format!("mean relative error {:.6}% exceeds {}% ({} samples, {}, level {}): {}", e * 100.0, c.error, fin.len(), c.compressor, c.level, first_diff(&fin, out)),
        );
    }
    Ok(())
}

const REAL: &str = "atsc command-line tool (release build, unmodified) with wavbrro and all compressors, run as processes";

// ---------------------------------------------------------------- C01
pub struct C01;
impl Prop for C01 {
    type Case = RtCase;
    const ID: &'static str = "C01";
    const RUNS: (u64, u64) = (34_000, 2_000_000);
    const RULE: &'static str = "Series of 30 shapes with lengths on frame, padding and sampling boundaries, random error level and sampling level, automatic selection; compressed and decompressed by simulated processes under split, interrupted and previously crashed I/O.";
    const REAL: &'static str = REAL;
    fn gen(r: &mut Rng, thorough: bool) -> RtCase {
        let cfg = LenCfg { max: 270_000, huge: if thorough { 10 } else { 8 }, allow_empty: true };
        let (mut s, style) = gen_series(r, &cfg);
        if r.chance(1, 12) {
            sprinkle_nonfinite(r, &mut s);
        }
        let mut c = base_case(r, s, style);
        c.error = gen_error(r);
        let n = c.series.0.len();
        c.level = match r.below(5) {
            0 => 0,
            1 => 6,
            2 => {
                // a sample barely shorter than the series
                match n {
                    0..=127 => 6,
                    128..=255 => 6,
                    256..=511 => 5,
                    512..=1023 => 4,
                    1024..=2047 => 3,
                    2048..=4095 => 2,
                    _ => 1,
                }
            }
            _ => r.range(0, 6) as u8,
        };
        c
    }
    fn run(w: &mut World, c: &RtCase) -> Res {
        match roundtrip(w, c, false)? {
            None => Ok(()),
            Some(out) => check_bound(c, &out),
        }
    }
    fn shrink(c: &RtCase) -> Vec<RtCase> {
        shrink_rt(c)
    }
    fn label(c: &RtCase) -> String {
        label(c)
    }
}

// ---------------------------------------------------------------- C02
pub struct C02;
impl Prop for C02 {
    type Case = RtCase;
    const ID: &'static str = "C02";
    const RUNS: (u64, u64) = (32_000, 2_000_000);
    const RULE: &'static str = "As C01 in the lossless modes: error 0 with auto, polynomial or idw; rle at any error; noop on integers; constant on constant series.";
    const REAL: &'static str = REAL;
    fn gen(r: &mut Rng, thorough: bool) -> RtCase {
        let mode = *r.pick(&["auto", "auto", "auto", "polynomial", "idw", "rle", "rle", "noop", "constant"]);
        let cfg = LenCfg {
            max: if mode == "idw" { 4200 } else { 270_000 },
            huge: if mode == "idw" { 0 } else if thorough { 10 } else { 8 },
            allow_empty: true,
        };
        let (mut s, mut style) = gen_series(r, &cfg);
        if matches!(mode, "noop" | "constant") && r.chance(1, 50) {
            // megabytes in one file
            let n = r.range(270_000, 1_300_000) as usize;
            s = series_of(r, n);
            style = "long".into();
        }
        match mode {
            "noop" => {
                for x in s.iter_mut() {
                    *x = x.round().clamp(-9007199254740992.0, 9007199254740992.0);
                }
            }
            "constant" => {
                let x = if s.is_empty() { 1.0 } else { s[r.usize(s.len())] };
                s.iter_mut().for_each(|y| *y = x);
                style = "const".into();
            }
            _ => {}
        }
        if r.chance(1, 12) {
            sprinkle_nonfinite(r, &mut s);
        }
        let mut c = base_case(r, s, style);
        c.compressor = mode.into();
        c.error = if matches!(mode, "auto" | "polynomial" | "idw") { 0 } else { gen_error(r) };
        c.level = if mode == "auto" { r.range(0, 6) as u8 } else { 0 };
        c
    }
    fn run(w: &mut World, c: &RtCase) -> Res {
        let out = match roundtrip(w, c, true)? {
            None => return bad("compress-fails", "compression in a lossless mode failed without any hard fault"),
            Some(o) => o,
        };
        let fin = finite(&c.series.0);
        if fin.len() != out.len() {
            return bad("count", format!("{} finite samples in, {} out", fin.len(), out.len()));
        }
        if fin.iter().zip(&out).any(|(a, b)| a != b) {
            return bad("not-exact", format!("{} -e {} (level {}): {}", c.compressor, c.error, c.level, first_diff(&fin, &out)));
        }
        Ok(())
    }
    fn shrink(c: &RtCase) -> Vec<RtCase> {
        let int = c.compressor == "noop";
        let cons = c.compressor == "constant";
        shrink_rt(c)
            .into_iter()
            .filter(|x| {
                let f = finite(&x.series.0);
                (!int || f.iter().all(|v| v.fract() == 0.0 && v.abs() <= 9007199254740992.0)) && (!cons || f.windows(2).all(|p| p[0] == p[1]))
            })
            .collect()
    }
    fn label(c: &RtCase) -> String {
        label(c)
    }
}

// ---------------------------------------------------------------- C03
pub struct C03;
impl Prop for C03 {
    type Case = RtCase;
    const ID: &'static str = "C03";
    const RUNS: (u64, u64) = (25_000, 2_000_000);
    const RULE: &'static str = "As C01 with the polynomial or inverse-distance compressor forced.";
    const REAL: &'static str = REAL;
    fn gen(r: &mut Rng, thorough: bool) -> RtCase {
        let mode = *r.pick(&["polynomial", "polynomial", "polynomial", "idw", "idw"]);
        let cfg = LenCfg {
            max: if mode == "idw" { 4200 } else { 270_000 },
            huge: if mode == "idw" { 0 } else if thorough { 10 } else { 8 },
            allow_empty: true,
        };
        let (mut s, style) = gen_series(r, &cfg);
        if r.chance(1, 12) {
            sprinkle_nonfinite(r, &mut s);
        }
        let mut c = base_case(r, s, style);
        c.compressor = mode.into();
        c.error = gen_error(r);
        c.level = if r.chance(1, 4) { r.range(0, 6) as u8 } else { 0 };
        c
    }
    fn run(w: &mut World, c: &RtCase) -> Res {
        let out = match roundtrip(w, c, false)? {
            None => return Ok(()),
            Some(o) => o,
        };
        check_bound(c, &out)?;
        let fin = finite(&c.series.0);
        let (lo, hi) = minmax(&fin);
        if let Some(i) = out.iter().position(|x| !(*x >= lo && *x <= hi)) {
            return bad("range", format!("sample {i} came back as {:e}, outside [{lo:e}, {hi:e}]", out[i]));
        }
        Ok(())
    }
    fn shrink(c: &RtCase) -> Vec<RtCase> {
        shrink_rt(c)
    }
    fn label(c: &RtCase) -> String {
        label(c)
    }
}

// ---------------------------------------------------------------- C04
pub struct C04;
impl Prop for C04 {
    type Case = RtCase;
    const ID: &'static str = "C04";
    const RUNS: (u64, u64) = (32_000, 2_000_000);
    const RULE: &'static str = "As C01 with every compressor, error level and sampling level, including empty and all-NaN series.";
    const REAL: &'static str = REAL;
    fn gen(r: &mut Rng, thorough: bool) -> RtCase {
        let mode = *r.pick(&COMPRESSORS);
        let cfg = LenCfg {
            max: if mode == "idw" { 4200 } else { 300_000 },
            huge: if mode == "idw" { 0 } else if thorough { 12 } else { 10 },
            allow_empty: true,
        };
        let (mut s, style) = gen_series(r, &cfg);
        if mode == "fft" {
            s.iter_mut().for_each(|x| *x = x.clamp(-1e30, 1e30));
        }
        if mode == "noop" {
            s.iter_mut().for_each(|x| *x = x.clamp(-9007199254740992.0, 9007199254740992.0));
        }
        if matches!(mode, "rle" | "constant" | "noop") && s.len() > 131_000 && r.chance(1, 2) {
            let t = s.clone();
            s.extend(t);
        }
        if r.chance(1, 6) {
            sprinkle_nonfinite(r, &mut s);
        }
        if r.chance(1, 60) {
            s.iter_mut().for_each(|x| *x = f64::NAN);
        }
        let mut c = base_case(r, s, style);
        c.compressor = mode.into();
        c.error = gen_error(r);
        c.level = r.range(0, 6) as u8;
        c
    }
    fn run(w: &mut World, c: &RtCase) -> Res {
        let out = match roundtrip(w, c, true)? {
            None => return bad("compress-fails", format!("compressing a series of {} samples with {} failed without any hard fault", c.series.0.len(), c.compressor)),
            Some(o) => o,
        };
        let fin = finite(&c.series.0);
        if fin.len() != out.len() {
            return bad("count", format!("{} finite samples in, {} out ({})", fin.len(), out.len(), c.compressor));
        }
        let (lo, hi) = minmax(&fin);
        for (i, (a, b)) in fin.iter().zip(&out).enumerate() {
            let ok = match c.compressor.as_str() {
                "rle" => a == b,
                "noop" => *b == b.trunc() && (a - b).abs() <= 0.5,
                "constant" => *b <= *a && *b >= lo && (fin.len() > 512 || *b == lo),
                "polynomial" | "idw" => *b >= lo && *b <= hi,
                _ => {
                    let f = |x: f64| x.abs() * 1.3e-7 + 1.2e-38;
                    b.is_finite() && *b >= lo - f(lo) && *b <= hi + f(hi)
                }
            };
            if !ok {
                return bad("range", format!("{} turned sample {i} of {} from {a:e} into {b:e} (series range [{lo:e}, {hi:e}])", c.compressor, fin.len()));
            }
        }
        Ok(())
    }
    fn shrink(c: &RtCase) -> Vec<RtCase> {
        shrink_rt(c)
            .into_iter()
            .filter(|x| c.compressor != "noop" || finite(&x.series.0).iter().all(|v| v.abs() <= 9007199254740992.0))
            .collect()
    }
    fn label(c: &RtCase) -> String {
        label(c)
    }
}
