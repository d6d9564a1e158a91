//! C14: CSV ingestion by atsc. C15: the CSV archive round trip of csv-compressor.
use super::common::*;
use super::index::{gen_times, Model, Times};
use crate::rng::Rng;
use crate::runner::*;
use crate::series::*;
use crate::sim::*;
use serde::{Deserialize, Serialize};
use vsri::Vsri;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Flaw {
    /// The value cell of this row gets this text
    Value(u32, String),
    /// This row loses its last cells, or gains some
    Ragged(u32, i8),
    NoTimeColumn,
    NoValueColumn,
    /// The header is missing altogether although one is expected
    Empty,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct C14Case {
    pub values: Series,
    pub opts: Opts,
    /// Column names in file order; empty: no header line
    pub columns: Vec<String>,
    pub value_col: u16,
    pub time_col: u16,
    /// Pass --fields even if the names are the default ones
    pub fields: bool,
    /// Formats of values, cycled
    pub formats: Vec<u8>,
    /// Bit 0: quote everything, 1: quote every other row, 2: CRLF, 3: no end of line at the end, 4: odd cells in other columns
    pub style: u8,
    pub width: u16,
    pub flaw: Option<Flaw>,
    pub plan: Plan,
    pub stale: Option<Stale>,
    pub abs: bool,
    pub name: String,
    /// What the missing column is called instead, if that is the flaw
    pub missing: String,
}
pub struct C14;

/// A name that differs a little
fn near_name(r: &mut Rng, n: &str) -> String {
    let up: String = n.chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
    let mut cap = n.to_string();
    if let Some(c) = cap.get_mut(0..1) {
        c.make_ascii_uppercase();
    }
    match r.below(9) {
        0 => up,
        1 => cap,
        2 => format!(" {n}"),
        3 => format!("{n} "),
        4 => format!("{n}s"),
        5 => format!("my {n}"),
        6 => n.chars().skip(1).collect(),
        7 => n.chars().take(n.chars().count() - 1).collect(),
        _ => n.chars().rev().collect(),
    }
}

fn fmt_value(v: f64, f: u8) -> String {
    if v.is_nan() {
        return ["NaN", "nan", "NAN"][f as usize % 3].into();
    }
    if v.is_infinite() {
        let s = ["inf", "infinity", "INF"][f as usize % 3];
        return if v < 0.0 { format!("-{s}") } else { s.into() };
    }
    let big = v.abs() >= 1e25 || (v != 0.0 && v.abs() < 1e-15);
    let t = match f % 7 {
        0 if !big => format!("{v}"),
        1 => format!("{v:e}"),
        2 => format!("{v:?}"),
        3 => format!("{v:E}"),
        4 if !big && v.is_sign_positive() => format!("+{v}"),
        5 if !big && v.fract() == 0.0 => format!("{v}."),
        6 if !big && v.abs() < 1.0 && v != 0.0 => format!("{v}").replacen("0.", ".", 1),
        _ => format!("{v:e}"),
    };
    match t.parse::<f64>() {
        Ok(x) if x.to_bits() == v.to_bits() => t,
        _ => format!("{v:e}"),
    }
}
fn quoted(s: &str, q: bool) -> String {
    if q || s.contains([',', '"', '\n', '\r']) {
        format!("\"{}\"", s.replace('"', "\"\""))
    } else {
        s.to_string()
    }
}

impl C14Case {
    fn table(&self) -> String {
        let eol = if self.style & 4 != 0 { "\r\n" } else { "\n" };
        let header = !self.columns.is_empty();
        let width = if header { self.columns.len() } else { self.width.max(1) as usize };
        let mut lines: Vec<String> = vec![];
        if self.flaw == Some(Flaw::Empty) {
            return String::new();
        }
        if header {
            let mut cols = self.columns.clone();
            match self.flaw {
                Some(Flaw::NoTimeColumn) => cols[self.time_col as usize] = self.missing.clone(),
                Some(Flaw::NoValueColumn) => cols[self.value_col as usize] = self.missing.clone(),
                _ => {}
            }
            lines.push(cols.iter().map(|c| quoted(c, self.style & 1 != 0)).collect::<Vec<_>>().join(","));
        }
        let n = self.values.0.len();
        let at = |f: u32| (n as u64 * f as u64 >> 16) as usize;
        for (i, v) in self.values.0.iter().enumerate() {
            let q = self.style & 1 != 0 || (self.style & 2 != 0 && i % 2 == 0);
            let mut cells: Vec<String> = (0..width)
                .map(|c| {
                    if c == self.value_col as usize {
                        let mut t = fmt_value(*v, self.formats.get(i % self.formats.len().max(1)).copied().unwrap_or(0));
                        if let Some(Flaw::Value(p, x)) = &self.flaw {
                            if at(*p) == i {
                                t = x.clone();
                            }
                        }
                        quoted(&t, q)
                    } else if c == self.time_col as usize && header {
                        quoted(&format!("{}", 1_625_097_600 + i), q)
                    } else if self.style & 16 != 0 {
                        quoted(["a,b", "x", "", "12.5", "say \"hi\"", "two\nlines", "\u{e9}t\u{e9}", " 7 ", "#1", "value", "NaN", "\u{feff}"][(i + c) % 12], q)
                    } else {
                        quoted(&format!("{}", i * 10 + c), q)
                    }
                })
                .collect();
            if let Some(Flaw::Ragged(p, d)) = &self.flaw {
                if at(*p) == i {
                    if *d < 0 && cells.len() > 1 {
                        cells.truncate((cells.len() as i32 + *d as i32).max(1) as usize);
                    } else {
                        (0..d.unsigned_abs().max(1)).for_each(|_| cells.push("1".into()));
                    }
                }
            }
            // a line with nothing on it is no row
            if cells.len() == 1 && cells[0].is_empty() {
                cells[0] = "\"\"".into();
            }
            lines.push(cells.join(","));
        }
        let mut t = lines.join(eol);
        if self.style & 8 == 0 && !lines.is_empty() {
            t.push_str(eol);
        }
        t
    }
    /// The flaw is really there
    fn flawed(&self) -> bool {
        let n = self.values.0.len();
        match &self.flaw {
            None => false,
            Some(Flaw::Value(..)) => n > 0,
            // the width is fixed by the header or by the first row
            Some(Flaw::Ragged(p, _)) => n > 0 && (!self.columns.is_empty() || (n > 1 && (n as u64 * *p as u64 >> 16) > 0) || n > 1),
            Some(_) => !self.columns.is_empty(),
        }
    }
}

impl Prop for C14 {
    type Case = C14Case;
    const ID: &'static str = "C14";
    const RUNS: (u64, u64) = (45_000, 3_000_000);
    const RULE: &'static str = "Random values laid out as a CSV table (column order and names, further columns, quoting, line ends, number formats, with or without header) are compressed under split and interrupted reads and writes and compared with compressing the same values from a WBRO file; tables with an unparsable value, a missing column or a malformed row must fail without changing anything.";
    const REAL: &'static str = "atsc command-line tool run as processes";
    fn gen(r: &mut Rng, _thorough: bool) -> C14Case {
        let opts = Opts::gen(r);
        let max = if opts.compressor == "idw" { 150 } else { *r.pick(&[3, 40, 300, 1500, 4000]) };
        let big = opts.compressor != "idw" && r.chance(1, 300);
        let mut s = small_series(r, max).0;
        if big {
            let cfg = LenCfg { max: 140_000, huge: 500, allow_empty: false };
            s = gen_series(r, &cfg).0;
            s.iter_mut().for_each(|x| *x = x.clamp(-1e30, 1e30));
        }
        if r.chance(1, 10) {
            sprinkle_nonfinite(r, &mut s);
        }
        let header = r.chance(3, 4);
        // now and then a very wide table
        let wide = s.len() <= 40 && r.chance(1, 40);
        let k = if wide { r.range(100, 700) } else { r.range(2, 5) } as usize;
        let mut columns = vec![];
        let (mut tc, mut vc) = (0usize, 0usize);
        let mut fields = false;
        let mut missing = String::new();
        if header {
            let (tn, vn) = *r.pick(&[("time", "value"), ("time", "value"), ("time", "value"), ("timestamp", "reading"), ("t", "v"), ("value", "time"), ("Time", "VALUE"), ("a b", "c d"), ("time", "val\"ue")]);
            fields = (tn, vn) != ("time", "value") || r.chance(1, 3);
            tc = r.usize(k);
            vc = (tc + 1 + r.usize(k - 1)) % k;
            let mut taken = vec![tn.to_string(), vn.to_string()];
            columns = (0..k)
                .map(|c| {
                    if c == tc || c == vc {
                        return if c == tc { tn } else { vn }.to_string();
                    }
                    // never the name of one of the two columns or of another one, but often close to it
                    let n = loop {
                        let n = if wide && c > 9 { format!("c{c}") } else if r.chance(1, 2) { { let of = if r.chance(2, 3) { vn } else { tn }; near_name(r, of) } } else { r.pick(&["x", "valuee", "tim", "", "note, quoted", "1", "#"]).to_string() };
                        if !taken.contains(&n) {
                            break n;
                        }
                    };
                    taken.push(n.clone());
                    n
                })
                .collect();
            missing = near_name(r, vn);
            if missing == tn || missing == vn || columns.contains(&missing) {
                missing = "not there".into();
            }
        }
        let flaw = if r.chance(1, 3) {
            Some(match r.below(8) {
                0..=3 => Flaw::Value(
                    r.below(65536) as u32,
                    r.pick(&["abc", "", "12x", "1.2.3", "--1", "1,5", "0x10", "1e", ".", "-", "1 2", "\u{661}", "NaNN", "1_000", "+-1", "e5", "12\u{0}"]).to_string(),
                ),
                4 | 5 => Flaw::Ragged(r.below(65536) as u32, *r.pick(&[-2i8, -1, 1, 2])),
                6 if header => Flaw::NoTimeColumn,
                7 if header => Flaw::NoValueColumn,
                _ if header && r.chance(1, 2) => Flaw::Empty,
                _ => Flaw::Value(65535, "oops".into()),
            })
        } else {
            None
        };
        C14Case {
            plan: {
                let mut p = benign_plan(r, s.len() * 12);
                if r.chance(1, 4) {
                    p.faults.push(soft_fault(r));
                }
                p
            },
            values: Series(s),
            opts,
            columns,
            value_col: vc as u16,
            time_col: tc as u16,
            fields,
            formats: (0..r.range(1, 5)).map(|_| r.below(7) as u8).collect(),
            style: r.below(32) as u8,
            width: if wide { k as u16 } else if r.chance(2, 3) { 1 } else { r.range(2, 4) as u16 },
            flaw,
            stale: if r.chance(1, 2) { Some(Stale::gen(r, 500)) } else { None },
            abs: r.chance(1, 3),
            name: r.pick(&["t.csv", "t.csv", "t.txt", "t", "x.y.csv"]).to_string(),
            missing,
        }
    }
    fn run(w: &mut World, c: &C14Case) -> Res {
        let out = std::path::Path::new(&c.name).with_extension("bro").to_str().unwrap().to_string();
        let mut a = c.opts.args();
        a.push("--csv".into());
        if c.columns.is_empty() {
            a.push("--no-header".into());
        } else if c.fields {
            a.push(format!("--fields={},{}", c.columns[c.time_col as usize], c.columns[c.value_col as usize]));
        }
        let mut k = cmd(Tool::Atsc, &[&a], &format!("@{}", c.name));
        k.abs = c.abs;
        // the same values from a WBRO file
        let mut want = None;
        if !c.flawed() {
            w.reset(&Disk::new());
            put_wbro(w, "w.wbro", &c.values.0);
            let x = w.exec(&cmd(Tool::Atsc, &[&c.opts.args()], "@w.wbro"), &Plan::default());
            must_end(&x)?;
            if !x.ok() {
                return Ok(());
            }
            want = w.get("w.bro");
        }
        w.reset(&Disk::new());
        w.put(&c.name, c.table().as_bytes());
        if let Some(b) = &c.stale {
            w.put(&out, &b.of(want.as_deref()));
        }
        w.put("other.bro", b"x");
        let mut before = w.snapshot();
        let x = attempt(w, &k, &c.plan);
        must_end(&x)?;
        let mut after = w.snapshot();
        let what = format!("a table of {} rows, columns {:?}, {:?}", c.values.0.len(), c.columns, c.flaw);
        if c.flawed() {
            w.fired += 1;
            if let Some(d) = diff_disks(&before, &after) {
                return bad("flaw-output", format!("{what}: ended with {x:?} and {d}"));
            }
            if x.ok() {
                return bad("flaw-accepted", format!("{what}: success is reported"));
            }
            return Ok(());
        }
        if !x.ok() {
            return bad("table-refused", format!("{what}: ended with {x:?}"));
        }
        let got = after.remove(&out);
        before.remove(&out);
        if got != want {
            return bad("other-bytes", format!("{what}: {:?} bytes from the table, {:?} from the WBRO file", got.map(|b| b.len()), want.map(|b| b.len())));
        }
        if let Some(d) = diff_disks(&before, &after) {
            return bad("side-effect", format!("{what}: {d}"));
        }
        Ok(())
    }
    fn shrink(c: &C14Case) -> Vec<C14Case> {
        let mut out = vec![];
        for p in shrink_plan(&c.plan) {
            out.push(C14Case { plan: p, ..c.clone() });
        }
        for i in 0..5 {
            if c.style & (1 << i) != 0 {
                out.push(C14Case { style: c.style & !(1 << i), ..c.clone() });
            }
        }
        if c.stale.is_some() {
            out.push(C14Case { stale: None, ..c.clone() });
        }
        if c.abs {
            out.push(C14Case { abs: false, ..c.clone() });
        }
        if c.name != "t.csv" {
            out.push(C14Case { name: "t.csv".into(), ..c.clone() });
        }
        if c.formats != [0] {
            out.push(C14Case { formats: vec![0], ..c.clone() });
        }
        for o in c.opts.shrink() {
            out.push(C14Case { opts: o, ..c.clone() });
        }
        if !c.columns.is_empty() && (c.columns.len() > 2 || c.fields) {
            out.push(C14Case { columns: strs(&["time", "value"]), time_col: 0, value_col: 1, fields: false, ..c.clone() });
            out.push(C14Case { columns: strs(&["value", "time"]), time_col: 1, value_col: 0, fields: false, ..c.clone() });
        }
        if c.width > 1 {
            out.push(C14Case { width: 1, ..c.clone() });
        }
        for s in shrink_series(&c.values.0, 0) {
            out.push(C14Case { values: Series(s), ..c.clone() });
        }
        out
    }
    fn label(c: &C14Case) -> String {
        format!("{}cols/{}/{}/{}/{:?}", c.columns.len(), c.opts.compressor, c.values.0.len(), c.style, c.flaw.as_ref().map(|f| matches!(f, Flaw::Value(..))))
    }
}

// ---------------------------------------------------------------- C15
#[derive(Clone, Serialize, Deserialize)]
pub struct C15Case {
    pub values: Series,
    /// Seconds of the day; as many as values
    pub times: Times,
    pub day: i32,
    /// Of the seconds, cycled
    pub millis: Vec<u16>,
    pub opts: Opts,
    pub formats: Vec<u8>,
    /// Bit 0: value column first, 1: another column, 2: quoted, 3: CRLF
    pub style: u8,
    pub copy: bool,
    pub no_compression: bool,
    pub out_c: bool,
    pub out_d: bool,
    pub abs: bool,
    pub before: Vec<Plan>,
    pub before_d: Vec<Plan>,
    pub plan_c: Plan,
    pub plan_d: Plan,
    pub stale: Option<Stale>,
}
pub struct C15;

impl C15Case {
    fn table(&self) -> String {
        let eol = if self.style & 8 != 0 { "\r\n" } else { "\n" };
        let q = self.style & 4 != 0;
        let row = |t: &str, v: &str, x: &str| -> String {
            let (t, v, x) = (quoted(t, q), quoted(v, q), quoted(x, q));
            let mut c = if self.style & 1 != 0 { vec![v, t] } else { vec![t, v] };
            if self.style & 2 != 0 {
                c.insert(1, x);
            }
            c.join(",") + eol
        };
        let mut s = row("timestamp", "value", "host");
        let mut last = (i32::MIN, 0);
        for (i, (t, v)) in self.times.0.iter().zip(&self.values.0).enumerate() {
            let mut part = self.millis.get(i % self.millis.len().max(1)).copied().unwrap_or(0) as i64;
            if last.0 == *t {
                part = part.max(last.1);
            }
            last = (*t, part);
            let ms = (self.day as i64 * 86_400 + *t as i64) * 1000 + part;
            s.push_str(&row(&ms.to_string(), &fmt_value(*v, self.formats.get(i % self.formats.len().max(1)).copied().unwrap_or(0)), "a,\"b\""));
        }
        s
    }
}

fn hard_plans(r: &mut Rng, n: usize) -> Vec<Plan> {
    if r.chance(1, 6) {
        (0..r.range(1, 2))
            .map(|_| {
                let mut p = benign_plan(r, n * 8);
                p.faults.push(hard_fault(r, true, true));
                p
            })
            .collect()
    } else {
        vec![]
    }
}

/// The times an index gives for its positions, checked against what was indexed
fn check_times(got: &[i64], m: &Model, what: &str) -> Res {
    let grid = m.grid();
    if got.len() != m.times.len() {
        return bad("time-count", format!("{what}: {} times for {} samples", got.len(), m.times.len()));
    }
    for (i, g) in got.iter().enumerate() {
        let (t, l) = (m.times[i] as i64, grid[i] as i64);
        if !(if t == l { *g == t } else { *g >= l && *g <= t }) {
            return bad("time", format!("{what}: sample {i} of {} was taken at {t} (grid {l}) and gets time {g}", got.len()));
        }
    }
    Ok(())
}

/// The rows of a table restored by csv-compressor
pub fn read_table(b: &[u8]) -> Result<Vec<(i64, f64)>, Verdict> {
    let csv = String::from_utf8_lossy(b).to_string();
    let mut rows: Vec<(i64, f64)> = vec![];
    for (i, l) in csv.lines().enumerate() {
        if i == 0 {
            if l != "timestamp,value" {
                return bad("csv-header", format!("the restored table starts with {l:?}"));
            }
            continue;
        }
        match l.split_once(',').and_then(|(t, v)| Some((t.parse().ok()?, v.parse().ok()?))) {
            Some(x) => rows.push(x),
            None => return bad("csv-row", format!("restored row {i} is {l:?}")),
        }
    }
    Ok(rows)
}

/// Puts what an earlier command may have left where this one is going to write
fn left_over(w: &mut World, c: &C15Case, k: &Cmd, base: &str, exts: &[&str]) {
    let Some(b) = &c.stale else { return };
    let mut made = Disk::new();
    if b.edit != 0 {
        let clean = w.snapshot();
        w.exec(k, &Plan::default());
        made = w.snapshot();
        w.reset(&clean);
    }
    for e in exts {
        let f = format!("{base}.{e}");
        w.put(&f, &b.of(made.get(&f).map(|d| &d[..])));
    }
}

impl Prop for C15 {
    type Case = C15Case;
    const ID: &'static str = "C15";
    const RUNS: (u64, u64) = (32_000, 2_000_000);
    const RULE: &'static str = "Timestamped samples of one day (gaps, rate changes, jitter, duplicate times, values that are no number; several number formats and column orders) are archived with index and side outputs and restored by csv-compressor, under split and interrupted transfers and sometimes after crashed or failed attempts; rows, values (error bound per mode), times and side outputs are compared with the input and a reference model of the index.";
    const REAL: &'static str = "csv-compressor tool run as processes, with atsc, wavbrro and vsri libraries";
    fn gen(r: &mut Rng, thorough: bool) -> C15Case {
        let mut opts = Opts::gen(r);
        if opts.compressor == "rle" {
            opts.compressor = "polynomial".into();
        }
        let max = if opts.compressor == "idw" { 150 } else if thorough { 6000 } else { 2500 };
        let mut times = gen_times(r, r.clone().chance(1, 2), max);
        if opts.compressor != "idw" && r.chance(1, 500) {
            // most of a day, second by second
            let n = r.range(3000, 86_400) as usize;
            let keep = *r.pick(&[1u64, 2, 50, 5000]);
            times = (0..n as i32).filter(|_| !r.chance(1, keep + 1) || keep == 1).collect();
            if r.chance(1, 2) && !times.is_empty() {
                // and one second many times over
                let i = r.usize(times.len());
                let t = times[i];
                let k = *r.pick(&[1usize, 255, 256, 70_000]);
                times.splice(i..i, std::iter::repeat(t).take(k));
            }
        }
        let max = max.max(times.len());
        // only histories the index accepts
        let mut m = Model::default();
        times.retain(|t| m.update(*t));
        let n = times.len();
        let mut s = vec![];
        let cfg = LenCfg { max, huge: 0, allow_empty: false };
        while s.len() < n {
            s.extend(gen_series(r, &cfg).0);
        }
        s.truncate(n);
        if opts.compressor == "fft" {
            s.iter_mut().for_each(|x| *x = x.clamp(-1e30, 1e30));
        }
        if opts.compressor == "noop" && r.chance(2, 3) {
            s.iter_mut().for_each(|y| *y = y.round().clamp(-9007199254740992.0, 9007199254740992.0));
        }
        if opts.compressor == "constant" && r.chance(2, 3) && n > 0 {
            let x = s[0];
            s.iter_mut().for_each(|y| *y = x);
        }
        // gaps: rows whose sample is no number
        if n > 0 && r.chance(1, 5) {
            let dense = *r.pick(&[1u64, 2, 4, 30, 1000]);
            let run = *r.pick(&[1usize, 1, 2, 20]);
            let mut t = s.clone();
            for _ in 0..r.range(1, 3) {
                let i = *r.pick(&[0, n - 1, r.clone().usize(n)]);
                t[i] = *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
            }
            let mut i = 0;
            while i < n && dense > 1 {
                if r.chance(1, dense) {
                    let x = *r.pick(&[f64::NAN, f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
                    let e = (i + run).min(n);
                    t[i..e].fill(x);
                    i = e;
                }
                i += 1;
            }
            let left: Vec<i32> = times.iter().zip(&t).filter(|p| p.1.is_finite()).map(|p| *p.0).collect();
            if !left.is_empty() && Model::of(&left).times.len() == left.len() {
                s = t;
            }
        }
        let (mut pc, mut pd) = (benign_plan(r, n * 20), benign_plan(r, n * 20));
        if r.chance(1, 4) {
            pc.faults.push(soft_fault(r));
            pd.faults.push(soft_fault(r));
        }
        C15Case {
            values: Series(s),
            times: Times(times),
            day: match r.below(4) {
                0 => r.range(-25_000, 60_000) as i32,
                1 => *r.pick(&[-1, -2, -365, 11_016, 11_017, 24_855, 24_856, 49_710, 2_932_896]),
                _ => *r.pick(&[0, 1, 19_675, 19_676, 11_016, 40_000]),
            },
            millis: (0..r.range(1, 4)).map(|_| *r.pick(&[0u16, 0, 1, 499, 500, 999])).collect(),
            opts,
            formats: (0..r.range(1, 4)).map(|_| r.below(7) as u8).collect(),
            style: r.below(16) as u8,
            copy: r.chance(1, 2),
            no_compression: r.chance(1, 12),
            out_c: r.chance(1, 3),
            out_d: r.chance(1, 2),
            abs: r.chance(1, 3),
            before: hard_plans(r, n),
            before_d: hard_plans(r, n),
            plan_c: pc,
            plan_d: pd,
            stale: if r.chance(1, 4) { Some(Stale::gen(r, *r.clone().pick(&[100usize, 30_000]))) } else { None },
        }
    }
    fn run(w: &mut World, c: &C15Case) -> Res {
        if c.values.0.len() != c.times.0.len() {
            return Ok(());
        }
        // what is no number is left out, with its time
        let (times, v): (Vec<i32>, Vec<f64>) = c.times.0.iter().zip(&c.values.0).filter(|p| p.1.is_finite()).map(|(t, x)| (*t, *x)).unzip();
        let n = v.len();
        let m = Model::of(&times);
        if m.times.len() != n {
            return Ok(());
        }
        w.reset(&Disk::new());
        let table = c.table();
        w.put("s.csv", table.as_bytes());
        w.put("q/keep", b"");
        w.put("p/keep", b"");
        let base = if c.out_c { "q/arch" } else { "s" };
        let mut a = c.opts.args();
        a.push("--output-vsri".into());
        if c.copy {
            a.push("--output-wavbrro".into());
        }
        if c.no_compression {
            a.push("--no-compression".into());
        }
        if c.out_c {
            a.extend(strs(&["--output", "@q/arch.x"]));
        }
        let mut k = cmd(Tool::Csvc, &[&a], "@s.csv");
        k.abs = c.abs;
        left_over(w, c, &k, base, &["bro", "vsri", "wavbro"]);
        for p in &c.before {
            let x = attempt(w, &k, p);
            must_end(&x)?;
        }
        let x = attempt(w, &k, &c.plan_c);
        must_end(&x)?;
        if !x.ok() {
            return bad("archive-fails", format!("archiving {n} samples ({} -e {}) ended with {x:?}", c.opts.compressor, c.opts.error));
        }
        if w.get("s.csv").as_deref() != Some(table.as_bytes()) {
            return bad("input-changed", "archiving changed the CSV file");
        }
        // side outputs
        if c.copy {
            match get_wbro(w, &format!("{base}.wavbro")) {
                Some(x) if same_bits(&x, &v) => {}
                Some(x) => return bad("copy-differs", format!("the uncompressed copy: {}", first_diff(&v, &x))),
                None => return bad("copy-missing", "the uncompressed copy cannot be read"),
            }
        }
        let vp = w.path(&format!("{base}.vsri"));
        let idx = guarded(|| Vsri::load(vp.to_str().unwrap()).ok().map(|v| v.get_all_timestamps())).flatten();
        match idx {
            None => return bad("index-missing", "the index cannot be loaded"),
            Some(t) => check_times(&t.iter().map(|x| *x as i64).collect::<Vec<_>>(), &m, "the index")?,
        }
        if c.no_compression {
            return Ok(());
        }
        let mut a = strs(&["-u"]);
        let back = if c.out_d { "p/out" } else { base };
        if c.out_d {
            a.extend(strs(&["--output", "@p/out"]));
        }
        let mut k = cmd(Tool::Csvc, &[&a], &format!("@{base}.bro"));
        k.abs = c.abs;
        left_over(w, c, &k, back, &["wbro", "csv"]);
        for p in &c.before_d {
            let x = attempt(w, &k, p);
            must_end(&x)?;
        }
        let x = attempt(w, &k, &c.plan_d);
        must_end(&x)?;
        if !x.ok() {
            return bad("restore-fails", format!("restoring {n} samples ({} -e {}) ended with {x:?}", c.opts.compressor, c.opts.error));
        }
        let rows = read_table(&w.get(&format!("{back}.csv")).unwrap_or_default())?;
        if rows.len() != n {
            return bad("row-count", format!("{} rows are restored from {n} samples", rows.len()));
        }
        check_times(&rows.iter().map(|r| r.0).collect::<Vec<_>>(), &m, "the restored table")?;
        let got: Vec<f64> = rows.iter().map(|r| r.1).collect();
        match get_wbro(w, &format!("{back}.wbro")) {
            Some(v) if same_bits(&v, &got) => {}
            Some(v) => return bad("outputs-disagree", format!("table and WBRO file: {}", first_diff(&got, &v))),
            None => return bad("output-missing", "the restored WBRO file cannot be read"),
        }
        let exact = match c.opts.compressor.as_str() {
            "noop" => v.iter().all(|x| x.fract() == 0.0 && x.abs() <= 9007199254740992.0),
            "constant" => v.windows(2).all(|p| p[0] == p[1]),
            "fft" => false,
            _ => c.opts.error == 0,
        };
        if exact && v.iter().zip(&got).any(|(a, b)| a != b) {
            return bad("not-exact", format!("{} -e {}: {}", c.opts.compressor, c.opts.error, first_diff(&v, &got)));
        }
        if matches!(c.opts.compressor.as_str(), "auto" | "polynomial" | "idw") {
            let e = mean_rel_error(&v, &got);
            if !(e <= c.opts.error as f64 / 100.0 * (1.0 + 1e-6) + 1e-12) {
                return bad("error-bound", format!("mean relative error {:.6}% exceeds {}% ({n} samples, {})", e * 100.0, c.opts.error, c.opts.compressor));
            }
        }
        Ok(())
    }
    fn shrink(c: &C15Case) -> Vec<C15Case> {
        let mut out = vec![];
        for i in 0..c.before.len() {
            let mut d = c.clone();
            d.before.remove(i);
            out.push(d);
        }
        for i in 0..c.before_d.len() {
            let mut d = c.clone();
            d.before_d.remove(i);
            out.push(d);
        }
        for p in shrink_plan(&c.plan_c) {
            out.push(C15Case { plan_c: p, ..c.clone() });
        }
        for p in shrink_plan(&c.plan_d) {
            out.push(C15Case { plan_d: p, ..c.clone() });
        }
        if c.stale.is_some() {
            out.push(C15Case { stale: None, ..c.clone() });
        }
        for f in 0..5 {
            let mut d = c.clone();
            match f {
                0 => d.copy = false,
                1 => d.no_compression = false,
                2 => d.out_c = false,
                3 => d.out_d = false,
                _ => d.abs = false,
            }
            out.push(d);
        }
        for i in 0..4 {
            if c.style & (1 << i) != 0 {
                out.push(C15Case { style: c.style & !(1 << i), ..c.clone() });
            }
        }
        if c.day != 0 || c.millis != [0] || c.formats != [0] {
            out.push(C15Case { day: 0, millis: vec![0], formats: vec![0], ..c.clone() });
        }
        for o in c.opts.shrink() {
            out.push(C15Case { opts: o, ..c.clone() });
        }
        let n = c.times.0.len();
        let mut k = n / 2;
        while k >= 1 {
            let mut s = 0;
            while s + k <= n && out.len() < 300 {
                let mut d = c.clone();
                d.times.0.drain(s..s + k);
                d.values.0.drain(s..s + k);
                out.push(d);
                s += k;
            }
            k /= 2;
        }
        for s in shrink_series(&c.values.0, n) {
            if s.len() == n {
                out.push(C15Case { values: Series(s), ..c.clone() });
            }
        }
        if n > 0 {
            out.push(C15Case { times: Times((0..n as i32).collect()), ..c.clone() });
        }
        out
    }
    fn label(c: &C15Case) -> String {
        let m = Model::of(&c.times.0);
        format!("{}/{}segs/{}/{}", c.opts.compressor, m.segs.len().min(9), c.times.0.len(), c.opts.error)
    }
}
