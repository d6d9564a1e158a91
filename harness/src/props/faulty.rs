//! C07: success means the whole output is there. C08: a failed run does no harm and can be repeated.
use super::common::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::series::*;
use crate::sim::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Job7 {
    Compress,
    CompressCsv,
    CompressCsvNoHeader,
    Decompress,
    CompressDir,
    DecompressDir,
    Archive,
    Unarchive,
    Wav,
}
pub const JOBS: [Job7; 9] = [
    Job7::Compress,
    Job7::CompressCsv,
    Job7::CompressCsvNoHeader,
    Job7::Decompress,
    Job7::CompressDir,
    Job7::DecompressDir,
    Job7::Archive,
    Job7::Unarchive,
    Job7::Wav,
];

#[derive(Clone, PartialEq, Serialize, Deserialize)]
pub struct Scenario {
    pub job: Job7,
    pub opts: Opts,
    pub series: Series,
    /// Second input of directory jobs
    pub second: Series,
    /// Times of archive jobs: seconds between samples, cycled
    pub gaps: Vec<u32>,
    /// Archive: bit 0 index, bit 1 WavBrro copy, bit 2 no compression, bit 3 explicit output
    pub outs: u8,
    /// What output files hold beforehand
    pub stale: Option<Stale>,
    pub abs: bool,
    /// Print every sample (atsc only)
    #[serde(default)]
    pub verbose: bool,
}

pub fn wav_bytes(v: &[f64], frames: usize) -> Vec<u8> {
    let data = v.len() * 8;
    let mut b = vec![];
    b.extend(b"RIFF");
    b.extend(((36 + data) as u32).to_le_bytes());
    b.extend(b"WAVEfmt ");
    b.extend(16u32.to_le_bytes());
    b.extend(1u16.to_le_bytes());
    b.extend(4u16.to_le_bytes());
    b.extend((frames as u32).to_le_bytes());
    b.extend((frames as u32 * 8).to_le_bytes());
    b.extend(8u16.to_le_bytes());
    b.extend(16u16.to_le_bytes());
    b.extend(b"data");
    b.extend((data as u32).to_le_bytes());
    for x in v {
        b.extend(x.to_bits().to_le_bytes());
    }
    b
}

pub struct Setup {
    pub disk: Disk,
    pub cmd: Cmd,
    pub inputs: Vec<String>,
    /// Files the command is asked to write
    pub outputs: Vec<String>,
}

impl Scenario {
    pub fn gen(r: &mut Rng) -> Scenario {
        let job = *r.pick(&JOBS);
        let mut opts = Opts::gen(r);
        if opts.compressor == "rle" && matches!(job, Job7::Archive | Job7::Unarchive) {
            opts.compressor = "auto".into();
        }
        let max = if opts.compressor == "idw" { 300 } else { *r.pick(&[20, 200, 600, 600, 2500, 6000]) };
        let mut s = small_series(r, max).0;
        if matches!(job, Job7::Wav) {
            s.iter_mut().for_each(|x| {
                if r.chance(1, 30) {
                    *x = f64::from_bits(r.next())
                }
            });
        }
        Scenario {
            job,
            opts,
            series: Series(s),
            second: Series(small_series(r, 200).0),
            gaps: (0..r.range(1, 5)).map(|_| *r.pick(&[1u32, 1, 1, 5, 5, 2, 0, 7])).collect(),
            outs: r.below(16) as u8,
            stale: if r.chance(1, 3) { Some(Stale::gen(r, 9000)) } else { None },
            abs: r.chance(1, 3),
            verbose: r.chance(1, 8),
        }
    }

    pub fn times(&self, n: usize) -> Vec<i64> {
        let mut t = 0i64;
        (0..n)
            .map(|i| {
                let x = t.min(86_399);
                t += self.gaps.get(i % self.gaps.len().max(1)).copied().unwrap_or(1) as i64;
                x
            })
            .collect()
    }
    fn archive_csv(&self) -> String {
        let t = self.times(self.series.0.len());
        let mut s = String::from("timestamp,value\n");
        for (t, v) in t.iter().zip(&self.series.0) {
            s.push_str(&format!("{},{:e}\n", (1_700_006_400 + t) * 1000, v));
        }
        s
    }
    fn atsc_csv(v: &[f64], header: bool) -> String {
        let mut s = String::new();
        if header {
            s.push_str("time,value\n");
        }
        for (i, x) in v.iter().enumerate() {
            if header {
                s.push_str(&format!("{i},{x:e}\n"));
            } else {
                s.push_str(&format!("{x:e}\n"));
            }
        }
        s
    }

    /// Builds the starting disk (using the real tools where an input is a product of one). None: no such input exists.
    pub fn setup(&self, w: &mut World) -> Result<Option<Setup>, Verdict> {
        w.reset(&Disk::new());
        let plain = Plan::default();
        let mut inputs = vec![];
        let mut outputs: Vec<String> = vec![];
        let c;
        macro_rules! need {
            ($cmd:expr) => {{
                let x = w.exec(&$cmd, &plain);
                must_end(&x)?;
                if !x.ok() {
                    return Ok(None);
                }
            }};
        }
        let o = self.opts.args();
        match self.job {
            Job7::Compress => {
                put_wbro(w, "s.wbro", &self.series.0);
                c = cmd(Tool::Atsc, &[&o], "@s.wbro");
                inputs.push("s.wbro");
                outputs.push("s.bro".into());
            }
            Job7::CompressCsv | Job7::CompressCsvNoHeader => {
                let h = self.job == Job7::CompressCsv;
                w.put("s.csv", Self::atsc_csv(&self.series.0, h).as_bytes());
                c = cmd(Tool::Atsc, &[&o, &strs(if h { &["--csv"] } else { &["--csv", "--no-header"] })], "@s.csv");
                inputs.push("s.csv");
                outputs.push("s.bro".into());
            }
            Job7::Decompress => {
                put_wbro(w, "s.wbro", &self.series.0);
                need!(cmd(Tool::Atsc, &[&o], "@s.wbro"));
                std::fs::remove_file(w.path("s.wbro")).unwrap();
                c = cmd(Tool::Atsc, &[&strs(&["-u"])], "@s.bro");
                inputs.push("s.bro");
                outputs.push("s.wbro".into());
            }
            Job7::CompressDir => {
                put_wbro(w, "d/a.wbro", &self.series.0);
                put_wbro(w, "d/b.wbro", &self.second.0);
                c = cmd(Tool::Atsc, &[&o], "@d");
                inputs.extend(["d/a.wbro", "d/b.wbro"]);
                outputs.extend(["d/a.bro".into(), "d/b.bro".into()]);
            }
            Job7::DecompressDir => {
                put_wbro(w, "d/a.wbro", &self.series.0);
                put_wbro(w, "d/b.wbro", &self.second.0);
                need!(cmd(Tool::Atsc, &[&o], "@d/a.wbro"));
                need!(cmd(Tool::Atsc, &[&o], "@d/b.wbro"));
                for f in ["d/a.wbro", "d/b.wbro"] {
                    std::fs::remove_file(w.path(f)).unwrap();
                }
                c = cmd(Tool::Atsc, &[&strs(&["-u"])], "@d");
                inputs.extend(["d/a.bro", "d/b.bro"]);
                outputs.extend(["d/a.wbro".into(), "d/b.wbro".into()]);
            }
            Job7::Archive => {
                w.put("s.csv", self.archive_csv().as_bytes());
                let mut a = o.clone();
                let base = if self.outs & 8 != 0 { "q/out" } else { "s" };
                if self.outs & 8 != 0 {
                    w.put("q/keep", b"");
                    a.extend(strs(&["--output", "@q/out.any"]));
                }
                if self.outs & 1 != 0 {
                    a.push("--output-vsri".into());
                    outputs.push(format!("{base}.vsri"));
                }
                if self.outs & 2 != 0 {
                    a.push("--output-wavbrro".into());
                    outputs.push(format!("{base}.wavbro"));
                }
                if self.outs & 4 != 0 {
                    a.push("--no-compression".into());
                } else {
                    outputs.push(format!("{base}.bro"));
                }
                c = cmd(Tool::Csvc, &[&a], "@s.csv");
                inputs.push("s.csv");
            }
            Job7::Unarchive => {
                w.put("i.csv", self.archive_csv().as_bytes());
                need!(cmd(Tool::Csvc, &[&o, &strs(&["--output-vsri"])], "@i.csv"));
                std::fs::remove_file(w.path("i.csv")).unwrap();
                let mut a = strs(&["-u"]);
                let base = if self.outs & 8 != 0 { "q/out" } else { "i" };
                if self.outs & 8 != 0 {
                    w.put("q/keep", b"");
                    a.extend(strs(&["--output", "@q/out.any"]));
                }
                c = cmd(Tool::Csvc, &[&a], "@i.bro");
                inputs.extend(["i.bro", "i.vsri"]);
                outputs.extend([format!("{base}.wbro"), format!("{base}.csv")]);
            }
            Job7::Wav => {
                w.put("s.wav", &wav_bytes(&self.series.0, 1000));
                c = cmd(Tool::Wav, &[], "@s.wav");
                inputs.push("s.wav");
                outputs.push("s.wbro".into());
            }
        }
        let dir_job = matches!(self.job, Job7::CompressDir | Job7::DecompressDir);
        if let (Some(b), false) = (&self.stale, dir_job) {
            let mut made = Disk::new();
            if b.edit != 0 {
                let clean = w.snapshot();
                w.exec(&Cmd { abs: self.abs, ..c.clone() }, &plain);
                made = w.snapshot();
                w.reset(&clean);
            }
            for f in &outputs {
                w.put(f, &b.of(made.get(f).map(|d| &d[..])));
            }
        }
        w.put("unrelated.txt", b"not yours");
        w.put("s.extra", b"WBRO same stem");
        let mut c = c;
        c.abs = self.abs;
        if self.verbose && c.tool == Tool::Atsc {
            c.args.insert(0, "--verbose".into());
        }
        Ok(Some(Setup { disk: w.snapshot(), cmd: c, inputs: inputs.iter().map(|s| s.to_string()).collect(), outputs }))
    }

    pub fn shrink(&self) -> Vec<Scenario> {
        let mut out = vec![];
        for o in self.opts.shrink() {
            out.push(Scenario { opts: o, ..self.clone() });
        }
        for s in shrink_series(&self.series.0, 0).into_iter().take(40) {
            out.push(Scenario { series: Series(s), ..self.clone() });
        }
        if !self.second.0.is_empty() {
            out.push(Scenario { second: Series(vec![]), ..self.clone() });
        }
        if self.gaps.len() > 1 {
            out.push(Scenario { gaps: vec![1], ..self.clone() });
        }
        for i in 0..4 {
            if self.outs & (1 << i) != 0 {
                out.push(Scenario { outs: self.outs & !(1 << i), ..self.clone() });
            }
        }
        if let Some(b) = &self.stale {
            out.push(Scenario { stale: None, ..self.clone() });
            for b in b.shrink() {
                out.push(Scenario { stale: Some(b), ..self.clone() });
            }
        }
        if self.abs {
            out.push(Scenario { abs: false, ..self.clone() });
        }
        if self.verbose {
            out.push(Scenario { verbose: false, ..self.clone() });
        }
        out
    }
    pub fn label(&self) -> String {
        format!("{:?}/{}/{}/{}", self.job, self.opts.compressor, self.series.0.len(), self.outs)
    }
}

const REAL7: &str = "atsc, csv-compressor and wav2wbro command-line tools (release build, unmodified) with wavbrro, vsri and all compressors, run as processes";

/// The fault-free result, or None if even that fails (another property's concern)
fn golden(w: &mut World, st: &Setup) -> Result<Option<(Disk, u64)>, Verdict> {
    let before = w.stats.bytes;
    let x = w.exec(&st.cmd, &Plan::default());
    must_end(&x)?;
    let moved = w.stats.bytes - before;
    if !x.ok() {
        return Ok(None);
    }
    Ok(Some((w.snapshot(), moved)))
}

// ---------------------------------------------------------------- C07
#[derive(Clone, Serialize, Deserialize)]
pub struct C07Case {
    pub sc: Scenario,
    pub plan: Plan,
    /// Disk full after this share (of 65536) of the bytes a healthy run writes
    pub full: Option<u32>,
    /// The system cannot say what one of the files or the directory is, with this errno
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub blind: Option<(u8, i32)>,
}
pub struct C07;
impl Prop for C07 {
    type Case = C07Case;
    const ID: &'static str = "C07";
    const RUNS: (u64, u64) = (50_000, 1_000_000);
    const RULE: &'static str = "Nine kinds of command on one workload each, first without faults, then under splits and interruptions plus up to three injected errors (failing reads, writes, opens, creations, renames and syncs; files of which the system cannot say what they are; disk full after any number of bytes; a standard output or error that takes nothing, with and without --verbose). Exit 0 must come with exactly the fault-free outputs; without hard faults exit 0 must come.";
    const REAL: &'static str = REAL7;
    fn gen(r: &mut Rng, thorough: bool) -> C07Case {
        let sc = Scenario::gen(r);
        let mut plan = benign_plan(r, sc.series.0.len() * 8);
        let mut full = None;
        match r.below(10) {
            0..=2 => {}
            3 => plan.faults.push(soft_fault(r)),
            4 | 5 => full = Some(r.below(65536) as u32),
            _ => {
                let n = if thorough { r.range(1, 3) } else { r.range(1, 2) };
                for _ in 0..n {
                    let f = if r.chance(1, 5) { soft_fault(r) } else { hard_fault(r, false, true) };
                    plan.faults.push(f);
                }
            }
        }
        if r.chance(1, 16) {
            plan.oom = r.range(1, 400) as u32;
        }
        if r.chance(1, if sc.verbose { 2 } else { 20 }) {
            plan.stdio = r.range(1, 2) as u8 | if r.chance(1, 2) { 4 } else { 0 };
        }
        let blind = r.chance(1, 12).then(|| (r.below(256) as u8, *r.pick(&[5, 13, 116, 12])));
        C07Case { sc, plan, full, blind }
    }
    fn run(w: &mut World, c: &C07Case) -> Res {
        let Some(st) = c.sc.setup(w)? else { return Ok(()) };
        let wrote0: usize = 0;
        let Some((gold, _)) = golden(w, &st)? else { return Ok(()) };
        let wrote: usize = wrote0 + st.outputs.iter().map(|o| gold.get(o).map(|d| d.len()).unwrap_or(0)).sum::<usize>();
        w.reset(&st.disk);
        let mut plan = c.plan.clone();
        if let Some(f) = c.full {
            plan.disk_cap = Some((wrote as u64 * f as u64) >> 16);
        }
        if let Some((i, e)) = c.blind {
            let mut all: Vec<&str> = st.inputs.iter().chain(&st.outputs).map(|s| &s[..]).collect();
            if matches!(c.sc.job, Job7::CompressDir | Job7::DecompressDir) {
                all.push("d");
            }
            plan.blind.push((all[i as usize % all.len()].to_string(), e));
        }
        let x = attempt(w, &st.cmd, &plan);
        must_end(&x)?;
        let after = w.snapshot();
        for i in &st.inputs {
            if after.get(i) != st.disk.get(i) {
                return bad("input-modified", format!("{:?} changed its input {i} ({:?})", c.sc.job, x));
            }
        }
        if x.ok() {
            for o in &st.outputs {
                if after.get(o) != gold.get(o) {
                    return bad(
                        "false-success",
                        format!(
                            "{:?} reported success with {} of {} ({} bytes in a fault-free run)",
                            c.sc.job,
                            match after.get(o) {
                                None => "no trace".to_string(),
                                Some(d) => format!("{} other bytes", d.len()),
                            },
                            o,
                            gold.get(o).map(|d| d.len()).unwrap_or(0)
                        ),
                    );
                }
            }
        } else if plan.is_benign() {
            return bad("fails-without-fault", format!("{:?} ended with {:?} although transfers were only split or interrupted", c.sc.job, x));
        }
        Ok(())
    }
    fn shrink(c: &C07Case) -> Vec<C07Case> {
        let mut out = vec![];
        for p in shrink_plan(&c.plan) {
            out.push(C07Case { plan: p, ..c.clone() });
        }
        if c.full.is_some() {
            out.push(C07Case { full: None, ..c.clone() });
        }
        if c.blind.is_some() {
            out.push(C07Case { blind: None, ..c.clone() });
        }
        for s in c.sc.shrink() {
            out.push(C07Case { sc: s, ..c.clone() });
        }
        out
    }
    fn label(c: &C07Case) -> String {
        c.sc.label()
    }
}

// ---------------------------------------------------------------- C08
#[derive(Clone, PartialEq, Serialize, Deserialize)]
pub struct Failed {
    pub plan: Plan,
    /// After a crash, what was written by the process is lost beyond this share (of 65536) of each file
    pub lost: Option<u32>,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct C08Case {
    pub sc: Scenario,
    pub failed: Vec<Failed>,
    pub again: Plan,
}
pub struct C08;
impl Prop for C08 {
    type Case = C08Case;
    const ID: &'static str = "C08";
    const RUNS: (u64, u64) = (28_000, 700_000);
    const RULE: &'static str = "Nine kinds of command, each crashed or failed one to three times in a row at any I/O call (before, inside or after it; written data optionally lost or torn afterwards), then run again; the final disk is compared with that of an undisturbed run.";
    const REAL: &'static str = REAL7;
    fn gen(r: &mut Rng, _thorough: bool) -> C08Case {
        let sc = Scenario::gen(r);
        let n = sc.series.0.len() * 8;
        let failed = (0..r.range(1, 3))
            .map(|_| {
                let mut plan = benign_plan(r, n);
                if r.chance(1, 16) {
                    plan.oom = r.range(1, 400) as u32;
                } else {
                    plan.faults.push(hard_fault(r, true, r.clone().chance(1, 3)));
                }
                Failed {
                    plan,
                    lost: match r.below(4) {
                        0 => Some(0),
                        1 => Some(r.below(65537) as u32),
                        _ => None,
                    },
                }
            })
            .collect();
        C08Case { again: benign_plan(r, n), sc, failed }
    }
    fn run(w: &mut World, c: &C08Case) -> Res {
        let Some(st) = c.sc.setup(w)? else { return Ok(()) };
        let Some((gold, _)) = golden(w, &st)? else { return Ok(()) };
        w.reset(&st.disk);
        let intact = |after: &Disk, when: &str| -> Res {
            for (n, d) in &st.disk {
                if st.outputs.contains(n) {
                    continue;
                }
                if after.get(n) != Some(d) {
                    let kind = if st.inputs.contains(n) { "input" } else { "unrelated file" };
                    return bad(
                        if st.inputs.contains(n) { "input-harmed" } else { "bystander-harmed" },
                        format!("{:?} {when} left its {kind} {n} {}", c.sc.job, if after.contains_key(n) { "changed" } else { "missing" }),
                    );
                }
            }
            Ok(())
        };
        for f in &c.failed {
            let before = w.snapshot();
            let x = attempt(w, &st.cmd, &f.plan);
            must_end(&x)?;
            if let (Exit::Crashed, Some(share)) = (&x, f.lost) {
                // data that was never synced need not survive the crash
                for (n, d) in w.snapshot() {
                    if st.outputs.contains(&n) && before.get(&n) != Some(&d) {
                        let k = (d.len() as u64 * share as u64) >> 16;
                        w.put(&n, &d[..k as usize]);
                    }
                }
            }
            intact(&w.snapshot(), &format!("ended with {x:?} and"))?;
        }
        let x = attempt(w, &st.cmd, &c.again);
        must_end(&x)?;
        let dir_job = matches!(c.sc.job, Job7::CompressDir | Job7::DecompressDir);
        // left-over outputs are foreign entries to a directory run, so only its results count
        if !x.ok() && !dir_job {
            return bad("rerun-fails", format!("{:?} repeated after {} failed attempt(s) ended with {:?}", c.sc.job, c.failed.len(), x));
        }
        let after = w.snapshot();
        intact(&after, "repeated")?;
        for o in &st.outputs {
            if after.get(o) != gold.get(o) {
                return bad(
                    "rerun-differs",
                    format!("{:?} repeated after {} failed attempt(s) left {} bytes in {o} instead of {}", c.sc.job, c.failed.len(), after.get(o).map(|d| d.len()).unwrap_or(0), gold.get(o).map(|d| d.len()).unwrap_or(0)),
                );
            }
        }
        Ok(())
    }
    fn shrink(c: &C08Case) -> Vec<C08Case> {
        let mut out = vec![];
        for i in 0..c.failed.len() {
            let mut d = c.clone();
            d.failed.remove(i);
            out.push(d);
        }
        for p in shrink_plan(&c.again) {
            out.push(C08Case { again: p, ..c.clone() });
        }
        for i in 0..c.failed.len() {
            if c.failed[i].lost.is_some() {
                let mut d = c.clone();
                d.failed[i].lost = None;
                out.push(d);
            }
            for p in shrink_plan(&c.failed[i].plan) {
                let mut d = c.clone();
                d.failed[i].plan = p;
                out.push(d);
            }
        }
        for s in c.sc.shrink() {
            out.push(C08Case { sc: s, ..c.clone() });
        }
        out
    }
    fn label(c: &C08Case) -> String {
        c.sc.label()
    }
}
