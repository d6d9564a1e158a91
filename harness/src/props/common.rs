use crate::rng::Rng;
use crate::runner::*;
use crate::series::*;
use crate::sim::*;
use serde::{Deserialize, Serialize};
use wavbrro::wavbrro::WavBrro;

pub const COMPRESSORS: [&str; 7] = ["auto", "noop", "fft", "constant", "polynomial", "idw", "rle"];

/// Puts a WBRO file on the simulated disk, without any perturbation
pub fn put_wbro(w: &World, name: &str, v: &[f64]) {
    let p = w.path(name);
    if let Some(d) = p.parent() {
        std::fs::create_dir_all(d).unwrap();
    }
    assert!(guarded(|| WavBrro::to_file_with_data(&p, v)).is_some(), "cannot create a WBRO input");
}

/// Reads a WBRO file without any perturbation; None if it is missing, refused or makes the reader panic
pub fn get_wbro(w: &World, name: &str) -> Option<Vec<f64>> {
    let p = w.path(name);
    guarded(|| WavBrro::from_file(&p).ok()).flatten()
}

pub fn same_bits(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits())
}

pub fn first_diff(a: &[f64], b: &[f64]) -> String {
    if a.len() != b.len() {
        return format!("{} samples instead of {}", b.len(), a.len());
    }
    match a.iter().zip(b).position(|(x, y)| x != y && !(x.is_nan() && y.is_nan())) {
        Some(i) => format!("sample {i} of {}: {:e} became {:e}", a.len(), a[i], b[i]),
        None => match a.iter().zip(b).position(|(x, y)| x.to_bits() != y.to_bits()) {
            Some(i) => format!("sample {i}: bits {:016x} became {:016x}", a[i].to_bits(), b[i].to_bits()),
            None => "identical".into(),
        },
    }
}

/// Runs a command with hard faults: the fault selectors are resolved against a fault-free rehearsal of the same command
/// under the same plan, after which the disk is put back.
pub fn attempt(w: &mut World, cmd: &Cmd, plan: &Plan) -> Exit {
    if plan.faults.is_empty() && plan.oom == 0 {
        return w.exec(cmd, plan);
    }
    let before = w.snapshot();
    w.exec(cmd, &plan.without_faults());
    let trace = w.last_trace.clone();
    w.reset(&before);
    let f = World::resolve(&plan.faults, &trace);
    let oom = if plan.oom == 0 { 0 } else { (plan.oom - 1) % trace.allocs.max(1) + 1 };
    w.exec_raw(cmd, &Plan { oom, ..plan.clone() }, &f)
}

pub fn inconclusive_if_timeout(e: &Exit) -> Res {
    if *e == Exit::Timeout {
        return Err(Verdict::Inconclusive("time limit".into()));
    }
    Ok(())
}

/// For commands that have to come to an end on such small inputs (they take milliseconds; the limit is half a minute)
pub fn must_end(e: &Exit) -> Res {
    if *e == Exit::Timeout {
        return bad("hang", "a command that takes milliseconds did not end within 30 s of processor time");
    }
    Ok(())
}

/// Error levels, biased to the interesting ones
pub fn gen_error(r: &mut Rng) -> u8 {
    match r.below(10) {
        0..=2 => 0,
        3 => 1,
        4 => 3,
        5 => 5,
        6 => 10,
        7 => 50,
        _ => r.range(0, 50) as u8,
    }
}

pub fn diff_disks(a: &Disk, b: &Disk) -> Option<String> {
    for (n, d) in a {
        match b.get(n) {
            None => return Some(format!("{n} disappeared")),
            Some(x) if x != d => return Some(format!("{n} changed ({} bytes -> {} bytes)", d.len(), x.len())),
            _ => {}
        }
    }
    for n in b.keys() {
        if !a.contains_key(n) {
            return Some(format!("{n} appeared"));
        }
    }
    None
}

/// Options of a compression
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Opts {
    pub compressor: String,
    pub error: u8,
    pub level: u8,
}
impl Opts {
    pub fn gen(r: &mut Rng) -> Opts {
        Opts { compressor: r.pick(&["auto", "auto", "auto", "noop", "fft", "constant", "polynomial", "idw", "rle"]).to_string(), error: gen_error(r), level: r.range(0, 6) as u8 }
    }
    pub fn args(&self) -> Vec<String> {
        ["--compressor", &self.compressor, "-e", &self.error.to_string(), "-c", &self.level.to_string()].iter().map(|s| s.to_string()).collect()
    }
    pub fn shrink(&self) -> Vec<Opts> {
        let mut o = vec![];
        if self.compressor != "noop" {
            o.push(Opts { compressor: "noop".into(), ..self.clone() });
        }
        if self.error != 0 {
            o.push(Opts { error: 0, ..self.clone() });
        }
        if self.level != 0 {
            o.push(Opts { level: 0, ..self.clone() });
        }
        o
    }
}

pub fn cmd(tool: Tool, parts: &[&[String]], last: &str) -> Cmd {
    let mut args: Vec<String> = parts.iter().flat_map(|p| p.iter().cloned()).collect();
    if !last.is_empty() {
        args.push(last.to_string());
    }
    Cmd { tool, args, abs: false }
}

pub fn strs(a: &[&str]) -> Vec<String> {
    a.iter().map(|s| s.to_string()).collect()
}

/// Short series for workloads whose point is not the values
pub fn small_series(r: &mut Rng, max: usize) -> (Vec<f64>, String) {
    let cfg = LenCfg { max, huge: 0, allow_empty: true };
    let (mut s, l) = gen_series(r, &cfg);
    // keep the slow and the out-of-range corners of single compressors out of the way
    s.iter_mut().for_each(|x| *x = x.clamp(-1e30, 1e30));
    (s, l)
}

/// Bytes stored as hex in replay files
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Blob(pub Vec<u8>);
impl Serialize for Blob {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.0.iter().map(|b| format!("{b:02x}")).collect::<String>())
    }
}
impl<'de> Deserialize<'de> for Blob {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).map_err(serde::de::Error::custom)).collect::<Result<Vec<u8>, _>>().map(Blob)
    }
}
impl Blob {
    pub fn random(r: &mut Rng, max: usize) -> Blob {
        let n = r.usize(max + 1);
        Blob((0..n).map(|_| r.next() as u8).collect())
    }
    pub fn shrink(&self) -> Vec<Blob> {
        let mut o = vec![];
        if !self.0.is_empty() {
            o.push(Blob(self.0[..self.0.len() / 2].to_vec()));
            o.push(Blob(self.0[..self.0.len() - 1].to_vec()));
        }
        o
    }
}

/// What an output file holds before the command runs
#[derive(Clone, PartialEq, Serialize, Deserialize)]
pub struct Stale {
    pub junk: Blob,
    /// 0 just the junk; otherwise derived from what the command is going to write: 1 the same, 2 with another byte at
    /// `pos`, 3 cut at `pos`, 4 followed by the junk, 5 as many zero bytes, 6 the same from `pos` on
    pub edit: u8,
    /// Share (of 65536) of the file
    pub pos: u32,
}
impl Stale {
    pub fn gen(r: &mut Rng, max: usize) -> Stale {
        let junk = Blob::random(r, max);
        Stale { junk, edit: if r.chance(1, 2) { 0 } else { r.range(1, 6) as u8 }, pos: r.below(65536) as u32 }
    }
    pub fn of(&self, want: Option<&[u8]>) -> Vec<u8> {
        let Some(w) = want else { return self.junk.0.clone() };
        let k = (w.len() as u64 * self.pos as u64 >> 16) as usize;
        let mut b = w.to_vec();
        match self.edit {
            0 => return self.junk.0.clone(),
            2 if !b.is_empty() => b[k] ^= 1 << (self.pos % 8),
            3 => b.truncate(k),
            4 => b.extend(&self.junk.0),
            5 => b.fill(0),
            6 => b[..k].fill(0x55),
            _ => {}
        }
        b
    }
    pub fn shrink(&self) -> Vec<Stale> {
        let mut o = vec![];
        if self.edit != 0 {
            o.push(Stale { edit: 0, ..self.clone() });
        }
        if self.edit == 0 || self.edit == 4 {
            o.extend(self.junk.shrink().into_iter().map(|junk| Stale { junk, ..self.clone() }));
        } else if self.pos != 0 {
            o.push(Stale { pos: self.pos / 2, ..self.clone() });
        }
        o
    }
}

/// Runs library code with the plan's faults, addressed in a fault-free rehearsal of the same code on the same disk
pub fn lib_attempt<R>(w: &mut World, plan: &Plan, f: impl Fn() -> R) -> LibOut<R> {
    if plan.faults.is_empty() {
        return w.lib(plan, &[], f);
    }
    let before = w.snapshot();
    w.lib(&plan.without_faults(), &[], &f);
    let trace = w.last_trace.clone();
    w.reset(&before);
    let fl = World::resolve(&plan.faults, &trace);
    w.lib(plan, &fl, f)
}
