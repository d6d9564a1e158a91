//! C11: the WBRO store as a library. C17: conversion of legacy WAV files.
use super::common::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::series::*;
use crate::sim::*;
use serde::{Deserialize, Serialize};
use wavbrro::wavbrro::WavBrro;

#[derive(Clone, PartialEq, Serialize, Deserialize)]
pub enum Op11 {
    /// Start over with an empty store
    New,
    Add(Series),
    /// Write the store to a file
    Save(u8, Plan),
    /// Write samples to a file in one go
    Bulk(u8, Series, Plan),
    /// Read a file and compare
    Read(u8, Plan),
    /// The process restarts: the store is rebuilt from a file, sample by sample
    Load(u8, Plan),
    /// Serialise and deserialise in memory; true: go on with the copy
    Bytes(bool),
    /// Something else overwrites a file
    Foreign(u8, Blob),
}
#[derive(Clone, Serialize, Deserialize)]
pub struct C11Case {
    pub ops: Vec<Op11>,
}
pub struct C11;

fn bits_series(r: &mut Rng, max: usize) -> Vec<f64> {
    let n = match r.below(20) {
        0..=3 => r.usize(5),
        4..=6 => r.range(1, 300) as usize,
        7..=11 => *r.pick(&[2046usize, 2047, 2048, 2049, 2050]),
        12..=14 => *r.pick(&[4095usize, 4096, 4097, 6144, 6145]),
        15 => *r.pick(&[8191usize, 8192, 8193, 10240, 10239]),
        _ => r.range(300, 3000) as usize,
    }
    .min(max);
    let n = if max > 10_000 && r.chance(1, 60) {
        match if r.chance(1, 40) { 3 } else { r.below(3) } {
            3 => r.range(140_000, *r.clone().pick(&[300_000, 1_100_000])) as usize,
            0 => *r.pick(&[65_535usize, 65_536, 65_537, 131_073]),
            1 => (2048 * r.range(5, 132) + r.range(-1, 1)) as usize,
            _ => r.range(10_000, 140_000) as usize,
        }
    } else {
        n
    };
    let mode = r.below(4);
    (0..n)
        .map(|i| match mode {
            0 => i as f64,
            1 => f64::from_bits(r.next()),
            2 => *r.pick(&[0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, 5e-324, f64::MAX, -1.5, f64::from_bits(0x7ff0000000000001), f64::from_bits(0xfff8dead0000beef)]),
            _ => r.range(-100, 100) as f64 * 0.1,
        })
        .collect()
}

fn gen_plan(r: &mut Rng, n: usize) -> Plan {
    let mut p = benign_plan(r, n * 8);
    match r.below(6) {
        0 => p.faults.push(soft_fault(r)),
        1 => p.faults.push(hard_fault(r, true, true)),
        2 if r.chance(1, 2) => {
            for _ in 0..2 {
                p.faults.push(hard_fault(r, true, true));
            }
        }
        _ => {}
    }
    p
}

/// What is known about a file
#[derive(Clone)]
enum FileState {
    Missing,
    Holds(Vec<f64>),
    Unknown,
}

fn crashy(p: &Plan) -> bool {
    p.faults.iter().any(|f| matches!(f.kind, Kind::CrashBefore | Kind::CrashPartial | Kind::CrashAfter))
}

impl Prop for C11 {
    type Case = C11Case;
    const ID: &'static str = "C11";
    const RUNS: (u64, u64) = (350_000, 8_000_000);
    const RULE: &'static str = "A history of appends, saves, bulk writes, reads, restarts and in-memory round trips on three files, with lengths around the 2048-sample block size and arbitrary bit patterns, under split and interrupted transfers, I/O errors and crashes, against a plain vector per file. A write that returned must read back bit for bit; a read returns exactly the samples or fails; without hard faults everything must succeed.";
    const REAL: &'static str = "wavbrro library (WavBrro, read, write) in process";
    fn gen(r: &mut Rng, thorough: bool) -> C11Case {
        let n = r.range(2, if thorough { 14 } else { 9 });
        let mut ops = vec![];
        let mut len = 0usize;
        for _ in 0..n {
            let f = r.below(3) as u8;
            ops.push(match r.below(16) {
                0 => {
                    len = 0;
                    Op11::New
                }
                1..=5 => {
                    let s = bits_series(r, 10300);
                    len += s.len();
                    Op11::Add(Series(s))
                }
                6..=8 => Op11::Save(f, gen_plan(r, len)),
                9 | 10 => {
                    let s = bits_series(r, 10300);
                    let p = gen_plan(r, s.len());
                    Op11::Bulk(f, Series(s), p)
                }
                11 | 12 => Op11::Read(f, gen_plan(r, 8000)),
                13 => Op11::Load(f, gen_plan(r, 8000)),
                14 => Op11::Bytes(r.chance(1, 2)),
                _ => Op11::Foreign(f, Blob::random(r, *r.clone().pick(&[4usize, 40, 4000, 120_000]))),
            });
        }
        C11Case { ops }
    }
    fn run(w: &mut World, c: &C11Case) -> Res {
        w.reset(&Disk::new());
        let mut model: Vec<f64> = vec![];
        let mut st = WavBrro::new();
        let mut files = vec![FileState::Missing, FileState::Missing, FileState::Missing];
        let names = ["a.wbro", "b.wbro", "c"];
        let mut ops = c.ops.clone();
        // whatever happened, every file with known content is read back at the end
        for f in 0..3 {
            ops.push(Op11::Read(f, Plan::default()));
        }
        for (step, op) in ops.iter().enumerate() {
            match op {
                Op11::New => {
                    model.clear();
                    st = WavBrro::new();
                }
                Op11::Add(s) => {
                    let before = st.clone();
                    match guarded(|| {
                        let mut x = before;
                        s.0.iter().for_each(|v| x.add_sample(*v));
                        x
                    }) {
                        Some(x) => st = x,
                        None => return bad("add-fails", format!("step {step}: adding {} samples to {} failed", s.0.len(), model.len())),
                    }
                    model.extend(&s.0);
                    if st.sample_count as usize != model.len() {
                        return bad("count", format!("step {step}: the store counts {} samples, {} were added", st.sample_count, model.len()));
                    }
                }
                Op11::Save(f, p) | Op11::Bulk(f, _, p) => {
                    let path = w.path(names[*f as usize]);
                    let (data, out) = match op {
                        Op11::Bulk(_, s, _) => (s.0.clone(), lib_attempt(w, p, || WavBrro::to_file_with_data(&path, &s.0))),
                        _ => (model.clone(), lib_attempt(w, p, || st.to_file(&path))),
                    };
                    files[*f as usize] = match (out.value.is_some(), out.crashed) {
                        (_, true) => FileState::Unknown,
                        (true, false) => FileState::Holds(data),
                        (false, false) => {
                            if p.is_benign() {
                                return bad("write-fails", format!("step {step}: writing {} samples failed although nothing worse than a split or interrupted transfer happened", data.len()));
                            }
                            FileState::Unknown
                        }
                    };
                    if out.crashed {
                        // the process is gone, and with it the store
                        model.clear();
                        st = WavBrro::new();
                    }
                }
                Op11::Read(f, p) | Op11::Load(f, p) => {
                    let path = w.path(names[*f as usize]);
                    let out = lib_attempt(w, p, || WavBrro::from_file(&path).ok());
                    let got = if out.crashed { None } else { out.value.flatten() };
                    match &files[*f as usize] {
                        FileState::Missing => {
                            if got.is_some() {
                                return bad("phantom", format!("step {step}: a file that was never written was read"));
                            }
                        }
                        FileState::Unknown => {}
                        FileState::Holds(v) => match &got {
                            Some(g) if !same_bits(v, g) => return bad("read-back", format!("step {step}: {}", first_diff(v, g))),
                            None if p.is_benign() => return bad("read-fails", format!("step {step}: a completely written file of {} samples cannot be read", v.len())),
                            _ => {}
                        },
                    }
                    if let Op11::Load(..) = op {
                        st = WavBrro::new();
                        model = match (&files[*f as usize], got) {
                            (FileState::Holds(_), Some(g)) => g,
                            _ => vec![],
                        };
                        model.iter().for_each(|v| st.add_sample(*v));
                    }
                    if out.crashed {
                        model.clear();
                        st = WavBrro::new();
                    }
                }
                Op11::Bytes(keep) => {
                    let r = guarded(|| {
                        let b = st.to_bytes();
                        WavBrro::from_bytes(b.as_slice())
                    });
                    match r {
                        None => return bad("bytes-fail", format!("step {step}: {} samples do not survive serialisation in memory", model.len())),
                        Some(x) => {
                            let g = x.clone().get_samples();
                            if !same_bits(&model, &g) {
                                return bad("bytes-differ", format!("step {step}: in memory, {}", first_diff(&model, &g)));
                            }
                            if *keep {
                                st = x;
                            }
                        }
                    }
                }
                Op11::Foreign(f, b) => {
                    w.put(names[*f as usize], &b.0);
                    files[*f as usize] = FileState::Unknown;
                }
            }
            w.note(model.len() as u64);
        }
        let g = st.get_samples();
        if !same_bits(&model, &g) {
            return bad("samples-differ", first_diff(&model, &g));
        }
        Ok(())
    }
    fn shrink(c: &C11Case) -> Vec<C11Case> {
        let mut out = vec![];
        for i in 0..c.ops.len() {
            let mut d = c.clone();
            d.ops.remove(i);
            out.push(d);
        }
        for i in 0..c.ops.len() {
            let mut put = |o: Op11| {
                let mut d = c.clone();
                d.ops[i] = o;
                out.push(d);
            };
            match &c.ops[i] {
                Op11::Add(s) => shrink_series(&s.0, 0).into_iter().take(30).for_each(|s| put(Op11::Add(Series(s)))),
                Op11::Bulk(f, s, p) => {
                    shrink_series(&s.0, 0).into_iter().take(30).for_each(|s| put(Op11::Bulk(*f, Series(s), p.clone())));
                    shrink_plan(p).into_iter().for_each(|p| put(Op11::Bulk(*f, s.clone(), p)));
                }
                Op11::Save(f, p) => shrink_plan(p).into_iter().for_each(|p| put(Op11::Save(*f, p))),
                Op11::Read(f, p) => shrink_plan(p).into_iter().for_each(|p| put(Op11::Read(*f, p))),
                Op11::Load(f, p) => shrink_plan(p).into_iter().for_each(|p| put(Op11::Load(*f, p))),
                Op11::Foreign(f, b) => b.shrink().into_iter().for_each(|b| put(Op11::Foreign(*f, b))),
                _ => {}
            }
        }
        out
    }
    fn label(c: &C11Case) -> String {
        let s: String = c
            .ops
            .iter()
            .map(|o| match o {
                Op11::New => "n".to_string(),
                Op11::Add(s) => format!("a{}", s.0.len()),
                Op11::Save(f, p) => format!("s{f}{}", if crashy(p) { "!" } else { "" }),
                Op11::Bulk(f, s, _) => format!("b{f}.{}", s.0.len()),
                Op11::Read(f, _) => format!("r{f}"),
                Op11::Load(f, _) => format!("l{f}"),
                Op11::Bytes(_) => "m".into(),
                Op11::Foreign(f, _) => format!("x{f}"),
            })
            .collect();
        format!("{}ops/{s}", c.ops.len())
    }
}

// ---------------------------------------------------------------- C17
#[derive(Clone, Serialize, Deserialize)]
pub struct C17Case {
    pub series: Series,
    /// Kind of WAV header: 0 plain PCM, 1 extensible, 2 with another chunk in front of the data, 3 with one behind it
    pub header: u8,
    pub rate: u32,
    pub before: Vec<Plan>,
    pub plan: Plan,
    pub stale: Option<Stale>,
    pub name: String,
    pub abs: bool,
    pub validate: bool,
}
pub struct C17;

fn wav(c: &C17Case) -> Vec<u8> {
    let v = &c.series.0;
    let mut body = vec![];
    body.extend(b"WAVEfmt ");
    body.extend(if c.header == 1 { 40u32 } else { 16 }.to_le_bytes());
    body.extend(if c.header == 1 { 0xfffeu16 } else { 1 }.to_le_bytes());
    body.extend(4u16.to_le_bytes());
    body.extend(c.rate.to_le_bytes());
    body.extend(c.rate.wrapping_mul(8).to_le_bytes());
    body.extend(8u16.to_le_bytes());
    body.extend(16u16.to_le_bytes());
    if c.header == 1 {
        body.extend(22u16.to_le_bytes());
        body.extend(16u16.to_le_bytes());
        body.extend(15u32.to_le_bytes());
        body.extend([1, 0, 0, 0, 0, 0, 0x10, 0, 0x80, 0, 0, 0xaa, 0, 0x38, 0x9b, 0x71]);
    }
    if c.header == 2 {
        body.extend(b"LIST");
        body.extend(6u32.to_le_bytes());
        body.extend(b"INFOxx");
    }
    body.extend(b"data");
    body.extend(((v.len() * 8) as u32).to_le_bytes());
    v.iter().for_each(|x| body.extend(x.to_bits().to_le_bytes()));
    if c.header == 3 {
        body.extend(b"LIST");
        body.extend(4u32.to_le_bytes());
        body.extend(b"INFO");
    }
    let mut b = b"RIFF".to_vec();
    b.extend((body.len() as u32).to_le_bytes());
    b.extend(body);
    b
}

impl Prop for C17 {
    type Case = C17Case;
    const ID: &'static str = "C17";
    const RUNS: (u64, u64) = (38_000, 1_500_000);
    const RULE: &'static str = "A four-channel 16-bit WAV file (plain or extensible header, extra chunks) holding arbitrary 64-bit patterns is converted under split and interrupted transfers, sometimes after attempts that crashed or failed and over left-over output; the WBRO file must hold the same bits in the same order without the not-a-number samples.";
    const REAL: &'static str = "wav2wbro tool run as a process; wavbrro library reads the result";
    fn gen(r: &mut Rng, thorough: bool) -> C17Case {
        let mut s = bits_series(r, if thorough || r.clone().chance(1, 2) { 10300 } else { 6200 });
        if r.chance(1, 1000) {
            // megabytes in one file
            let n = r.range(300_000, 1_300_000) as usize;
            let k = r.next();
            s = (0..n as u64).map(|i| f64::from_bits(i.wrapping_mul(k | 1))).collect();
        }
        if r.chance(1, 4) {
            let k = r.range(1, 4);
            for _ in 0..k {
                if !s.is_empty() {
                    let i = r.usize(s.len());
                    s[i] = *r.pick(&[f64::NAN, f64::from_bits(0xfff0000000000001), f64::INFINITY, f64::NEG_INFINITY]);
                }
            }
        }
        let n = s.len();
        let mut plan = benign_plan(r, n * 8);
        if r.chance(1, 3) {
            plan.faults.push(soft_fault(r));
        }
        let before = if r.chance(1, 4) {
            (0..r.range(1, 2))
                .map(|_| {
                    let mut p = benign_plan(r, n * 8);
                    p.faults.push(hard_fault(r, true, true));
                    p
                })
                .collect()
        } else {
            vec![]
        };
        let validate = !s.iter().any(|x| x.is_nan()) && r.chance(1, 6);
        C17Case {
            series: Series(s),
            header: r.below(4) as u8,
            rate: *r.pick(&[1u32, 8000, 44100, 0, 192000]),
            before,
            plan,
            stale: if r.chance(1, 4) { Some(Stale::gen(r, *r.clone().pick(&[100usize, 60_000]))) } else { None },
            name: r.pick(&["s.wav", "a.b.wav", "dir.wav/x.wav", "q/w.wav", "wav.wav", "sp ace.wav", "wavs/wave.wav", "s.wav.wav", "x.bwav.d/swavs.wav"]).to_string(),
            abs: r.chance(1, 3),
            validate,
        }
    }
    fn run(w: &mut World, c: &C17Case) -> Res {
        w.reset(&Disk::new());
        let bytes = wav(c);
        w.put(&c.name, &bytes);
        let out = format!("{}wbro", c.name.strip_suffix("wav").unwrap());
        let mut k = cmd(Tool::Wav, &[&if c.validate { strs(&["--validate"]) } else { vec![] }], &format!("@{}", c.name));
        k.abs = c.abs;
        if let Some(b) = &c.stale {
            let mut made = None;
            if b.edit != 0 {
                let clean = w.snapshot();
                w.exec(&k, &Plan::default());
                made = w.get(&out);
                w.reset(&clean);
            }
            w.put(&out, &b.of(made.as_deref()));
        }
        for p in &c.before {
            let x = attempt(w, &k, p);
            must_end(&x)?;
        }
        let x = attempt(w, &k, &c.plan);
        must_end(&x)?;
        if !x.ok() {
            return bad("conversion-fails", format!("converting {} samples (header kind {}) ended with {:?}", c.series.0.len(), c.header, x));
        }
        if w.get(&c.name).as_ref() != Some(&bytes) {
            return bad("input-changed", "the WAV file was changed");
        }
        let want: Vec<f64> = c.series.0.iter().copied().filter(|x| !x.is_nan()).collect();
        match get_wbro(w, &out) {
            None => bad("output-unreadable", format!("converting {} samples reported success without a readable WBRO file", c.series.0.len())),
            Some(g) if !same_bits(&want, &g) => bad("samples-differ", first_diff(&want, &g)),
            _ => Ok(()),
        }
    }
    fn shrink(c: &C17Case) -> Vec<C17Case> {
        let mut out = vec![];
        for i in 0..c.before.len() {
            let mut d = c.clone();
            d.before.remove(i);
            out.push(d);
        }
        for p in shrink_plan(&c.plan) {
            out.push(C17Case { plan: p, ..c.clone() });
        }
        if c.stale.is_some() {
            out.push(C17Case { stale: None, ..c.clone() });
        }
        if c.header != 0 {
            out.push(C17Case { header: 0, ..c.clone() });
        }
        if c.rate != 1 {
            out.push(C17Case { rate: 1, ..c.clone() });
        }
        if c.name != "s.wav" {
            out.push(C17Case { name: "s.wav".into(), ..c.clone() });
        }
        if c.abs {
            out.push(C17Case { abs: false, ..c.clone() });
        }
        if c.validate {
            out.push(C17Case { validate: false, ..c.clone() });
        }
        for s in shrink_series(&c.series.0, 0) {
            if !c.validate || !s.iter().any(|x| x.is_nan()) {
                out.push(C17Case { series: Series(s), ..c.clone() });
            }
        }
        for i in 0..c.before.len() {
            for p in shrink_plan(&c.before[i]) {
                let mut d = c.clone();
                d.before[i] = p;
                out.push(d);
            }
        }
        out
    }
    fn label(c: &C17Case) -> String {
        format!("h{}/{}/{}/{}", c.header, c.series.0.len(), c.before.len(), c.name)
    }
}
