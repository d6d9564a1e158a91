//! C09: a torn file is never mistaken for a complete one. C10: foreign and corrupted input is refused without damage.
use super::common::*;
use super::faulty::wav_bytes;
use crate::rng::Rng;
use crate::runner::*;
use crate::series::*;
use crate::sim::*;
use atsc::data::CompressedStream;
use serde::{Deserialize, Serialize};
use wavbrro::wavbrro::WavBrro;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Kind9 {
    /// .bro read by atsc -u
    Bro,
    /// .bro read by csv-compressor -u, with its intact index beside it
    Archive,
    /// .bro read through the library
    BroLib,
    /// .wbro read by atsc
    Wbro,
    /// .wbro read through the library
    WbroLib,
    /// .wav read by wav2wbro
    Wav,
}
/// Where writing stopped
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Cut {
    Start(u32),
    End(u32),
    Frac(u32),
    /// At a multiple of a block size of disks and buffers, or next to one
    Block(u32, u32, i8),
    /// Whatever a real writer leaves behind under this plan
    Writer(Plan),
    /// The writer finishes, then this much (of 65536) of the file survives a power loss
    Unsynced(u32),
}
#[derive(Clone, Serialize, Deserialize)]
pub struct C09Case {
    pub kind: Kind9,
    pub opts: Opts,
    pub series: Series,
    pub cuts: Vec<Cut>,
    pub plan: Plan,
    pub stale: Option<Blob>,
    pub abs: bool,
}
pub struct C09;

fn csv_of(v: &[f64]) -> String {
    let mut s = String::from("timestamp,value\n");
    for (i, x) in v.iter().enumerate() {
        s.push_str(&format!("{},{x:e}\n", (1_700_006_400 + i as i64 * 5) * 1000));
    }
    s
}

/// The command that writes the file in question, and the file
fn writer(w: &mut World, kind: Kind9, opts: &Opts, v: &[f64]) -> (Disk, Option<Cmd>, &'static str) {
    w.reset(&Disk::new());
    match kind {
        Kind9::Bro | Kind9::BroLib => {
            put_wbro(w, "s.wbro", v);
            (w.snapshot(), Some(cmd(Tool::Atsc, &[&opts.args()], "@s.wbro")), "s.bro")
        }
        Kind9::Archive => {
            w.put("s.csv", csv_of(v).as_bytes());
            (w.snapshot(), Some(cmd(Tool::Csvc, &[&opts.args(), &strs(&["--output-vsri"])], "@s.csv")), "s.bro")
        }
        // wav2wbro is a writer of WBRO files
        Kind9::Wbro | Kind9::WbroLib => {
            let f: Vec<f64> = v.iter().copied().filter(|x| !x.is_nan()).collect();
            w.put("s.wav", &wav_bytes(&f, 1));
            (w.snapshot(), Some(cmd(Tool::Wav, &[], "@s.wav")), "s.wbro")
        }
        Kind9::Wav => {
            w.put("s.wav", &wav_bytes(v, 1));
            (w.snapshot(), None, "s.wav")
        }
    }
}

/// What reading `data` as a complete file gives: None if it is refused (or fails), else a description
fn lib_read(w: &mut World, kind: Kind9, plan: &Plan, data: &[u8]) -> Option<usize> {
    w.reset(&Disk::new());
    if kind == Kind9::WbroLib {
        w.put("t.wbro", data);
        let p = w.path("t.wbro");
        let r = w.lib(plan, &[], || WavBrro::from_file(&p).ok().map(|v| v.len()));
        r.value.flatten()
    } else {
        w.put("t.bro", data);
        let p = w.path("t.bro");
        let r = w.lib(plan, &[], || {
            let b = atsc::utils::readers::bro_reader::read_file(&p).ok().flatten()?;
            Some(CompressedStream::from_bytes(&b).decompress().len())
        });
        r.value.flatten()
    }
}

impl Prop for C09 {
    type Case = C09Case;
    const ID: &'static str = "C09";
    const RUNS: (u64, u64) = (17_000, 900_000);
    const RULE: &'static str = "A .bro, .wbro or .wav file is torn at several points: by crashing or starving the real writer at an arbitrary I/O call, by losing un-synced data, and at lengths around every field boundary; each torn file is then given to the real reader (atsc, atsc -u, csv-compressor -u, wav2wbro, library), which must fail and change nothing; the complete file must be accepted.";
    const REAL: &'static str = "atsc, csv-compressor and wav2wbro tools as processes, WavBrro::from_file and CompressedStream in process";
    const ASSUMPTIONS: &'static [&'static str] = &["Series whose sample bit patterns spell out a valid WBRO trailer inside the data are not generated (the WBRO format has no length or checksum that could tell such a prefix apart)."];
    fn gen(r: &mut Rng, thorough: bool) -> C09Case {
        let kind = *r.pick(&[Kind9::Bro, Kind9::Bro, Kind9::Archive, Kind9::BroLib, Kind9::Wbro, Kind9::WbroLib, Kind9::WbroLib, Kind9::Wav]);
        let mut opts = Opts::gen(r);
        if opts.compressor == "rle" && kind == Kind9::Archive {
            opts.compressor = "auto".into();
        }
        let lib = matches!(kind, Kind9::BroLib | Kind9::WbroLib);
        let max = if opts.compressor == "idw" { 200 } else { *r.pick(&[4, 20, 200, 1100, 2500, 5000]) };
        let mut series = small_series(r, max).0;
        if opts.compressor != "idw" && r.chance(1, 150) {
            let cfg = LenCfg { max: 140_000, huge: 500, allow_empty: false };
            series = gen_series(r, &cfg).0;
            series.iter_mut().for_each(|x| *x = x.clamp(-1e30, 1e30));
        }
        let n = if lib { r.range(4, 30) } else { r.range(1, if thorough { 5 } else { 3 }) };
        let cuts = (0..n)
            .map(|_| match r.below(10) {
                0 | 1 => Cut::Start(*r.pick(&[0u32, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 13, 15, 16, 19, 20, 28, 35, 36, 40, 43, 44, 45, 52])),
                2 | 3 => Cut::End(*r.pick(&[1u32, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 24, 32, 40, 64])),
                4 => Cut::Frac(r.below(65536) as u32),
                5 => Cut::Block(*r.pick(&[512u32, 4096, 8192, 16_384, 65_536]), r.below(64) as u32, *r.pick(&[0i8, 0, 0, -1, 1, 8, -8])),
                6 => Cut::Unsynced(r.below(65536) as u32),
                _ => {
                    let mut p = benign_plan(r, series.len() * 8);
                    p.faults.push(match r.below(4) {
                        0 => fault_sel(r, Class::Write, Kind::Err(ENOSPC)),
                        1 => fault_sel(r, Class::Write, Kind::CrashBefore),
                        2 => fault_sel(r, Class::Write, Kind::CrashAfter),
                        _ => fault_sel(r, Class::Write, Kind::CrashPartial),
                    });
                    Cut::Writer(p)
                }
            })
            .collect();
        C09Case {
            plan: benign_plan(r, series.len() * 8),
            series: Series(series),
            kind,
            opts,
            cuts,
            stale: if r.chance(1, 2) { Some(Blob::random(r, 300)) } else { None },
            abs: r.chance(1, 3),
        }
    }
    fn run(w: &mut World, c: &C09Case) -> Res {
        let (start, wcmd, file) = writer(w, c.kind, &c.opts, &c.series.0);
        if let Some(k) = &wcmd {
            let x = w.exec(k, &Plan::default());
            must_end(&x)?;
            if !x.ok() {
                return Ok(());
            }
        }
        let Some(full) = w.get(file) else { return Ok(()) };
        let index = w.get("s.vsri");
        let lib = matches!(c.kind, Kind9::BroLib | Kind9::WbroLib);
        // positive control, and the disk a reader starts from
        let (tool, args, name, outs): (Tool, Vec<String>, &str, &[&str]) = match c.kind {
            Kind9::Bro => (Tool::Atsc, strs(&["-u"]), "t.bro", &["t.wbro"]),
            Kind9::Archive => (Tool::Csvc, strs(&["-u"]), "t.bro", &["t.wbro", "t.csv"]),
            Kind9::Wbro => (Tool::Atsc, c.opts.args(), "t.wbro", &["t.bro"]),
            Kind9::Wav => (Tool::Wav, vec![], "t.wav", &["t.wbro"]),
            _ => (Tool::Atsc, vec![], "", &[]),
        };
        let mut k = cmd(tool, &[&args], &format!("@{name}"));
        k.abs = c.abs;
        if lib {
            if lib_read(w, c.kind, &c.plan, &full).is_none() {
                return bad("complete-refused", format!("the complete file of {} samples ({:?}) is refused", c.series.0.len(), c.kind));
            }
        } else {
            w.reset(&Disk::new());
            w.put(name, &full);
            if let Some(i) = &index {
                w.put("t.vsri", i);
            }
            let x = w.exec(&k, &c.plan);
            must_end(&x)?;
            if !x.ok() || w.get(outs[0]).is_none() {
                return bad("complete-refused", format!("the complete file of {} samples ({:?}) ended with {:?}", c.series.0.len(), c.kind, x));
            }
        }
        for cut in &c.cuts {
            let len = full.len();
            let torn: Vec<u8> = match cut {
                Cut::Start(n) => full[..(*n as usize).min(len)].to_vec(),
                Cut::End(n) => full[..len.saturating_sub(*n as usize)].to_vec(),
                Cut::Frac(f) | Cut::Unsynced(f) => full[..(len as u64 * *f as u64 >> 16) as usize].to_vec(),
                Cut::Block(b, k, d) => {
                    let m = (len as i64 / *b as i64).max(1);
                    let at = (*k as i64 % m + 1) * *b as i64 + *d as i64;
                    full[..at.clamp(0, len as i64) as usize].to_vec()
                }
                Cut::Writer(p) => match &wcmd {
                    Some(k) => {
                        w.reset(&start);
                        let x = attempt(w, k, p);
                        must_end(&x)?;
                        match w.get(file) {
                            Some(d) => d,
                            None => continue,
                        }
                    }
                    None => match p.faults.first() {
                        Some(f) => full[..(len as u64 * f.frac as u64 >> 16) as usize].to_vec(),
                        None => continue,
                    },
                },
            };
            // only strict prefixes are torn files
            if torn.len() >= len || full[..torn.len()] != torn[..] {
                continue;
            }
            let how = format!("{} of {} bytes ({:?}, {} samples, {} -e {})", torn.len(), len, c.kind, c.series.0.len(), c.opts.compressor, c.opts.error);
            w.fired += 1;
            w.note(torn.len() as u64);
            if lib {
                if let Some(n) = lib_read(w, c.kind, &c.plan, &torn) {
                    return bad("torn-accepted", format!("{how}: read as {n} samples"));
                }
                continue;
            }
            w.reset(&Disk::new());
            w.put(name, &torn);
            if let Some(i) = &index {
                w.put("t.vsri", i);
            }
            if let Some(b) = &c.stale {
                for o in outs {
                    w.put(o, &b.0);
                }
            }
            let before = w.snapshot();
            let x = w.exec(&k, &c.plan);
            must_end(&x)?;
            if let Some(d) = diff_disks(&before, &w.snapshot()) {
                return bad("torn-output", format!("{how}: ended with {x:?} and {d}"));
            }
            if x.ok() {
                return bad("torn-success", format!("{how}: success is reported"));
            }
        }
        Ok(())
    }
    fn shrink(c: &C09Case) -> Vec<C09Case> {
        let mut out = vec![];
        for i in 0..c.cuts.len() {
            let mut d = c.clone();
            d.cuts.remove(i);
            out.push(d);
        }
        for p in shrink_plan(&c.plan) {
            out.push(C09Case { plan: p, ..c.clone() });
        }
        if c.stale.is_some() {
            out.push(C09Case { stale: None, ..c.clone() });
        }
        if c.abs {
            out.push(C09Case { abs: false, ..c.clone() });
        }
        for o in c.opts.shrink() {
            out.push(C09Case { opts: o, ..c.clone() });
        }
        for s in shrink_series(&c.series.0, 0).into_iter().take(60) {
            out.push(C09Case { series: Series(s), ..c.clone() });
        }
        for i in 0..c.cuts.len() {
            if let Cut::Writer(p) = &c.cuts[i] {
                for q in shrink_plan(p) {
                    let mut d = c.clone();
                    d.cuts[i] = Cut::Writer(q);
                    out.push(d);
                }
            }
        }
        out
    }
    fn label(c: &C09Case) -> String {
        format!("{:?}/{}/{}/{}", c.kind, c.opts.compressor, c.series.0.len(), c.cuts.len())
    }
}

// ---------------------------------------------------------------- C10
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Reader {
    /// atsc -u on .bro
    Bro,
    /// csv-compressor -u on .bro and .vsri
    Archive,
    /// atsc on .wbro
    Wbro,
    /// wav2wbro on .wav
    Wav,
    /// csv-compressor on .csv
    Csv,
    /// atsc --csv on .csv
    AtscCsv,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Hit {
    /// Overwrite one byte at a position (of 65536 of the length, or near either end)
    Byte(u32, u8),
    At(u32, u8),
    Tail(u32, u8),
    Flip(u32, u8),
    Insert(u32, Blob),
    Remove(u32, u32),
    Repeat(u32, u32),
    Fill(u32, u32, u8),
    Swap(u32, u32, u32),
}
impl Hit {
    pub fn gen(r: &mut Rng) -> Hit {
        let p = r.below(65536) as u32;
        let interesting = *r.pick(&[0u8, 1, 2, 0x7f, 0x80, 0xfa, 0xfb, 0xfc, 0xfd, 0xfe, 0xff, 10, 44, 45, 46, 34]);
        let b = if r.chance(1, 2) { interesting } else { r.next() as u8 };
        match r.below(12) {
            0..=1 => Hit::Byte(p, b),
            2..=4 => Hit::At(r.below(48) as u32, b),
            5 => Hit::Tail(r.below(40) as u32, b),
            6 | 7 => Hit::Flip(p, 1 << r.below(8)),
            8 => Hit::Insert(p, Blob::random(r, 12)),
            9 => Hit::Remove(p, r.range(1, 20) as u32),
            10 => {
                if r.chance(1, 2) {
                    Hit::Repeat(p, r.range(1, 40) as u32)
                } else {
                    Hit::Swap(p, r.below(65536) as u32, r.range(1, 16) as u32)
                }
            }
            _ => Hit::Fill(p, r.range(1, 64) as u32, *r.pick(&[0u8, 0xff, 0xfb])),
        }
    }
    pub fn apply(&self, d: &mut Vec<u8>) {
        let n = d.len();
        let at = |p: u32| (n as u64 * p as u64 >> 16) as usize;
        match self {
            Hit::Byte(p, b) if n > 0 => d[at(*p)] = *b,
            Hit::At(p, b) if (*p as usize) < n => d[*p as usize] = *b,
            Hit::Tail(p, b) if (*p as usize) < n => d[n - 1 - *p as usize] = *b,
            Hit::Flip(p, b) if n > 0 => d[at(*p)] ^= *b,
            Hit::Insert(p, b) => {
                let i = at(*p);
                d.splice(i..i, b.0.iter().copied());
            }
            Hit::Remove(p, l) => {
                let i = at(*p);
                d.drain(i..(i + *l as usize).min(n));
            }
            Hit::Repeat(p, l) => {
                let i = at(*p);
                let x: Vec<u8> = d[i..(i + *l as usize).min(n)].to_vec();
                d.splice(i..i, x);
            }
            Hit::Fill(p, l, b) => {
                let i = at(*p);
                d[i..(i + *l as usize).min(n)].fill(*b);
            }
            Hit::Swap(p, q, l) => {
                let (i, j) = (at(*p), at(*q));
                for k in 0..*l as usize {
                    if i + k < n && j + k < n {
                        d.swap(i + k, j + k);
                    }
                }
            }
            _ => {}
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Damage {
    /// Format version
    Version(u32),
    /// A byte of the signature gets another value
    Signature(u8, u8),
    Hits(Vec<Hit>),
    /// A perfectly valid file of another kind: .bro, .wbro, .wav, .csv, .vsri
    Kind(u8),
    /// Something else altogether; the flag keeps the first bytes of the real file
    Foreign(Blob, u8),
    /// The index (archive reader only): lost, damaged, or of another archive
    Index(Option<Vec<Hit>>),
    OtherIndex(u32),
    /// Lines of a table: replaced by text
    Line(u32, String),
    /// Two lines of a table change places
    SwapLines(u32, u32),
}
#[derive(Clone, Serialize, Deserialize)]
pub struct C10Case {
    pub reader: Reader,
    pub opts: Opts,
    pub series: Series,
    pub damage: Damage,
    pub plan: Plan,
    pub stale: Option<Blob>,
    pub abs: bool,
    pub flags: u8,
}
pub struct C10;

impl Prop for C10 {
    type Case = C10Case;
    const ID: &'static str = "C10";
    const RUNS: (u64, u64) = (58_000, 2_000_000);
    const RULE: &'static str = "A real .bro, .wbro, .wav, .vsri or .csv file gets another version number, another signature, arbitrary byte damage or wholly foreign content and is given to the command that reads it, with and without existing outputs and under split and interrupted transfers. Newer versions must fail, older ones must be accepted with the same result, bad signatures must never yield output, and no failure may change or create any file.";
    const REAL: &'static str = "atsc, csv-compressor and wav2wbro tools run as processes";
    const ASSUMPTIONS: &'static [&'static str] = &["A command that exceeds 2 s on corrupted input (for example a corrupted sample count) is inconclusive.", "The converter's --validate option, which reports after writing, is not used."];
    fn gen(r: &mut Rng, _thorough: bool) -> C10Case {
        let reader = *r.pick(&[Reader::Bro, Reader::Bro, Reader::Bro, Reader::Archive, Reader::Archive, Reader::Wbro, Reader::Wbro, Reader::Wav, Reader::Csv, Reader::AtscCsv]);
        let mut opts = Opts::gen(r);
        if opts.compressor == "rle" && matches!(reader, Reader::Archive | Reader::Csv) {
            opts.compressor = "auto".into();
        }
        let max = if opts.compressor == "idw" { 150 } else { *r.pick(&[3, 20, 200, 1100, 2500]) };
        let mut series = small_series(r, max).0;
        if matches!(reader, Reader::Csv | Reader::AtscCsv | Reader::Archive) {
            series.truncate(600);
        }
        let hits = |r: &mut Rng| (0..if r.chance(1, 2) { 1 } else { r.range(1, 6) }).map(|_| Hit::gen(r)).collect::<Vec<_>>();
        let damage = match reader {
            Reader::Csv | Reader::AtscCsv => match r.below(6) {
                0 | 1 => Damage::Hits(hits(r)),
                2 => Damage::SwapLines(r.below(65536) as u32, r.below(65536) as u32),
                3 => Damage::Foreign(Blob::random(r, 200), 0),
                _ => Damage::Line(
                    r.below(65536) as u32,
                    r.pick(&["", "1", "1,2,3", "x,1", "1700006400000,abc", ",", "1700006400000,", ",3", "\"", "9999999999999999999,1", "-1,1", "253402300800000,1", "1700006400000,nan", "1700006400000,inf", "1700006400000,1e999", "timestamp,value", "time,valu", "value,timestamp", "\u{0}", "1700006400000;1", "9223372036854775807,1", "-9223372036854775808,1"])
                        .to_string(),
                ),
            },
            Reader::Archive if r.chance(1, 2) => match r.below(4) {
                0 => Damage::Index(None),
                1 => Damage::OtherIndex(r.range(0, 40) as u32),
                _ => Damage::Index(Some(hits(r))),
            },
            _ => match r.below(10) {
                0 | 1 if reader != Reader::Wav && reader != Reader::Wbro => {
                    Damage::Version(*r.pick(&[0u32, 1, 2, 2, 3, 9, 255, 256, 257, 65536, 0x01000000, 0x01000001, 0x80000000, 0x80000001, u32::MAX, u32::MAX - 1]))
                }
                0..=2 => Damage::Signature(r.below(8) as u8, if r.chance(1, 3) { *r.pick(&[b'b', b'r', b'o', b'w', b'0', 0, b'O', b'W', b'R', b'B', b' ']) } else { r.next() as u8 }),
                3 if r.chance(1, 3) => Damage::Kind(r.below(5) as u8),
                3 => {
                    let keep = r.below(14) as u8;
                    Damage::Foreign(Blob::random(r, *r.clone().pick(&[0usize, 3, 5, 12, 40, 400])), keep)
                }
                _ => Damage::Hits(hits(r)),
            },
        };
        C10Case {
            plan: benign_plan(r, series.len() * 8),
            series: Series(series),
            reader,
            opts,
            damage,
            stale: if r.chance(1, 2) { Some(Blob::random(r, 300)) } else { None },
            abs: r.chance(1, 3),
            flags: r.below(8) as u8,
        }
    }
    fn run(w: &mut World, c: &C10Case) -> Res {
        w.limit_ms = 2000;
        let v = &c.series.0;
        let plain = Plan::default();
        // a healthy file first
        let mut index = None;
        w.reset(&Disk::new());
        let mut good = match c.reader {
            Reader::Bro => {
                put_wbro(w, "s.wbro", v);
                let x = w.exec(&cmd(Tool::Atsc, &[&c.opts.args()], "@s.wbro"), &plain);
                inconclusive_if_timeout(&x)?;
                if !x.ok() {
                    return Ok(());
                }
                w.get("s.bro").unwrap_or_default()
            }
            Reader::Archive => {
                w.put("s.csv", csv_of(v).as_bytes());
                let x = w.exec(&cmd(Tool::Csvc, &[&c.opts.args(), &strs(&["--output-vsri"])], "@s.csv"), &plain);
                inconclusive_if_timeout(&x)?;
                if !x.ok() {
                    return Ok(());
                }
                index = w.get("s.vsri");
                w.get("s.bro").unwrap_or_default()
            }
            Reader::Wbro => {
                put_wbro(w, "s.wbro", v);
                w.get("s.wbro").unwrap()
            }
            Reader::Wav => wav_bytes(v, 7),
            Reader::Csv | Reader::AtscCsv => csv_of(v).into_bytes(),
        };
        let (tool, mut args, name, outs): (Tool, Vec<String>, &str, &[&str]) = match c.reader {
            Reader::Bro => (Tool::Atsc, strs(&["-u"]), "t.bro", &["t.wbro"]),
            Reader::Archive => (Tool::Csvc, strs(&["-u"]), "t.bro", &["t.wbro", "t.csv"]),
            Reader::Wbro => (Tool::Atsc, c.opts.args(), "t.wbro", &["t.bro"]),
            Reader::Wav => (Tool::Wav, vec![], "t.wav", &["t.wbro"]),
            Reader::Csv => (Tool::Csvc, c.opts.args(), "t.csv", &["t.bro", "t.vsri", "t.wavbro"]),
            Reader::AtscCsv => (Tool::Atsc, [c.opts.args(), strs(&["--csv", "--fields=timestamp,value"])].concat(), "t.csv", &["t.bro"]),
        };
        if c.reader == Reader::Csv {
            for (i, f) in ["--output-vsri", "--output-wavbrro", "--no-compression"].iter().enumerate() {
                if c.flags & (1 << i) != 0 {
                    args.push(f.to_string());
                }
            }
        }
        let mut k = cmd(tool, &[&args], &format!("@{name}"));
        k.abs = c.abs;
        // what the undamaged file gives
        let expect = if let Damage::Version(0..=1) = c.damage {
            w.reset(&Disk::new());
            w.put(name, &good);
            if let Some(i) = &index {
                w.put("t.vsri", i);
            }
            let x = w.exec(&k, &plain);
            inconclusive_if_timeout(&x)?;
            if !x.ok() {
                return Ok(());
            }
            Some(w.snapshot())
        } else {
            None
        };
        let mut must_fail = false;
        let mut no_output = false;
        let whole = good.clone();
        match &c.damage {
            Damage::Version(n) => {
                if good.len() < 8 {
                    return Ok(());
                }
                good[4..8].copy_from_slice(&n.to_le_bytes());
                must_fail = *n > 1;
            }
            Damage::Signature(i, b) => {
                // WBRO and RIFF/WAVE signatures sit in bytes 0..4 and 8..12
                let i = *i as usize;
                let pos = match c.reader {
                    Reader::Bro | Reader::Archive => i % 4,
                    _ => {
                        if i < 4 {
                            i
                        } else {
                            i + 4
                        }
                    }
                };
                if pos >= good.len() || good[pos] == *b {
                    return Ok(());
                }
                good[pos] = *b;
                no_output = true;
            }
            Damage::Hits(h) => h.iter().for_each(|h| h.apply(&mut good)),
            Damage::Kind(n) => {
                good = match n {
                    0 => {
                        let made = guarded(|| {
                            let mut cs = CompressedStream::new();
                            cs.compress_chunk(if v.is_empty() { &[1.0] } else { &v[..v.len().min(500)] });
                            cs.to_bytes()
                        });
                        match made {
                            Some(b) => b,
                            None => return Ok(()),
                        }
                    }
                    1 => {
                        put_wbro(w, "k.wbro", v);
                        w.get("k.wbro").unwrap()
                    }
                    2 => wav_bytes(v, 7),
                    3 => csv_of(v).into_bytes(),
                    _ => b"7\n107\n5,0,7,21\n".to_vec(),
                };
                no_output = match c.reader {
                    Reader::Bro | Reader::Archive => *n != 0,
                    Reader::Wbro => *n != 1,
                    Reader::Wav => *n != 2,
                    _ => false,
                };
            }
            Damage::Foreign(b, keep) => {
                good.truncate(*keep as usize);
                good.extend(&b.0);
            }
            Damage::Index(None) => index = None,
            Damage::Index(Some(h)) => {
                if let Some(i) = &mut index {
                    h.iter().for_each(|h| h.apply(i));
                }
            }
            Damage::OtherIndex(n) => {
                index = Some(if *n == 0 { b"0\n0\n".to_vec() } else { format!("7\n{}\n5,0,7,{}\n", 7 + 5 * (n - 1), n).into_bytes() });
            }
            Damage::Line(p, t) => {
                let mut l: Vec<String> = String::from_utf8_lossy(&good).lines().map(|s| s.to_string()).collect();
                let i = (l.len() as u64 * *p as u64 >> 16) as usize;
                l[i] = t.clone();
                good = (l.join("\n") + "\n").into_bytes();
            }
            Damage::SwapLines(p, q) => {
                let mut l: Vec<String> = String::from_utf8_lossy(&good).lines().map(|s| s.to_string()).collect();
                let n = l.len() as u64;
                l.swap((n * *p as u64 >> 16) as usize, (n * *q as u64 >> 16) as usize);
                good = (l.join("\n") + "\n").into_bytes();
            }
        }
        // the first bytes decide what counts as the expected signature
        let signed = match c.reader {
            Reader::Bro | Reader::Archive => good.starts_with(b"BRRO"),
            Reader::Wbro => good.len() >= 12 && good.starts_with(b"WBRO") && &good[8..12] == b"WBRO",
            Reader::Wav => good.len() >= 12 && good.starts_with(b"RIFF") && &good[8..12] == b"WAVE",
            _ => true,
        };
        no_output |= !signed;
        if matches!(c.reader, Reader::Bro | Reader::Archive) && signed && good.len() >= 8 {
            must_fail |= u32::from_le_bytes(good[4..8].try_into().unwrap()) > 1;
        }
        w.reset(&Disk::new());
        w.put(name, &good);
        if let Some(i) = &index {
            w.put("t.vsri", i);
        }
        if let Some(b) = &c.stale {
            for o in outs {
                w.put(o, &b.0);
            }
        }
        w.put("bystander.bro", b"BRRO");
        let before = w.snapshot();
        if good != whole || matches!(c.damage, Damage::Index(_) | Damage::OtherIndex(_)) {
            w.fired += 1;
        }
        let x = w.exec(&k, &c.plan);
        let real_io_error = w.last_trace.evs.iter().any(|e| e.err != 0 && e.err != 4);
        inconclusive_if_timeout(&x)?;
        if real_io_error && !x.ok() {
            // a missing index shows up as ENOENT and is part of the story; anything else is this machine's trouble
            if w.last_trace.evs.iter().any(|e| e.err != 0 && e.err != 4 && e.err != 2) {
                return Err(Verdict::Inconclusive("the scratch disk itself failed".into()));
            }
        }
        let after = w.snapshot();
        let what = format!("{:?} of {} bytes with {}", c.reader, good.len(), short(&c.damage));
        if let Some(d) = diff_disks(&before, &after) {
            if no_output {
                return bad("foreign-output", format!("{what}: no signature, yet {d}"));
            }
            if must_fail {
                return bad("newer-output", format!("{what}: newer version, yet {d}"));
            }
            if !x.ok() {
                return bad("damage-on-failure", format!("{what}: ended with {x:?}, yet {d}"));
            }
        }
        if must_fail && x.ok() {
            return bad("newer-accepted", format!("{what}: a newer version is reported as a success"));
        }
        if matches!(c.reader, Reader::Bro | Reader::Archive) && (!signed || must_fail) && guarded(|| CompressedStream::from_bytes(&good)).is_some() {
            return bad("library-accepts", format!("{what}: read as a compressed stream"));
        }
        if let Some(e) = expect {
            if !x.ok() {
                return bad("older-refused", format!("{what}: version 0 or 1 ended with {x:?}"));
            }
            for o in outs {
                if after.get(*o) != e.get(*o) {
                    return bad("older-differs", format!("{what}: other output than the same data in the current version"));
                }
            }
        }
        Ok(())
    }
    fn shrink(c: &C10Case) -> Vec<C10Case> {
        let mut out = vec![];
        for p in shrink_plan(&c.plan) {
            out.push(C10Case { plan: p, ..c.clone() });
        }
        let mut dm = |d: Damage| out.push(C10Case { damage: d, ..c.clone() });
        match &c.damage {
            Damage::Hits(h) | Damage::Index(Some(h)) => {
                for i in 0..h.len() {
                    let mut h = h.clone();
                    h.remove(i);
                    dm(if let Damage::Hits(_) = c.damage { Damage::Hits(h) } else { Damage::Index(Some(h)) });
                }
            }
            Damage::Foreign(b, k) => {
                for b in b.shrink() {
                    dm(Damage::Foreign(b, *k));
                }
                if *k > 0 {
                    dm(Damage::Foreign(b.clone(), k - 1));
                }
            }
            _ => {}
        }
        if let Some(b) = &c.stale {
            out.push(C10Case { stale: None, ..c.clone() });
            for b in b.shrink() {
                out.push(C10Case { stale: Some(b), ..c.clone() });
            }
        }
        if c.abs {
            out.push(C10Case { abs: false, ..c.clone() });
        }
        if c.flags > 0 {
            for i in 0..3 {
                out.push(C10Case { flags: c.flags & !(1 << i), ..c.clone() });
            }
        }
        for o in c.opts.shrink() {
            out.push(C10Case { opts: o, ..c.clone() });
        }
        for s in shrink_series(&c.series.0, 0).into_iter().take(60) {
            out.push(C10Case { series: Series(s), ..c.clone() });
        }
        out
    }
    fn label(c: &C10Case) -> String {
        format!("{:?}/{}/{}/{}", c.reader, c.opts.compressor, short(&c.damage), c.series.0.len())
    }
}

fn short(d: &Damage) -> String {
    let s = format!("{d:?}");
    s.chars().take(120).collect()
}
