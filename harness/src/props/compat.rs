//! C22: what earlier builds wrote stays readable.  A corpus of files written by earlier builds (the one this work started
//! from and the repaired one) stands for the old nodes of a deployment that is upgraded; the current build reads them.
use super::common::*;
use super::csvp::read_table;
use super::index::{gen_times, Times};
use crate::node::{describe, index_of};
use crate::rng::{mix, Rng};
use crate::runner::*;
use crate::series::*;
use crate::sim::*;
use atsc::compressor::Compressor;
use atsc::data::CompressedStream;
use serde::{Deserialize, Serialize};
use std::sync::OnceLock;
use vsri::Vsri;
use wavbrro::wavbrro::WavBrro;

#[derive(Clone, Serialize, Deserialize)]
pub struct Old {
    /// Which build wrote it
    by: String,
    /// "bro", "archive" or "wbro"
    kind: String,
    opts: Opts,
    /// The .bro or .wbro file
    file: Blob,
    /// The index and what it says (archive)
    index: String,
    said: String,
    times: Times,
    /// The samples it holds: exactly, if the mode is lossless
    samples: Series,
    exact: bool,
}
impl Old {
    fn samples(&self) -> Vec<f64> {
        self.samples.0.clone()
    }
}

fn corpus() -> &'static [Old] {
    static C: OnceLock<Vec<Old>> = OnceLock::new();
    C.get_or_init(|| include_str!("../../old-files.jsonl").lines().map(|l| serde_json::from_str(l).expect("corpus")).collect())
}

/// Writes a corpus with the programs in VSIM_BINS: one JSON line per file
pub fn make(w: &mut World, by: &str, n: u64) {
    let mut i = 0;
    let mut done = 0;
    let mut large = 0;
    // first every compressor on the lengths at which something changes, then anything
    let lens = [1usize, 2, 3, 4, 5, 9, 99, 100, 101, 127, 128, 129, 199, 243, 255, 256, 257, 300, 511, 512, 513];
    let all = ["fft", "polynomial", "idw", "rle", "noop", "auto"];
    while done < n {
        i += 1;
        let mut r = Rng::new(mix(i * 7919 + by.bytes().fold(0, |h: u64, b| h * 31 + b as u64)));
        let kind = *r.pick(&["bro", "bro", "bro", "bro", "archive", "archive", "wbro"]);
        let mut opts = Opts::gen(&mut r);
        let max = if opts.compressor == "idw" { 60 } else { *r.pick(&[1, 4, 20, 80, 80, 300, 600]) };
        let mut s = small_series(&mut r, max).0;
        if opts.compressor != "idw" && r.chance(1, 4) {
            let n = *r.pick(&[127, 128, 129, 255, 256, 257, 511, 512, 513, 1025]);
            s = series_of(&mut r, n);
        }
        if opts.compressor != "idw" && r.chance(if kind == "wbro" { 3 } else { 1 }, 12) {
            let n = *r.pick(&[2047, 2048, 2049, 3000, 4096, 4097, 5000]);
            s = series_of(&mut r, n);
        } else if opts.compressor != "idw" && r.chance(1, 40) {
            s = small_series(&mut r, 40).0.into_iter().flat_map(|x| vec![x; 2500]).collect();
        }
        let mut kind = kind;
        let k = (i - 1) as usize;
        if k < all.len() * lens.len() {
            kind = "bro";
            let n = lens[k / all.len()];
            opts.compressor = all[k % all.len()].into();
            opts.error = 5;
            s = (0..n).map(|i| ((100.0 + 50.0 * (i as f64 / 7.0 + k as f64).sin() + 20.0 * (i as f64 / 3.1).sin()) * 1000.0).round() / 1000.0).collect();
            if opts.compressor == "rle" {
                s.iter_mut().for_each(|x| *x = (*x / 20.0).round() * 1.5);
            }
        }
        if s.is_empty() {
            continue;
        }
        if opts.compressor == "constant" {
            let x = s[0];
            s.iter_mut().for_each(|y| *y = x);
        }
        if opts.compressor == "noop" {
            s.iter_mut().for_each(|y| *y = y.round().clamp(-9007199254740992.0, 9007199254740992.0));
        }
        let mut times = vec![];
        w.reset(&Disk::new());
        let file = match kind {
            "wbro" => {
                // through the real writer of such files
                opts.compressor = "rle".into();
                w.put("s.wav", &super::faulty::wav_bytes(&s, 1));
                w.exec(&cmd(Tool::Wav, &[], "@s.wav"), &Plan::default());
                w.get("s.wbro")
            }
            "archive" => {
                if opts.compressor == "rle" {
                    continue;
                }
                times = gen_times(&mut r, true, s.len());
                if times.len() < s.len() {
                    s.truncate(times.len());
                }
                if s.is_empty() {
                    continue;
                }
                let mut t = String::from("timestamp,value\n");
                for (y, x) in times.iter().zip(&s) {
                    t.push_str(&format!("{},{x:e}\n", (1_700_006_400i64 + *y as i64) * 1000));
                }
                w.put("s.csv", t.as_bytes());
                w.exec(&cmd(Tool::Csvc, &[&opts.args(), &strs(&["--output-vsri"])], "@s.csv"), &Plan::default());
                w.get("s.bro")
            }
            _ => {
                let mut t = String::from("time,value\n");
                for (i, x) in s.iter().enumerate() {
                    t.push_str(&format!("{i},{x:e}\n"));
                }
                w.put("s.csv", t.as_bytes());
                w.exec(&cmd(Tool::Atsc, &[&strs(&["--csv"]), &opts.args()], "@s.csv"), &Plan::default());
                w.get("s.bro")
            }
        };
        let Some(file) = file else { continue };
        let index = String::from_utf8(w.get("s.vsri").unwrap_or_default()).unwrap();
        let vp = w.path("s.vsri");
        let said = if kind == "archive" {
            match Vsri::load(vp.to_str().unwrap()) {
                Ok(v) => describe(&v),
                Err(_) => continue,
            }
        } else {
            String::new()
        };
        // what it is read as by the build that makes the corpus
        let out = if kind == "wbro" { get_wbro(w, "s.wbro") } else { guarded(|| CompressedStream::from_bytes(&file).decompress()) };
        let Some(out) = out else { continue };
        let exact = same_bits(&out, &s);
        if out.len() != s.len() || (kind == "archive" && said != describe(&index_of(&times, "x"))) {
            continue; // an earlier build got it wrong: not a reference for anything
        }
        let o = Old {
            by: by.into(),
            kind: kind.into(),
            opts,
            file: Blob(file),
            index,
            said,
            times: Times(times),
            samples: Series(out),
            exact,
        };
        let line = serde_json::to_string(&o).unwrap();
        if line.len() > 15_000 {
            large += 1;
            if large > 25 || line.len() > 100_000 {
                continue;
            }
        }
        done += 1;
        println!("{line}");
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Use {
    /// Read by the command-line tool
    Tool(bool),
    /// Loaded through the library, appended to, saved and loaded again
    Append(Series),
    /// An archive restored by csv-compressor
    Restore(bool),
    /// An index continued with further points after an upgrade
    Continue(Times),
    /// A directory of files of different builds
    Dir(Vec<u32>),
}
#[derive(Clone, Serialize, Deserialize)]
pub struct C22Case {
    pub file: u32,
    pub how: Use,
    pub plan: Plan,
    pub again: Plan,
}
pub struct C22;

fn same(what: &str, o: &Old, got: &[f64]) -> Res {
    let want = o.samples();
    let of = format!("{what} of a file of {} samples written by the {} build ({} -e {})", want.len(), o.by, o.opts.compressor, o.opts.error);
    if got.len() != want.len() {
        return bad("old-count", format!("{of} gives {} samples", got.len()));
    }
    let scale = want.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    // lossy results may differ in the last digits when the arithmetic is arranged differently
    let tol = if o.exact { 0.0 } else { 2e-5 + 1e-5 * scale };
    for (i, (a, b)) in want.iter().zip(got).enumerate() {
        if a.to_bits() != b.to_bits() && !((a - b).abs() <= tol) {
            return bad("old-values", format!("{of}: sample {i} was {a:e} and is read as {b:e}"));
        }
    }
    Ok(())
}

impl Prop for C22 {
    type Case = C22Case;
    const ID: &'static str = "C22";
    const RUNS: (u64, u64) = (90_000, 2_000_000);
    const RULE: &'static str = "Files of a corpus written by two earlier builds (.bro files and archives with index of every compressor, WBRO files) are read by the current tools and libraries under split and interrupted transfers, alone or several in one directory, and are appended to and continued: they must give the samples and times they held.";
    const REAL: &'static str = "atsc and csv-compressor tools as processes; atsc, wavbrro and vsri libraries in process";
    const STUB: &'static str = "the old nodes are their files; disk transfers: the simulator's seam at the C library boundary";
    fn gen(r: &mut Rng, _thorough: bool) -> C22Case {
        let n = corpus().len();
        let file = r.usize(n) as u32;
        let o = &corpus()[file as usize];
        let how = match (o.kind.as_str(), r.below(6)) {
            ("wbro", 0..=2) => Use::Tool(r.chance(1, 2)),
            ("wbro", _) => Use::Append(Series(vec![])),
            ("archive", 0 | 1) => Use::Restore(r.chance(1, 2)),
            ("archive", 2 | 3) => {
                let last = o.times.0.last().copied().unwrap_or(0);
                let mut t = vec![last];
                for _ in 0..r.range(0, 12) {
                    let l = *t.last().unwrap();
                    t.push((l + *r.pick(&[0, 1, 5, 10, 15, 60, 3600])).min(86_399));
                }
                t.remove(0);
                Use::Continue(Times(t))
            }
            (_, 0..=2) => Use::Append(Series(small_series(r, 30).0)),
            (_, 3) if o.kind == "bro" => {
                let k = r.range(1, 6);
                Use::Dir((0..k).map(|_| r.usize(n) as u32).collect())
            }
            _ => Use::Tool(r.chance(1, 2)),
        };
        let len = 8 * o.samples.0.len();
        let mut plan = benign_plan(r, len + 400);
        if r.chance(1, 4) {
            plan.faults.push(soft_fault(r));
        }
        C22Case { file, how, plan, again: benign_plan(r, len + 400) }
    }
    fn run(w: &mut World, c: &C22Case) -> Res {
        let o = &corpus()[c.file as usize % corpus().len()];
        w.reset(&Disk::new());
        let ext = if o.kind == "wbro" { "wbro" } else { "bro" };
        let name = format!("t.{ext}");
        let who = format!("a file of {} samples written by the {} build ({} -e {})", o.samples().len(), o.by, o.opts.compressor, o.opts.error);
        let restored = |w: &mut World, file: &str, what: &str, o: &Old| match get_wbro(w, file) {
            Some(v) => same(what, o, &v),
            None => bad("old-refused", format!("{what} left no output for {who}")),
        };
        match &c.how {
            Use::Tool(abs) => {
                w.put(&name, &o.file.0);
                if ext == "wbro" {
                    let mut k = cmd(Tool::Atsc, &[&strs(&["--compressor", "rle"])], "@t.wbro");
                    k.abs = *abs;
                    let x = attempt(w, &k, &c.plan);
                    must_end(&x)?;
                    if !x.ok() {
                        return bad("old-refused", format!("compressing {who} ended with {x:?}"));
                    }
                    std::fs::remove_file(w.path("t.wbro")).unwrap();
                }
                let mut k = cmd(Tool::Atsc, &[&strs(&["-u"])], "@t.bro");
                k.abs = *abs;
                let x = attempt(w, &k, if ext == "wbro" { &c.again } else { &c.plan });
                must_end(&x)?;
                if !x.ok() {
                    return bad("old-refused", format!("decompressing {who} ended with {x:?}"));
                }
                restored(w, "t.wbro", "decompressing", o)
            }
            Use::Dir(more) => {
                let mut all: Vec<(String, &Old)> = vec![("t".into(), o)];
                for (i, k) in more.iter().enumerate() {
                    let p = &corpus()[*k as usize % corpus().len()];
                    if p.kind != "wbro" {
                        all.push((format!("f{i}"), p));
                    }
                }
                for (n, p) in &all {
                    w.put(&format!("d/{n}.bro"), &p.file.0);
                }
                let x = attempt(w, &cmd(Tool::Atsc, &[&strs(&["-u"])], "@d"), &c.plan);
                must_end(&x)?;
                if !x.ok() {
                    return bad("old-refused", format!("decompressing a directory of {} files of earlier builds ended with {x:?}", all.len()));
                }
                for (n, p) in &all {
                    restored(w, &format!("d/{n}.wbro"), "decompressing in a directory", p)?;
                }
                Ok(())
            }
            Use::Append(more) => {
                w.put(&name, &o.file.0);
                let p = w.path(&name);
                if ext == "wbro" {
                    let r = w.lib(&c.plan, &[], || WavBrro::from_file(&p).ok());
                    return match r.value.flatten() {
                        Some(v) => same("reading", o, &v),
                        None => bad("old-refused", format!("{who} cannot be read")),
                    };
                }
                let r = w.lib(&c.plan, &[], || {
                    let b = atsc::utils::readers::bro_reader::read_file(&p).ok().flatten()?;
                    let mut cs = CompressedStream::from_bytes(&b);
                    let first = cs.decompress();
                    if !more.0.is_empty() {
                        cs.compress_chunk_with(&more.0, Compressor::RLE);
                    }
                    Some((first, cs.to_bytes()))
                });
                let Some((first, bytes)) = r.value.flatten() else { return bad("old-refused", format!("{who} cannot be loaded or appended to")) };
                same("reading", o, &first)?;
                let Some(all) = guarded(|| CompressedStream::from_bytes(&bytes).decompress()) else { return bad("old-append", format!("after appending, {who} cannot be loaded any more")) };
                let k = first.len().min(all.len());
                same("reading after appending to", o, &all[..k])?;
                if all.len() - k != more.0.len() || all[k..].iter().zip(&more.0).any(|(a, b)| a != b) {
                    return bad("old-append", format!("what was appended to {who}: {}", first_diff(&more.0, &all[k..])));
                }
                Ok(())
            }
            Use::Restore(abs) => {
                w.put("t.bro", &o.file.0);
                w.put("t.vsri", o.index.as_bytes());
                let mut k = cmd(Tool::Csvc, &[&strs(&["-u"])], "@t.bro");
                k.abs = *abs;
                let x = attempt(w, &k, &c.plan);
                must_end(&x)?;
                if !x.ok() {
                    return bad("old-refused", format!("restoring an archive, {who}, ended with {x:?}"));
                }
                let rows = read_table(&w.get("t.csv").unwrap_or_default())?;
                same("restoring", o, &rows.iter().map(|r| r.1).collect::<Vec<_>>())?;
                if let Some(i) = rows.iter().zip(&o.times.0).position(|(r, t)| r.0 != *t as i64) {
                    return bad("old-times", format!("restoring an archive, {who}: row {i} was at {} and gets {}", o.times.0[i], rows[i].0));
                }
                restored(w, "t.wbro", "restoring", o)
            }
            Use::Continue(more) => {
                w.put("t.vsri", o.index.as_bytes());
                let p = w.path("t.vsri");
                let r = w.lib(&c.plan, &[], || {
                    let mut v = Vsri::load(p.to_str().unwrap()).ok()?;
                    let said = describe(&v);
                    for t in &more.0 {
                        let _ = v.update_for_point(*t);
                    }
                    Some((said, describe(&v)))
                });
                let Some((said, then)) = r.value.flatten() else { return bad("old-index-refused", format!("the index of {} points written by the {} build cannot be loaded or continued", o.times.0.len(), o.by)) };
                if said != o.said {
                    return bad("old-index", format!("the index of {} points written by the {} build says {said:?} instead of {:?}", o.times.0.len(), o.by, o.said));
                }
                let mut all = o.times.0.clone();
                all.extend(&more.0);
                let want = guarded(|| describe(&index_of(&all, "x")));
                if want.as_deref() != Some(then.as_str()) {
                    return bad("old-index-continued", format!("continuing the index of {} points written by the {} build with {} more gives {then:?} instead of {want:?}", o.times.0.len(), o.by, more.0.len()));
                }
                Ok(())
            }
        }
    }
    fn shrink(c: &C22Case) -> Vec<C22Case> {
        let mut out = vec![];
        for p in shrink_plan(&c.plan) {
            out.push(C22Case { plan: p, ..c.clone() });
        }
        for p in shrink_plan(&c.again) {
            out.push(C22Case { again: p, ..c.clone() });
        }
        match &c.how {
            Use::Tool(true) => out.push(C22Case { how: Use::Tool(false), ..c.clone() }),
            Use::Restore(true) => out.push(C22Case { how: Use::Restore(false), ..c.clone() }),
            Use::Append(s) => {
                for s in shrink_series(&s.0, 0).into_iter().take(20) {
                    out.push(C22Case { how: Use::Append(Series(s)), ..c.clone() });
                }
            }
            Use::Continue(t) => {
                for i in 0..t.0.len() {
                    let mut t = t.clone();
                    t.0.remove(i);
                    out.push(C22Case { how: Use::Continue(t), ..c.clone() });
                }
            }
            Use::Dir(v) => {
                for i in 0..v.len() {
                    let mut v = v.clone();
                    v.remove(i);
                    out.push(C22Case { how: Use::Dir(v), ..c.clone() });
                }
            }
            _ => {}
        }
        // a shorter file of the same kind that fails too
        let o = &corpus()[c.file as usize % corpus().len()];
        for (i, p) in corpus().iter().enumerate() {
            if p.kind == o.kind && (p.samples.0.len(), i) < (o.samples.0.len(), c.file as usize) && out.len() < 60 {
                out.push(C22Case { file: i as u32, ..c.clone() });
            }
        }
        out
    }
    fn label(c: &C22Case) -> String {
        let how = match &c.how {
            Use::Tool(_) => "tool",
            Use::Append(_) => "append",
            Use::Restore(_) => "restore",
            Use::Continue(_) => "continue",
            Use::Dir(_) => "dir",
        };
        format!("{how}/{}", c.file)
    }
}
