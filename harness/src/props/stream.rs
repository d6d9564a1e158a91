//! C16: a compressed stream is the faithful concatenation of its frames.
use super::common::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::series::*;
use crate::sim::*;
use atsc::compressor::Compressor;
use atsc::data::CompressedStream;
use atsc::utils::readers::bro_reader::read_file;
use serde::{Deserialize, Serialize};

#[derive(Clone, PartialEq, Serialize, Deserialize)]
pub struct Chunk {
    pub data: Series,
    pub compressor: String,
    pub bounded: bool,
    /// In percent
    pub error: f64,
    pub speed: u8,
}
#[derive(Clone, PartialEq, Serialize, Deserialize)]
pub enum Op16 {
    Push(Chunk),
    /// The same small chunk many times
    Many(Chunk, u32),
    /// Serialise and reload in memory
    Bytes,
    /// Save to a file and go on with what is read back after a restart
    File(Plan),
    /// Compare everything so far
    Check,
    /// Hand the saved stream to the command-line tool
    Tool(Plan),
}
#[derive(Clone, Serialize, Deserialize)]
pub struct C16Case {
    pub ops: Vec<Op16>,
}
pub struct C16;

fn comp(s: &str) -> Option<Compressor> {
    Some(match s {
        "auto" => Compressor::Auto,
        "noop" => Compressor::Noop,
        "fft" => Compressor::FFT,
        "constant" => Compressor::Constant,
        "polynomial" => Compressor::Polynomial,
        "idw" => Compressor::Idw,
        "rle" => Compressor::RLE,
        _ => return None,
    })
}
fn push(cs: &mut CompressedStream, c: &Chunk) {
    match comp(&c.compressor) {
        None => cs.compress_chunk(&c.data.0),
        Some(k) if c.bounded || c.compressor == "auto" => cs.compress_chunk_bounded_with(&c.data.0, k, (c.error / 100.0) as f32, c.speed as usize),
        Some(k) => cs.compress_chunk_with(&c.data.0, k),
    }
}
/// What the chunk gives on its own; None if it cannot be compressed at all
fn alone(c: &Chunk) -> Option<Vec<f64>> {
    guarded(|| {
        let mut cs = CompressedStream::new();
        push(&mut cs, c);
        CompressedStream::from_bytes(&cs.to_bytes()).decompress()
    })
}
/// The library takes any bound, not only whole percents
fn gen_chunk_error(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 => *r.pick(&[0.001, 0.04, 0.05, 0.06, 0.1, 0.14, 0.5, 0.99, 1.06, 2.5, 4.96]),
        1 => r.range(1, 9000) as f64 / 1000.0,
        _ => gen_error(r) as f64,
    }
}
/// A chunk that is nearly the same as another one
fn near_copy(r: &mut Rng, c: &Chunk) -> Chunk {
    let mut n = c.clone();
    let s = &mut n.data.0;
    if s.is_empty() {
        return n;
    }
    let l = s.len();
    match r.below(8) {
        0 => {}
        1 => s.reverse(),
        2 => {
            let (i, j) = (r.below(l as u64) as usize, r.below(l as u64) as usize);
            s.swap(i, j);
        }
        3 => {
            let k = r.below(l as u64) as usize;
            s.rotate_left(k);
        }
        4 => {
            let i = r.below(l as u64) as usize;
            s[i] = -s[i];
        }
        // one sample takes the value of another one: the range stays, the inside differs
        5 | 6 => {
            let (i, j) = (r.below(l as u64) as usize, r.below(l as u64) as usize);
            s[l - 1 - i / 2] = s[j];
        }
        _ => {
            let i = r.below(l as u64) as usize;
            s[i] += 1.0;
        }
    }
    if r.chance(1, 6) {
        n.error = gen_chunk_error(r);
    }
    n
}
fn gen_chunk(r: &mut Rng, max: usize) -> Chunk {
    let compressor = r.pick(&["auto", "auto", "auto", "noop", "fft", "constant", "polynomial", "polynomial", "idw", "rle", "rle", "default"]).to_string();
    let m = if compressor == "idw" { max.min(120) } else { max };
    // now and then a chunk beyond the usual frame sizes
    let cfg = if compressor != "idw" && max > 100 && r.chance(1, 1500) {
        LenCfg { max: 140_000, huge: 700, allow_empty: false }
    } else {
        LenCfg { max: m, huge: 0, allow_empty: false }
    };
    let mut s = gen_series(r, &cfg).0;
    if r.chance(1, 50) {
        s.clear();
    }
    s.iter_mut().for_each(|x| *x = x.clamp(-1e30, 1e30));
    if compressor == "constant" && r.chance(2, 3) && !s.is_empty() {
        let x = s[0];
        s.iter_mut().for_each(|y| *y = x);
    }
    if (compressor == "noop" || compressor == "default") && r.chance(2, 3) {
        s.iter_mut().for_each(|y| *y = y.round().clamp(-9007199254740992.0, 9007199254740992.0));
    }
    Chunk { data: Series(s), compressor, bounded: r.chance(2, 3), error: gen_chunk_error(r), speed: r.range(0, 6) as u8 }
}
fn guarantee(c: &Chunk, out: &[f64]) -> Res {
    let d = &c.data.0;
    if out.len() != d.len() {
        return bad("chunk-count", format!("a chunk of {} samples ({}) gives {}", d.len(), c.compressor, out.len()));
    }
    let exact = match c.compressor.as_str() {
        "rle" => true,
        "noop" | "default" => d.iter().all(|x| x.fract() == 0.0 && x.abs() <= 9007199254740992.0),
        "constant" => d.windows(2).all(|p| p[0] == p[1]),
        "auto" => c.error == 0.0,
        "polynomial" | "idw" => c.bounded && c.error == 0.0,
        _ => false,
    };
    if exact && d.iter().zip(out).any(|(a, b)| a != b) {
        return bad("chunk-not-exact", format!("{} at {}%: {}", c.compressor, c.error, first_diff(d, out)));
    }
    if c.compressor == "auto" || (c.bounded && matches!(c.compressor.as_str(), "polynomial" | "idw")) {
        let e = mean_rel_error(d, out);
        if !(e <= c.error / 100.0 * (1.0 + 1e-6) + 1e-12) {
            return bad("chunk-bound", format!("{} chunk of {} samples: error {:.6}% exceeds {}%", c.compressor, d.len(), e * 100.0, c.error));
        }
    }
    Ok(())
}

impl Prop for C16 {
    type Case = C16Case;
    const ID: &'static str = "C16";
    const RUNS: (u64, u64) = (120_000, 6_000_000);
    const RULE: &'static str = "A history of appending chunks (any compressor, bound and sampling level; up to several hundred frames), serialising, saving and reloading through files under split and interrupted transfers, restarts and appending afterwards; after each reload and in the end the stream must decompress to the concatenation of what every chunk gives on its own, each within its own guarantee; the command-line tool must agree.";
    const REAL: &'static str = "atsc library (CompressedStream, frames, all compressors, bro_reader) in process; atsc tool as a process";
    fn gen(r: &mut Rng, thorough: bool) -> C16Case {
        let n = r.range(2, if thorough { 14 } else { 9 });
        let mut ops: Vec<Op16> = (0..n)
            .map(|_| match r.below(14) {
                0..=7 => Op16::Push(gen_chunk(r, *r.clone().pick(&[3usize, 40, 200, 600, 1100]))),
                8 => Op16::Bytes,
                9 | 10 => Op16::File(benign_plan(r, 4000)),
                11 => Op16::Check,
                // more frames than 16 bits can count
                _ if r.chance(1, 250) => Op16::Many(gen_chunk(r, 2), *r.clone().pick(&[4096u32, 65_535, 65_536, 65_600])),
                _ if r.chance(1, 3) => Op16::Many(gen_chunk(r, 6), *r.clone().pick(&[3u32, 100, 252, 253, 254, 255, 256, 257, 300, 600])),
                _ => Op16::Push(gen_chunk(r, 60)),
            })
            .collect();
        for _ in 0..r.below(3) {
            let at: Vec<usize> = (0..ops.len()).filter(|i| matches!(ops[*i], Op16::Push(_))).collect();
            if at.is_empty() {
                break;
            }
            let i = *r.pick(&at);
            let Op16::Push(c) = &ops[i] else { break };
            let n = near_copy(r, c);
            let j = if r.chance(1, 2) { i + 1 } else { r.range(i as i64 + 1, ops.len() as i64) as usize };
            ops.insert(j, Op16::Push(n));
        }
        if r.chance(1, 4) {
            ops.push(Op16::Tool(benign_plan(r, 8000)));
        }
        C16Case { ops }
    }
    fn run(w: &mut World, c: &C16Case) -> Res {
        w.reset(&Disk::new());
        let mut cs = CompressedStream::new();
        let mut want: Vec<f64> = vec![];
        // whether an empty chunk makes a frame is left open
        let (mut frames, mut empty) = (0usize, 0usize);
        let compare = |cs: &CompressedStream, want: &[f64], when: &str| -> Res {
            match guarded(|| cs.decompress()) {
                None => bad("decompress-fails", format!("{when}: a stream of {} samples cannot be decompressed", want.len())),
                Some(g) if !same_bits(want, &g) => bad("not-concatenation", format!("{when}: {}", first_diff(want, &g))),
                _ => Ok(()),
            }
        };
        let mut ops = c.ops.clone();
        ops.push(Op16::Bytes);
        for (i, op) in ops.iter().enumerate() {
            let when = format!("step {i} ({frames} frames)");
            match op {
                Op16::Push(ch) | Op16::Many(ch, _) => {
                    let Some(out) = alone(ch) else {
                        return bad("chunk-fails", format!("{when}: a chunk of {} samples ({} at {}%) cannot be compressed and decompressed on its own", ch.data.0.len(), ch.compressor, ch.error));
                    };
                    guarantee(ch, &out)?;
                    let k = if let Op16::Many(_, k) = op { *k } else { 1 };
                    let old = cs.clone();
                    match guarded(|| {
                        let mut x = old;
                        (0..k).for_each(|_| push(&mut x, ch));
                        x
                    }) {
                        Some(x) => cs = x,
                        None => return bad("append-fails", format!("{when}: appending {k} frame(s) that work on their own fails")),
                    }
                    frames += k as usize;
                    if ch.data.0.is_empty() {
                        empty += k as usize;
                    }
                    (0..k).for_each(|_| want.extend(&out));
                    w.note(out.len() as u64);
                }
                Op16::Check => compare(&cs, &want, &when)?,
                Op16::Bytes => {
                    let old = cs.clone();
                    match guarded(|| CompressedStream::from_bytes(&old.to_bytes())) {
                        Some(x) => cs = x,
                        None => return bad("reload-fails", format!("{when}: the serialised stream cannot be read back")),
                    }
                    compare(&cs, &want, &format!("{when}, after reloading"))?;
                    let n = cs.header.get_frame_count() as usize;
                    if frames <= 255 && !(frames - empty..=frames).contains(&n) {
                        return bad("frame-count", format!("{when}: the header counts {n} frames of {frames}"));
                    }
                }
                Op16::File(p) => {
                    let path = w.path("f.bro");
                    let bytes = match guarded(|| cs.clone().to_bytes()) {
                        Some(b) => b,
                        None => return bad("reload-fails", format!("{when}: the stream cannot be serialised")),
                    };
                    if w.lib(p, &[], || std::fs::write(&path, &bytes).is_ok()).value != Some(true) {
                        return bad("save-fails", when);
                    }
                    // only the file survives
                    match w.lib(p, &[], || read_file(&path).ok().flatten().map(|b| CompressedStream::from_bytes(&b))).value.flatten() {
                        Some(x) => cs = x,
                        None => return bad("reload-fails", format!("{when}: the saved stream cannot be read back")),
                    }
                    compare(&cs, &want, &format!("{when}, after reloading from a file"))?;
                }
                Op16::Tool(p) => {
                    let Some(b) = guarded(|| cs.clone().to_bytes()) else { return bad("reload-fails", format!("{when}: the stream cannot be serialised")) };
                    w.put("t.bro", &b);
                    let x = w.exec(&cmd(Tool::Atsc, &[&strs(&["-u"])], "@t.bro"), p);
                    must_end(&x)?;
                    match get_wbro(w, "t.wbro") {
                        Some(g) if x.ok() => {
                            if !same_bits(&want, &g) {
                                return bad("tool-differs", format!("{when}: the tool decompresses the stream differently: {}", first_diff(&want, &g)));
                            }
                        }
                        _ => return bad("tool-fails", format!("{when}: the tool ended with {x:?} on the stream")),
                    }
                }
            }
        }
        w.note(frames as u64);
        Ok(())
    }
    fn shrink(c: &C16Case) -> Vec<C16Case> {
        let mut out = vec![];
        for i in 0..c.ops.len() {
            let mut d = c.clone();
            d.ops.remove(i);
            out.push(d);
        }
        for i in 0..c.ops.len() {
            let mut put = |o: Op16| {
                let mut d = c.clone();
                d.ops[i] = o;
                out.push(d);
            };
            match &c.ops[i] {
                Op16::Push(ch) => {
                    shrink_series(&ch.data.0, 1).into_iter().take(50).for_each(|s| put(Op16::Push(Chunk { data: Series(s), ..ch.clone() })));
                    if ch.compressor != "rle" {
                        put(Op16::Push(Chunk { compressor: "rle".into(), ..ch.clone() }));
                    }
                    if ch.error > 0.0 {
                        put(Op16::Push(Chunk { error: 0.0, ..ch.clone() }));
                    }
                    if ch.speed > 0 {
                        put(Op16::Push(Chunk { speed: 0, ..ch.clone() }));
                    }
                }
                Op16::Many(ch, k) => {
                    put(Op16::Push(ch.clone()));
                    put(Op16::Many(ch.clone(), k / 2));
                    put(Op16::Many(ch.clone(), k - 1));
                    put(Op16::Many(Chunk { data: Series(vec![1.0]), compressor: "rle".into(), ..ch.clone() }, *k));
                }
                Op16::File(p) => shrink_plan(p).into_iter().for_each(|p| put(Op16::File(p))),
                Op16::Tool(p) => shrink_plan(p).into_iter().for_each(|p| put(Op16::Tool(p))),
                _ => {}
            }
        }
        out
    }
    fn label(c: &C16Case) -> String {
        let s: String = c
            .ops
            .iter()
            .map(|o| match o {
                Op16::Push(c) => format!("{}{} ", &c.compressor[..2], c.data.0.len()),
                Op16::Many(c, k) => format!("{}*{k} ", &c.compressor[..2]),
                Op16::Bytes => "b ".into(),
                Op16::File(_) => "f ".into(),
                Op16::Check => "c ".into(),
                Op16::Tool(_) => "t ".into(),
            })
            .collect();
        format!("{}ops/{s}", c.ops.len())
    }
}
