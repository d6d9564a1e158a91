//! Workload series: lengths and shapes that sit on the boundaries of the formats and compressors.
use crate::rng::Rng;
use serde::{Deserialize, Deserializer, Serialize, Serializer};

/// A series of samples, stored as text that keeps every bit.
#[derive(Clone, Debug, PartialEq)]
pub struct Series(pub Vec<f64>);

impl Serialize for Series {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        // run-length coded list of bit patterns, finite values in shortest decimal form
        let mut out: Vec<String> = vec![];
        let mut i = 0;
        while i < self.0.len() {
            let b = self.0[i].to_bits();
            let mut j = i;
            while j < self.0.len() && self.0[j].to_bits() == b {
                j += 1;
            }
            let v = self.0[i];
            let t = if v.is_finite() { format!("{v:e}") } else { format!("x{b:016x}") };
            if j - i > 1 {
                out.push(format!("{t}*{}", j - i));
            } else {
                out.push(t);
            }
            i = j;
        }
        s.serialize_str(&out.join(" "))
    }
}
impl<'de> Deserialize<'de> for Series {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        let mut v = vec![];
        for t in s.split_whitespace() {
            let (t, n) = match t.split_once('*') {
                Some((a, b)) => (a, b.parse::<usize>().map_err(serde::de::Error::custom)?),
                None => (t, 1),
            };
            let x = match t.strip_prefix('x') {
                Some(h) => f64::from_bits(u64::from_str_radix(h, 16).map_err(serde::de::Error::custom)?),
                None => t.parse::<f64>().map_err(serde::de::Error::custom)?,
            };
            v.resize(v.len() + n, x);
        }
        Ok(Series(v))
    }
}

pub struct LenCfg {
    pub max: usize,
    /// Chance in 1000 of a series around the largest frame (131072)
    pub huge: u64,
    pub allow_empty: bool,
}

pub fn gen_len(r: &mut Rng, c: &LenCfg) -> usize {
    if c.huge > 0 && r.below(1000) < c.huge {
        let l = *r.pick(&[131071usize, 131072, 131073, 131200, 131584, 131585, 132097, 135168, 196608, 262143, 262144, 262145, 270000]);
        if l <= c.max {
            return l;
        }
    }
    if c.huge > 0 && r.below(1000) < c.huge {
        let l = match r.below(3) {
            0 => r.range(9000, 131_071) as usize,
            1 => ((1i64 << r.range(13, 16)) + r.range(-2, 2)) as usize,
            _ => *r.pick(&[65535usize, 65536, 65537, 32767, 32768, 66049, 10000, 16896, 99999]),
        };
        if l <= c.max {
            return l;
        }
    }
    let l = match r.below(100) {
        0..=9 => r.range(if c.allow_empty { 0 } else { 1 }, 4) as usize,
        10..=29 => r.range(3, 40) as usize,
        30..=44 => r.range(40, 126) as usize,
        45..=54 => r.range(126, 132) as usize,
        55..=62 => r.range(133, 300) as usize,
        63..=66 => r.range(254, 260) as usize,
        67..=74 => r.range(300, 509) as usize,
        75..=82 => r.range(510, 516) as usize,
        83..=86 => r.range(516, 1022) as usize,
        87..=90 => r.range(1022, 1030) as usize,
        91..=93 => r.range(1030, 2046) as usize,
        94..=96 => r.range(2046, 2052) as usize,
        97 => r.range(2052, 4094) as usize,
        98 => r.range(4094, 4100) as usize,
        _ => r.range(4100, 9000) as usize,
    };
    l.min(c.max)
}

pub const STYLES: [&str; 30] = [
    "const", "blip", "steps", "ramp", "sine", "sine_noise", "walk", "u8", "i16", "i32", "i64", "bounds", "neg", "zeros",
    "tiny", "huge", "prec", "f32col", "counter", "spikes", "head_tail", "saw", "alt", "bits", "exp", "parity", "gauge",
    "smallint", "runs", "decay",
];

fn shape(r: &mut Rng, style: &str, n: usize) -> Vec<f64> {
    let mut v = Vec::with_capacity(n);
    match style {
        "const" => {
            let c = scalar(r);
            v.resize(n, c);
        }
        "blip" => {
            let c = scalar(r);
            v.resize(n, c);
            for _ in 0..r.range(1, 3) {
                if n > 0 {
                    let i = match r.below(3) {
                        0 => 0,
                        1 => n - 1,
                        _ => r.usize(n),
                    };
                    v[i] = match r.below(4) {
                        0 => c + 1.0,
                        1 => -c,
                        2 => 0.0,
                        _ => scalar(r),
                    };
                }
            }
        }
        "steps" | "runs" => {
            let k = r.range(2, 6) as usize;
            let pal: Vec<f64> = (0..k).map(|_| scalar(r)).collect();
            while v.len() < n {
                let l = 1 + r.usize(if style == "runs" { 12 } else { (n / 3).max(2) });
                let x = *r.pick(&pal);
                for _ in 0..l.min(n - v.len()) {
                    v.push(x);
                }
            }
        }
        "ramp" => {
            let a = r.range(-1000, 100000) as f64;
            let s = *r.pick(&[1.0, 0.1, 2.5, 0.001, -1.0, 1000.0, 0.333333333]);
            for i in 0..n {
                v.push(a + s * i as f64);
            }
        }
        "sine" | "sine_noise" => {
            let base = *r.pick(&[0.0, 10.0, 1000.0, -50.0, 1e6, 5.0]);
            let amp = *r.pick(&[1.0, 3.0, 0.01, 100.0]);
            let per = r.range(3, 200) as f64;
            let nz = if style == "sine" { 0.0 } else { amp * *r.pick(&[0.01, 0.2, 1.0]) };
            for i in 0..n {
                v.push(base + amp * (i as f64 * 6.283185307179586 / per).sin() + nz * (r.f01() - 0.5));
            }
        }
        "walk" => {
            let mut x = *r.pick(&[0.0, 100.0, 1e5, -300.0]);
            let s = *r.pick(&[1.0, 0.01, 10.0]);
            let dp = r.below(3);
            for _ in 0..n {
                x += s * (r.f01() - 0.5);
                v.push(match dp {
                    0 => x,
                    1 => (x * 100.0).round() / 100.0,
                    _ => x.round(),
                });
            }
        }
        "u8" => (0..n).for_each(|_| v.push(r.range(0, 255) as f64)),
        "i16" => (0..n).for_each(|_| v.push(r.range(-32768, 32767) as f64)),
        "i32" => (0..n).for_each(|_| v.push(r.range(-2147483648, 2147483647) as f64)),
        "i64" => (0..n).for_each(|_| v.push(r.range(-(1 << 53), 1 << 53) as f64)),
        "bounds" => {
            let b: [f64; 24] = [
                0.0, 1.0, -1.0, 127.0, 128.0, -128.0, -129.0, 254.0, 255.0, 256.0, 32766.0, 32767.0, 32768.0, -32768.0, -32769.0,
                65535.0, 65536.0, 2147483646.0, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 4294967295.0, 4294967296.0,
            ];
            let k = r.range(1, 5) as usize;
            let pal: Vec<f64> = (0..k).map(|_| *r.pick(&b)).collect();
            (0..n).for_each(|_| v.push(*r.pick(&pal)));
            if r.chance(1, 4) && n > 0 {
                let i = r.usize(n);
                v[i] += 0.5;
            }
        }
        "neg" => {
            let s = *r.pick(&[1.0, 0.5, 1000.0]);
            (0..n).for_each(|_| v.push(-(r.range(0, 300) as f64) * s));
        }
        "zeros" => {
            let p = r.range(1, 9) as u64;
            (0..n).for_each(|_| v.push(if r.below(10) < p { 0.0 } else { r.range(1, 50) as f64 * 0.25 }));
        }
        "tiny" => {
            let e = r.range(-40, -5) as i32;
            let m = 10f64.powi(e);
            (0..n).for_each(|_| v.push(m * (r.range(-100, 1000) as f64)));
        }
        "huge" => {
            let e = *r.pick(&[16, 18, 19, 20, 25, 30, 38, 39, 60, 150, 300]);
            let m = 10f64.powi(e);
            let two = r.chance(1, 3);
            (0..n).for_each(|_| v.push(if two { 2f64.powi(60 + r.below(12) as i32) * r.range(1, 3) as f64 } else { m * (1.0 + r.f01()) }));
        }
        "prec" => {
            let b = r.range(0, 2000) as f64;
            (0..n).for_each(|_| v.push(b + r.f01()));
        }
        "f32col" => {
            let b = *r.pick(&[16777216.0, 33554432.0, 1e9, 1e12, 1.0, 100.0, 1e39]);
            (0..n).for_each(|_| v.push(b * (1.0 + 1e-9 * r.below(20) as f64)));
        }
        "counter" => {
            let mut x = r.range(0, 1 << 40) as f64;
            for _ in 0..n {
                x += r.range(0, 500) as f64;
                v.push(x);
            }
        }
        "spikes" => {
            let b = *r.pick(&[1.0, 10.0, 0.5, 200.0]);
            let p = r.range(1, 20) as u64;
            for _ in 0..n {
                v.push(if r.below(100) < p { b * r.range(10, 100000) as f64 } else { b * (1.0 + 0.01 * r.f01()) });
            }
        }
        "head_tail" => {
            // smooth long head, unrelated tail: what a selection made on a sample of the head gets wrong
            let h = match r.below(4) {
                0 => 128.min(n),
                1 => 256.min(n),
                2 => 512.min(n),
                _ => n * 3 / 4,
            };
            let per = r.range(8, 64) as f64;
            let kind = r.below(3);
            for i in 0..n {
                if i < h {
                    v.push(match kind {
                        0 => 100.0 + 10.0 * (i as f64 * 6.283185307179586 / per).sin(),
                        1 => 50.0 + i as f64 * 0.01,
                        _ => 7.0,
                    });
                } else {
                    v.push(match kind {
                        0 => r.f01() * 1000.0,
                        1 => {
                            if r.chance(1, 2) {
                                0.001
                            } else {
                                10000.0 * r.f01()
                            }
                        }
                        _ => 1.0 + r.f01() * 5.0,
                    });
                }
            }
        }
        "saw" => {
            let p = r.range(2, 60) as usize;
            let s = *r.pick(&[1.0, 0.1, 7.0]);
            (0..n).for_each(|i| v.push(1.0 + s * (i % p) as f64));
        }
        "alt" => {
            let (a, b) = (scalar(r), scalar(r));
            (0..n).for_each(|i| v.push(if i % 2 == 0 { a } else { b }));
        }
        "bits" => {
            for _ in 0..n {
                let mut x = f64::from_bits(r.next());
                if !x.is_finite() {
                    x = 1.5;
                }
                v.push(x);
            }
        }
        "exp" => {
            let b = 1.0 + r.f01() * 0.2;
            (0..n).for_each(|i| v.push(0.01 * b.powi((i % 400) as i32)));
        }
        "parity" => {
            let f = *r.pick(&[0.1, 0.25, 0.3333333333333333, 1e-6, 1e-7, 123456.789]);
            (0..n).for_each(|i| v.push(f * (1 + (i % 7)) as f64));
        }
        "gauge" => {
            let b = r.range(20, 90) as f64;
            (0..n).for_each(|_| v.push(b + (r.range(-30, 30) as f64) / 10.0));
        }
        "smallint" => {
            let k = r.range(2, 9);
            let o = r.range(-3, 250);
            (0..n).for_each(|_| v.push((o + r.range(0, k)) as f64));
        }
        _ => {
            let t = r.range(5, 300) as f64;
            let a = *r.pick(&[1.0, 1000.0, 1e5]);
            (0..n).for_each(|i| v.push(1.0 + a * (-(i as f64) / t).exp()));
        }
    }
    v.truncate(n);
    v
}

fn scalar(r: &mut Rng) -> f64 {
    match r.below(16) {
        0 => 0.0,
        1 => 1.0,
        2 => -1.0,
        3 => 255.0,
        4 => 256.0,
        5 => 32768.0,
        6 => -32769.0,
        7 => 2147483648.0,
        8 => 0.1,
        9 => 1e-7 * r.range(1, 99) as f64,
        10 => 12.23,
        11 => r.range(-1000, 1000) as f64,
        12 => r.f01() * 1000.0,
        13 => -r.f01(),
        14 => 1e18 * r.range(1, 20) as f64,
        _ => r.range(0, 300) as f64,
    }
}

/// A finite series of one or several shapes. Returns the series and a short label of its make-up.
pub fn gen_series(r: &mut Rng, c: &LenCfg) -> (Vec<f64>, String) {
    let n = gen_len(r, c);
    let s = *r.pick(&STYLES);
    let mut v = shape(r, s, n);
    let mut label = s.to_string();
    // frames of different nature in one series
    if n > 600 && r.chance(1, 2) {
        let s2 = *r.pick(&STYLES);
        let cut = *r.pick(&[512usize, n / 2, n - 1, n - 200, 1024, 2048]);
        let cut = cut.min(n);
        let t = shape(r, s2, n - cut);
        v.truncate(cut);
        v.extend(t);
        label = format!("{s}+{s2}");
    }
    (v, label)
}

/// A series of one shape with this length
pub fn series_of(r: &mut Rng, n: usize) -> Vec<f64> {
    let s = *r.pick(&STYLES);
    shape(r, s, n).into_iter().map(|x| x.clamp(-1e30, 1e30)).collect()
}

/// Sprinkles values that cleaning removes
pub fn sprinkle_nonfinite(r: &mut Rng, v: &mut Vec<f64>) {
    let k = 1 + r.usize(5);
    for _ in 0..k {
        let x = *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::from_bits(0x7ff0000000000001)]);
        let i = r.usize(v.len() + 1);
        v.insert(i, x);
    }
}

pub fn finite(v: &[f64]) -> Vec<f64> {
    v.iter().copied().filter(|x| x.is_finite()).collect()
}

/// Mean relative error as the properties define it
pub fn mean_rel_error(orig: &[f64], out: &[f64]) -> f64 {
    if orig.is_empty() {
        return 0.0;
    }
    let mut s = 0.0;
    for (a, b) in orig.iter().zip(out) {
        if a == b {
            continue;
        }
        if *a == 0.0 || !b.is_finite() {
            return f64::INFINITY;
        }
        s += ((b - a) / a).abs();
    }
    s / orig.len() as f64
}

pub fn minmax(v: &[f64]) -> (f64, f64) {
    let mut a = f64::INFINITY;
    let mut b = f64::NEG_INFINITY;
    for &x in v {
        a = a.min(x);
        b = b.max(x);
    }
    (a, b)
}

/// Simpler series, for minimisation; most drastic first
pub fn shrink_series(v: &[f64], min_len: usize) -> Vec<Vec<f64>> {
    let n = v.len();
    let mut out: Vec<Vec<f64>> = vec![];
    // not more than fits into memory
    let most = (20_000_000 / n.max(1)).max(12);
    let mut push = |w: Vec<f64>| {
        if out.len() < most && w.len() >= min_len && (w.len() != n || w.iter().zip(v).any(|(a, b)| a.to_bits() != b.to_bits())) {
            out.push(w)
        }
    };
    let mut k = n / 2;
    while k >= 1 {
        // drop a block of k at a few places
        let places = (n / k).min(8);
        for j in 0..places {
            let s = if places <= 1 { 0 } else { j * (n - k) / (places - 1).max(1) };
            let mut w = v.to_vec();
            w.drain(s..(s + k).min(n));
            push(w);
        }
        k /= 2;
    }
    if n > 0 {
        push(vec![v[0]; n]);
        push(v.iter().map(|x| x.round()).collect());
        push(v.iter().map(|x| if x.is_finite() { (x * 10.0).round() / 10.0 } else { *x }).collect());
        push((0..n).map(|i| v[i % (n / 2).max(1)]).collect());
        let mut k = n / 2;
        while k >= 1 {
            let places = (n / k).min(6);
            for j in 0..places {
                let s = if places <= 1 { 0 } else { j * (n - k) / (places - 1).max(1) };
                let mut w = v.to_vec();
                let c = if s > 0 { w[s - 1] } else { w[0] };
                for x in w[s..(s + k).min(n)].iter_mut() {
                    *x = c;
                }
                push(w);
                if n <= 64 {
                    let mut w = v.to_vec();
                    for x in w[s..(s + k).min(n)].iter_mut() {
                        *x = 1.0;
                    }
                    push(w);
                }
            }
            k /= 2;
        }
    }
    out
}
