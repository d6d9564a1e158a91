//! C12, C13, C18: the time index as a library, against a reference model of its segments.
use super::common::*;
use crate::ctl::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::sim::*;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::collections::BTreeSet;
use vsri::Vsri;

/// Times, stored compactly
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Times(pub Vec<i32>);
impl Serialize for Times {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.0.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(" "))
    }
}
impl<'de> Deserialize<'de> for Times {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        s.split_whitespace().map(|t| t.parse().map_err(serde::de::Error::custom)).collect::<Result<_, _>>().map(Times)
    }
}

/// Reference: the segments an index is made of, and every accepted time
#[derive(Clone, Default)]
pub struct Model {
    pub times: Vec<i32>,
    /// rate, first position, first time, points
    pub segs: Vec<[i64; 4]>,
}
impl Model {
    pub fn update(&mut self, y: i32) -> bool {
        if y < self.times.last().copied().unwrap_or(0) {
            return false;
        }
        self.times.push(y);
        let y = y as i64;
        match self.segs.last_mut() {
            None => self.segs.push([0, 0, y, 1]),
            Some(s) => {
                let d = y - s[2];
                if s[0] == 0 && d > 0 {
                    *s = [d, s[1], s[2], 2];
                } else if s[0] > 0 && d / s[0] == s[3] {
                    s[3] += 1;
                } else {
                    let x = s[1] + s[3];
                    self.segs.push([0, x, y, 1]);
                }
            }
        }
        true
    }
    /// The grid time of every position
    pub fn grid(&self) -> Vec<i32> {
        let mut v = Vec::with_capacity(self.times.len());
        for s in &self.segs {
            v.extend((0..s[3]).map(|i| (s[2] + i * s[0]) as i32));
        }
        v
    }
    pub fn on_grid(&self) -> bool {
        self.grid() == self.times
    }
    /// First and last grid time of every segment
    pub fn hulls(&self) -> Vec<(i32, i32, usize, usize)> {
        self.segs.iter().map(|s| (s[2] as i32, (s[2] + (s[3] - 1) * s[0]) as i32, s[1] as usize, (s[1] + s[3] - 1) as usize)).collect()
    }
    pub fn of(t: &[i32]) -> Model {
        let mut m = Model::default();
        t.iter().for_each(|y| {
            m.update(*y);
        });
        m
    }
}

const DAY: i32 = 86_400;

/// Histories of updates within a day: regular, gaps, other rates, jitter, duplicates, points in the past
pub fn gen_times(r: &mut Rng, grid_only: bool, max: usize) -> Vec<i32> {
    times_within(r, grid_only, max, DAY as i64, 1)
}
/// The same, sometimes far beyond a day
pub fn gen_times_far(r: &mut Rng, grid_only: bool, max: usize) -> Vec<i32> {
    if r.chance(1, 6) {
        let scale = *r.pick(&[1, 60, 1000, 3600, 86_400, 1_000_000]);
        let horizon = *r.pick(&[100_000, 7 * DAY as i64, 366 * DAY as i64, i32::MAX as i64]);
        times_within(r, grid_only, max, horizon.min(i32::MAX as i64), scale)
    } else {
        gen_times(r, grid_only, max)
    }
}
/// A long history: few stretches, up to 100 000 points and more, with a short ordinary end
fn long_times(r: &mut Rng) -> Vec<i32> {
    let mut v: Vec<i32> = vec![];
    let mut t: i64 = r.range(0, 100_000);
    let edge = *r.pick(&[10_000i64, 32_768, 65_536, 86_400, 100_000]);
    while (v.len() as i64) < edge {
        let rate = *r.pick(&[1, 1, 5, 15, 60]);
        let k = match r.below(3) {
            0 => r.range(2, 100),
            1 => r.range(100, 40_000),
            _ => edge + r.range(-2, 2) - v.len() as i64,
        };
        for _ in 0..k.max(2) {
            v.push(t as i32);
            t += rate;
        }
        t += r.range(1, 5000);
    }
    for d in times_within(r, false, 60, DAY as i64, 1) {
        v.push((t + d as i64) as i32);
    }
    v
}
fn times_within(r: &mut Rng, grid_only: bool, max: usize, horizon: i64, scale: i64) -> Vec<i32> {
    let want = match r.below(30) {
        0 => 0,
        1 | 2 => 1,
        3 | 4 => 2,
        5..=12 => r.range(3, 8) as usize,
        13..=24 => r.range(8, 60) as usize,
        25..=28 => r.range(60, 400) as usize,
        _ => max,
    }
    .min(max);
    let mut v: Vec<i64> = vec![];
    let mut t: i64 = match r.below(6) {
        0 => 0,
        1 => 1,
        2 => r.range(0, 100),
        3 => r.range(0, horizon - 1),
        _ => r.range(0, 40_000.min(horizon - 1)),
    };
    let pick_rate = |r: &mut Rng| {
        if r.chance(1, 16) {
            // anything up to half of the time there is
            let bits = r.range(1, 63 - (horizon / 2).leading_zeros() as i64);
            r.range(1, 1i64 << bits)
        } else {
            *r.pick(&[1, 1, 5, 5, 10, 15, 60, 2, 3, 7, 300, 3600]) * scale
        }
    };
    let mut rate: i64 = pick_rate(r);
    let wild = r.below(4);
    // many short stretches, or few long ones
    let stretch = if want > 400 && r.chance(1, 2) { 2000 } else { *r.pick(&[3, 20, 20]) };
    while v.len() < want && t < horizon {
        // a stretch at one rate
        let k = if r.chance(1, 4) { 1 } else { r.range(2, stretch) as usize };
        for i in 0..k {
            if t >= horizon || v.len() >= want {
                break;
            }
            if !grid_only {
                match r.below(if wild == 0 { 4 } else { 24 }) {
                    0 => t = (t + r.range(-rate / 2, rate - 1)).clamp(0, horizon - 1), // jitter (possibly into the past)
                    1 if !v.is_empty() => {
                        // a duplicate
                        let d = *v.last().unwrap();
                        v.push(d);
                        if r.chance(1, 3) {
                            t = d + rate;
                        }
                        continue;
                    }
                    2 if wild == 1 && !v.is_empty() => {
                        // a point in the past
                        let d = *v.last().unwrap() - r.range(1, 50);
                        v.push(d);
                        continue;
                    }
                    _ => {}
                }
            }
            v.push(t);
            if i + 1 < k {
                t += rate;
            }
        }
        // on to the next stretch
        let last = v.iter().copied().max().unwrap_or(0).max(t);
        let gap = match r.below(5) {
            0 => 1,
            1 => rate * 2,
            2 => rate * 2 + 1,
            3 => r.range(1, 5000) * scale,
            _ => r.range(1, 100) * scale,
        };
        if grid_only {
            // earlier than the next expected point, exactly on it, or beyond every point that could be taken for it
            t = match r.below(4) {
                0 if rate > 1 => last + r.range(1, rate - 1),
                1 => last + rate,
                _ => last + 2 * rate + gap - 1,
            };
        } else {
            t = last + gap;
        }
        if r.chance(2, 3) {
            rate = pick_rate(r);
        }
    }
    let v: Vec<i32> = v.into_iter().filter(|y| *y < horizon).map(|y| y as i32).collect();
    if grid_only {
        // keep the longest beginning that stays on the grids and strictly increases
        let mut m = Model::default();
        let mut out: Vec<i32> = vec![];
        for y in v {
            if out.last().map_or(false, |l| *l >= y) {
                continue;
            }
            let mut n = m.clone();
            n.update(y);
            if n.on_grid_last() {
                m = n;
                out.push(y);
            }
        }
        return out;
    }
    v
}
impl Model {
    fn on_grid_last(&self) -> bool {
        match (self.segs.last(), self.times.last()) {
            (Some(s), Some(t)) => s[2] + (s[3] - 1) * s[0] == *t as i64,
            _ => true,
        }
    }
}

fn shrink_times(t: &[i32]) -> Vec<Vec<i32>> {
    let n = t.len();
    let mut out = vec![];
    let mut k = n;
    while k >= 1 {
        let mut s = 0;
        while s + k <= n && out.len() < 400 {
            let mut w = t.to_vec();
            w.drain(s..s + k);
            out.push(w);
            s += k;
        }
        k /= 2;
    }
    if n > 0 {
        for d in [t[0], 1000, 100, 10, 1] {
            if d > 0 && t.iter().all(|x| *x >= d) {
                out.push(t.iter().map(|x| x - d).collect());
            }
        }
        for i in 1..n.min(40) {
            let gap = t[i] - t[i - 1];
            if gap > 1 {
                for d in [gap - 1, gap / 2, 1] {
                    let mut w = t.to_vec();
                    w[i..].iter_mut().for_each(|x| *x -= d);
                    out.push(w);
                }
            }
        }
    }
    out
}

// ---------------------------------------------------------------- C12
#[derive(Clone, Serialize, Deserialize)]
pub struct C12Case {
    pub times: Times,
    /// Before these updates the process restarts from a saved index
    pub restarts: Vec<(u32, Plan)>,
    /// Other times to look up
    pub probes: Times,
}
pub struct C12;

fn check_index(v: &Vsri, m: &Model, probes: &[i32], tag: &str) -> Res {
    let n = m.times.len();
    let grid = m.grid();
    let call = |what: &str| -> Verdict { Verdict::Violation { class: format!("panics-{what}"), detail: format!("{tag}: {what} panics on an index of {n} points") } };
    if v.get_sample_count() as usize != n {
        return bad("count", format!("{tag}: {} samples are counted after {n} accepted updates", v.get_sample_count()));
    }
    if n == 0 {
        return Ok(());
    }
    if v.min() != m.times[0] || v.max() != m.times[n - 1] {
        return bad("range", format!("{tag}: the index spans {}..{} instead of {}..{}", v.min(), v.max(), m.times[0], m.times[n - 1]));
    }
    let all = guarded(|| v.get_all_timestamps()).ok_or_else(|| call("get_all_timestamps"))?;
    if all.len() != n {
        return bad("listing-length", format!("{tag}: {} times are listed for {n} samples", all.len()));
    }
    // looking up is a walk over the segments: on long histories of many segments only a share is asked for
    let step = (n * m.segs.len() / 4_000_000).max(1);
    let rate_of = |x: usize| m.segs.iter().rev().find(|s| s[1] as usize <= x).map(|s| s[0]).unwrap_or(0);
    for x in 0..n {
        let (t, g, a) = (m.times[x], grid[x], all[x]);
        let ok = if t == g { a == t } else { a >= g && a <= t };
        if !ok {
            return bad("listing-time", format!("{tag}: position {x} of {n} was indexed at {t} (grid {g}, rate {}) and is listed at {a}", rate_of(x)));
        }
        if x > 0 && a < all[x - 1] {
            return bad("listing-order", format!("{tag}: position {x} is listed at {a}, after {}", all[x - 1]));
        }
        if step > 1 && x % step != 0 && x + 50 < n {
            continue;
        }
        match guarded(|| v.get_time(x as i32)).ok_or_else(|| call("get_time"))? {
            Some(g) if g == a => {}
            g => return bad("time-of-position", format!("{tag}: position {x} of {n} was indexed at {t}, is listed at {a}, but its time is {g:?}")),
        }
        // only exactly represented times have to lead back
        if a == t {
            match guarded(|| v.get_sample(a)).ok_or_else(|| call("get_sample"))? {
                Some(p) if p >= 0 && (p as usize) < n && all[p as usize] == a => {}
                p => return bad("position-of-time", format!("{tag}: the time {a} of position {x} of {n} leads to position {p:?}")),
            }
        }
    }
    let h = m.hulls();
    for &y in probes {
        let got = guarded(|| v.get_sample(y)).ok_or_else(|| call("get_sample"))?;
        let outside = y < m.times[0] || y > m.times[n - 1];
        let in_gap = h.windows(2).any(|w| y > w[0].1.max(m.times[w[0].3]) && y < w[1].0);
        if (outside || in_gap) && got.is_some() {
            return bad("phantom-position", format!("{tag}: {y} was never indexed (span {}..{}) but has position {got:?}", m.times[0], m.times[n - 1]));
        }
    }
    Ok(())
}

fn probe_times(r: &mut Rng, t: &[i32]) -> Vec<i32> {
    let mut p = vec![-1, 0, DAY, DAY - 1, i32::MIN, i32::MAX];
    for _ in 0..12 {
        p.push(r.range(-10, DAY as i64 + 10) as i32);
        if !t.is_empty() {
            let x = *r.pick(t);
            p.push(x.saturating_add(r.range(-3, 3) as i32));
            p.push(x.saturating_add(r.range(-60, 60) as i32));
            p.push(r.range(x as i64 / 2, x as i64) as i32);
            p.push(x);
        }
    }
    p.sort();
    p.dedup();
    p
}

impl Prop for C12 {
    type Case = C12Case;
    const ID: &'static str = "C12";
    const RUNS: (u64, u64) = (1_000_000, 20_000_000);
    const RULE: &'static str = "A history of index updates within one day (regular stretches, gaps, rate changes, jitter, duplicates, points in the past), interrupted by restarts that save and reload the index under split and interrupted transfers; counts, listing and lookups in both directions are compared with a reference model of the segments after the history, around every restart and after every rejected update.";
    const REAL: &'static str = "vsri library in process (updates, lookups, save, load)";
    fn gen(r: &mut Rng, thorough: bool) -> C12Case {
        let big = if r.chance(1, if thorough { 100 } else { 400 }) { 86_400 } else { 2000 };
        let times = if r.chance(1, 400) { long_times(r) } else { gen_times_far(r, false, big) };
        let restarts = (0..r.below(4)).map(|_| (r.below(times.len() as u64 + 1) as u32, benign_plan(r, times.len()))).collect();
        C12Case { probes: Times(probe_times(r, &times)), times: Times(times), restarts }
    }
    fn run(w: &mut World, c: &C12Case) -> Res {
        w.reset(&Disk::new());
        let path = w.path("i.vsri");
        let ps = path.to_str().unwrap().to_string();
        let mut v = Vsri::new(&ps);
        let mut m = Model::default();
        for i in 0..=c.times.0.len() {
            for (_, p) in c.restarts.iter().filter(|x| x.0 as usize == i) {
                check_index(&v, &m, &c.probes.0, &format!("before the restart at update {i}"))?;
                let saved = w.lib(p, &[], || v.flush_to(&path).is_ok());
                if saved.value != Some(true) {
                    return bad("save-fails", format!("saving after {i} updates failed"));
                }
                let l = w.lib(p, &[], || Vsri::load(&ps).ok());
                match l.value.flatten() {
                    Some(x) => v = x,
                    None => return bad("load-fails", format!("an index saved after {i} updates cannot be loaded")),
                }
                check_index(&v, &m, &c.probes.0, &format!("after the restart at update {i}"))?;
                for &y in c.probes.0.iter().take(8).chain(m.times.iter().take(3)) {
                    let a = guarded(|| Vsri::get_sample_location(&ps, y)).flatten();
                    let b = if m.times.is_empty() || y < v.min() || y > v.max() { None } else { guarded(|| v.get_sample(y)).flatten() };
                    if a != b && !m.times.is_empty() {
                        return bad("location", format!("time {y} has position {b:?} in the index and {a:?} in its file"));
                    }
                }
            }
            let Some(&y) = c.times.0.get(i) else { break };
            let accept = y >= m.times.last().copied().unwrap_or(0);
            match guarded(|| v.update_for_point(y).is_ok()) {
                None => return bad("update-panics", format!("update {i} to {y} (latest {}) panics", v.max())),
                Some(ok) if ok != accept => {
                    return bad("update-accepted", format!("update {i} to {y} with latest time {} is {}", m.times.last().copied().unwrap_or(0), if ok { "accepted" } else { "rejected" }))
                }
                Some(true) => {
                    m.update(y);
                    if v.get_sample_count() as usize != m.times.len() {
                        return bad("count", format!("{} samples are counted after {} accepted updates", v.get_sample_count(), m.times.len()));
                    }
                }
                Some(false) if m.times.len() < 1000 || i % 499 == 0 => check_index(&v, &m, &[], &format!("after rejected update {i}"))?,
                Some(false) => {}
            }
        }
        w.note(m.segs.len() as u64);
        w.note(m.times.len() as u64);
        check_index(&v, &m, &c.probes.0, "in the end")
    }
    fn shrink(c: &C12Case) -> Vec<C12Case> {
        let mut out = vec![];
        for i in 0..c.restarts.len() {
            let mut d = c.clone();
            d.restarts.remove(i);
            out.push(d);
        }
        for t in shrink_times(&c.times.0) {
            let n = t.len() as u32;
            out.push(C12Case { times: Times(t), restarts: c.restarts.iter().map(|(i, p)| ((*i).min(n), p.clone())).collect(), ..c.clone() });
        }
        if !c.probes.0.is_empty() {
            out.push(C12Case { probes: Times(vec![]), ..c.clone() });
        }
        for i in 0..c.probes.0.len() {
            let mut d = c.clone();
            d.probes.0.remove(i);
            out.push(d);
        }
        for i in 0..c.restarts.len() {
            for p in shrink_plan(&c.restarts[i].1) {
                let mut d = c.clone();
                d.restarts[i].1 = p;
                out.push(d);
            }
        }
        out
    }
    fn label(c: &C12Case) -> String {
        let m = Model::of(&c.times.0);
        format!("{}segs/{}pts/{}", m.segs.len().min(9), m.times.len(), c.restarts.len())
    }
}

// ---------------------------------------------------------------- C13
#[derive(Clone, Serialize, Deserialize)]
pub enum Op13 {
    Update(Times),
    /// Save, with faults; after a crash this share (of 65536) of each un-synced file survives
    Save { plan: Plan, own_name: bool, lost: Option<u32> },
    /// The process restarts and goes on with what it loads
    Restart(Plan),
    /// Save a copy to another place, which may hold an earlier copy
    Copy(Plan),
}
#[derive(Clone, Serialize, Deserialize)]
pub struct C13Case {
    pub ops: Vec<Op13>,
    pub name: u8,
}
pub struct C13;

/// Files whose latest content was never synced, by path hash
fn unsynced(trace: &Trace) -> BTreeSet<u32> {
    let mut s = BTreeSet::new();
    for e in &trace.evs {
        if e.err != 0 {
            continue;
        }
        match e.op {
            OP_CREATE | OP_WRITE | OP_TRUNC => {
                s.insert(e.ph);
            }
            OP_FSYNC => {
                s.remove(&e.ph);
            }
            OP_RENAME => {
                if s.remove(&e.req) {
                    s.insert(e.ph);
                } else {
                    s.remove(&e.ph);
                }
            }
            _ => {}
        }
    }
    s
}

fn rebuilt(times: &[i32]) -> Vsri {
    let mut v = Vsri::new("x");
    for y in times {
        let _ = guarded(|| v.update_for_point(*y).is_ok());
    }
    v
}

/// Everything an index can be asked; None where it panics
fn answers(v: &Vsri, around: &[i32]) -> Vec<(String, String)> {
    let mut out = vec![];
    let mut q = |name: String, a: Option<String>| out.push((name, a.unwrap_or_else(|| "panic".into())));
    q("count".into(), guarded(|| v.get_sample_count().to_string()));
    q("min".into(), guarded(|| v.min().to_string()));
    q("max".into(), guarded(|| v.max().to_string()));
    q("listing".into(), guarded(|| format!("{:?}", v.get_all_timestamps())));
    let mut ys: Vec<i32> = vec![-1, 0, 1, 86_399, 86_400];
    for y in around.iter().take(40).chain(around.iter().rev().take(10)) {
        ys.extend([y.saturating_sub(1), *y, y.saturating_add(1)]);
    }
    ys.sort();
    ys.dedup();
    for y in &ys {
        q(format!("get_sample({y})"), guarded(|| format!("{:?}", v.get_sample(*y))));
        q(format!("get_this_or_next({y})"), guarded(|| format!("{:?}", v.get_this_or_next(*y))));
        q(format!("get_this_or_previous({y})"), guarded(|| format!("{:?}", v.get_this_or_previous(*y))));
    }
    for y in ys.windows(2).take(40) {
        q(format!("is_empty({:?})", y), guarded(|| v.is_empty([y[0], y[1]]).to_string()));
    }
    let n = around.len() as i32;
    for x in (0..n.min(40)).chain((n - 5).max(0)..n + 2) {
        q(format!("get_time({x})"), guarded(|| format!("{:?}", v.get_time(x))));
    }
    out
}

/// None if both indexes answer alike, also after more updates
fn index_diff(a: &mut Vsri, times: &[i32]) -> Option<String> {
    let mut b = rebuilt(times);
    let cmp = |a: &Vsri, b: &Vsri, when: &str| -> Option<String> {
        let (x, y) = (answers(a, times), answers(b, times));
        x.iter().zip(&y).find(|(p, q)| p != q).map(|(p, q)| {
            let cut = |s: &str| s.chars().take(60).collect::<String>();
            format!("{} is {} instead of {}{when}", p.0, cut(&p.1), cut(&q.1))
        })
    };
    if let Some(d) = cmp(a, &b, "") {
        return Some(d);
    }
    let l = times.iter().copied().max().unwrap_or(0);
    for (i, y) in [-1, 0, 1, 2, 7, 12, 17, 17].map(|d| l.saturating_add(d)).into_iter().enumerate() {
        let (x, z) = (guarded(|| a.update_for_point(y).is_ok()), guarded(|| b.update_for_point(y).is_ok()));
        if x != z {
            return Some(format!("a further update to {y} gives {x:?} instead of {z:?}"));
        }
        if i % 3 == 2 {
            if let Some(d) = cmp(a, &b, " after further updates") {
                return Some(d);
            }
        }
    }
    cmp(a, &b, " after further updates")
}

impl Prop for C13 {
    type Case = C13Case;
    const ID: &'static str = "C13";
    const RUNS: (u64, u64) = (450_000, 12_000_000);
    const RULE: &'static str = "Histories of updates, saves (to a given path, the index's own or another place), restarts and loads; saves run under split and interrupted transfers, I/O errors and full disk, and crash before, inside or after any I/O call, with data that was never synced optionally torn or lost. Whatever a load returns must answer every query, and take further updates, like exactly one of the allowed indexes (the last one saved, or the one being saved when the crash or error came).";
    const REAL: &'static str = "vsri library in process (flush, flush_to, load, all queries)";
    fn gen(r: &mut Rng, thorough: bool) -> C13Case {
        let mut ops = vec![];
        let long = r.chance(1, 400);
        let mut all = if long { long_times(r) } else { gen_times_far(r, false, if r.clone().chance(1, 8) { 1500 } else { 80 }) };
        all.retain(|t| *t >= 0);
        if long {
            // most of it at once
            let n = all.len() - r.below(200) as usize;
            ops.push(Op13::Update(Times(all.drain(..n).collect())));
        }
        let k = r.range(2, if thorough { 12 } else { 8 });
        let mut pos = 0;
        for _ in 0..k {
            match r.below(10) {
                0..=3 => {
                    let n = (all.len() - pos).min(r.range(1, (all.len() as i64 / 3).max(2)) as usize);
                    ops.push(Op13::Update(Times(all[pos..pos + n].to_vec())));
                    pos += n;
                }
                4..=7 => {
                    let mut plan = benign_plan(r, 0);
                    let mut lost = None;
                    match r.below(4) {
                        0 => {}
                        1 => {
                            let mut f = hard_fault(r, false, true);
                            if f.class == Class::Open || f.class == Class::Read {
                                f.class = Class::Any;
                            }
                            if r.chance(1, 4) {
                                // the disk fills up
                                plan.disk_cap = Some(if r.chance(1, 2) { r.below(20) } else { r.below(600) });
                            } else {
                                plan.faults.push(f)
                            }
                        }
                        _ => {
                            plan.faults.push(hard_fault(r, true, false));
                            if r.chance(1, 2) {
                                lost = Some(match r.below(4) {
                                    0 => 0,
                                    1 => 65536,
                                    _ => r.below(65536) as u32,
                                });
                            }
                        }
                    }
                    ops.push(Op13::Save { plan, own_name: r.chance(1, 3), lost });
                }
                8 => {
                    let mut plan = benign_plan(r, 0);
                    if r.chance(1, 3) {
                        plan.faults.push(hard_fault(r, true, true));
                    }
                    ops.push(Op13::Copy(plan))
                }
                _ => {
                    let mut plan = benign_plan(r, 0);
                    if r.chance(1, 3) {
                        plan.faults.push(fault_sel(r, if r.clone().chance(1, 4) { Class::Open } else { Class::Read }, Kind::Err(EIO)));
                    }
                    ops.push(Op13::Restart(plan))
                }
            }
        }
        C13Case { ops, name: r.below(3) as u8 }
    }
    fn run(w: &mut World, c: &C13Case) -> Res {
        w.reset(&Disk::new());
        let (own, file) = match c.name {
            0 => ("i", "i.vsri"),
            1 => ("d/m.metric", "d/m.vsri"),
            _ => ("d.x/name.vsri", "d.x/name.vsri"),
        };
        w.put("d/other.vsri", b"5\n5\n0,0,5,1\n");
        w.put("d.x/keep", b"");
        w.put("i.csv", b"not yours");
        let others: Vec<(String, Vec<u8>)> = w.snapshot().into_iter().collect();
        let path = w.path(file);
        let ps = path.to_str().unwrap().to_string();
        let own_s = w.path(own).to_str().unwrap().to_string();
        let mut v = Vsri::new(&own_s);
        let mut m = Model::default();
        // what a load may return; empty: there is no saved index yet
        let mut allowed: Vec<Vec<i32>> = vec![];
        let mut ops = c.ops.clone();
        ops.push(Op13::Restart(Plan::default()));
        let mut none_ok = true;
        for (i, op) in ops.iter().enumerate() {
            let mut restart: Option<Plan> = None;
            match op {
                Op13::Update(t) => {
                    for y in &t.0 {
                        if guarded(|| v.update_for_point(*y).is_ok()) == Some(true) {
                            m.update(*y);
                        }
                    }
                }
                Op13::Save { plan, own_name, lost } => {
                    let before = w.snapshot();
                    let out = lib_attempt(w, plan, || if *own_name { v.flush().is_ok() } else { v.flush_to(&path).is_ok() });
                    let what = format!("step {i}: saving {} points", m.times.len());
                    if out.crashed {
                        if let Some(share) = lost {
                            let u = unsynced(&w.last_trace);
                            for (n, d) in w.snapshot() {
                                if u.contains(&path_hash(&n)) && before.get(&n) != Some(&d) {
                                    w.put(&n, &d[..(d.len() as u64 * *share as u64 >> 16) as usize]);
                                }
                            }
                        }
                        allowed.push(m.times.clone());
                        restart = Some(plan.without_faults());
                    } else {
                        match out.value {
                            Some(true) => {
                                allowed = vec![m.times.clone()];
                                none_ok = false;
                            }
                            Some(false) | None => {
                                if plan.is_benign() {
                                    return bad("save-fails", format!("{what} failed although nothing worse than a split or interrupted transfer happened"));
                                }
                                allowed.push(m.times.clone());
                            }
                        }
                    }
                    for (n, d) in &others {
                        if w.get(n).as_ref() != Some(d) {
                            return bad("bystander", format!("{what} changed {n}"));
                        }
                    }
                }
                Op13::Copy(plan) => {
                    let before = w.get(file);
                    let to = w.path("copy.vsri");
                    let ts = to.to_str().unwrap().to_string();
                    let out = lib_attempt(w, plan, || v.flush_to(&to).is_ok());
                    let what = format!("step {i}: saving a copy of {} points", m.times.len());
                    if out.crashed {
                        restart = Some(plan.without_faults());
                    } else if out.value == Some(true) {
                        match guarded(|| Vsri::load(&ts).ok()).flatten() {
                            Some(mut x) => {
                                if let Some(d) = index_diff(&mut x, &m.times) {
                                    return bad("copy-differs", format!("{what}: {d}"));
                                }
                            }
                            None => return bad("copy-lost", format!("{what} succeeded, yet it cannot be loaded")),
                        }
                    } else if plan.is_benign() {
                        return bad("save-fails", format!("{what} failed although nothing worse than a split or interrupted transfer happened"));
                    }
                    if w.get(file) != before || others.iter().any(|(n, d)| w.get(n).as_ref() != Some(d)) {
                        return bad("bystander", format!("{what} changed another file"));
                    }
                }
                Op13::Restart(p) => restart = Some(p.clone()),
            }
            if let Some(p) = restart {
                let mut l = lib_attempt(w, &p, || Vsri::load(&ps).ok());
                if !p.is_benign() && !matches!(l.value, Some(Some(_))) {
                    // refusing is right when reading fails; it must work the next time
                    l = w.lib(&p.without_faults(), &[], || Vsri::load(&ps).ok());
                }
                match l.value.flatten() {
                    Some(mut x) => {
                        let mut why = String::from("nothing was ever saved");
                        let mut hit = None;
                        // the newest first: if several allowed indexes are equal it does not matter which
                        for t in allowed.iter().rev() {
                            match index_diff(&mut x, t) {
                                None => {
                                    hit = Some(t.clone());
                                    break;
                                }
                                Some(d) => why = d,
                            }
                            // the comparison may have fed it more points
                            match guarded(|| Vsri::load(&ps).ok()).flatten() {
                                Some(y) => x = y,
                                None => break,
                            }
                        }
                        let Some(t) = hit else {
                            return bad("mixture", format!("step {i}: the index loaded is none of the {} it could be: {why}", allowed.len()));
                        };
                        v = match guarded(|| Vsri::load(&ps).ok()).flatten() {
                            Some(y) => y,
                            None => return bad("load-unstable", format!("step {i}: loading the same file again fails")),
                        };
                        m = Model::of(&t);
                        allowed = vec![t];
                        none_ok = false;
                    }
                    None => {
                        if !none_ok {
                            return bad("load-fails", format!("step {i}: the saved index ({} points) can no longer be loaded", allowed[0].len()));
                        }
                        v = Vsri::new(&own_s);
                        m = Model::default();
                        allowed.clear();
                    }
                }
            }
            w.note(m.times.len() as u64);
        }
        Ok(())
    }
    fn shrink(c: &C13Case) -> Vec<C13Case> {
        let mut out = vec![];
        for i in 0..c.ops.len() {
            let mut d = c.clone();
            d.ops.remove(i);
            out.push(d);
        }
        if c.name > 0 {
            out.push(C13Case { name: 0, ..c.clone() });
        }
        for i in 0..c.ops.len() {
            let mut put = |o: Op13| {
                let mut d = c.clone();
                d.ops[i] = o;
                out.push(d);
            };
            match &c.ops[i] {
                Op13::Update(t) => shrink_times(&t.0).into_iter().take(80).for_each(|t| put(Op13::Update(Times(t)))),
                Op13::Save { plan, own_name, lost } => {
                    if *own_name {
                        put(Op13::Save { plan: plan.clone(), own_name: false, lost: *lost });
                    }
                    if lost.is_some() {
                        put(Op13::Save { plan: plan.clone(), own_name: *own_name, lost: None });
                        put(Op13::Save { plan: plan.clone(), own_name: *own_name, lost: Some(0) });
                    }
                    shrink_plan(plan).into_iter().for_each(|p| put(Op13::Save { plan: p, own_name: *own_name, lost: *lost }));
                }
                Op13::Restart(p) => shrink_plan(p).into_iter().for_each(|p| put(Op13::Restart(p))),
                Op13::Copy(p) => shrink_plan(p).into_iter().for_each(|p| put(Op13::Copy(p))),
            }
        }
        out
    }
    fn label(c: &C13Case) -> String {
        let s: String = c
            .ops
            .iter()
            .map(|o| match o {
                Op13::Update(t) => format!("u{}", t.0.len()),
                Op13::Save { plan, own_name, lost } => format!(
                    "{}{}{}",
                    if *own_name { "f" } else { "t" },
                    if plan.faults.is_empty() { "" } else { "!" },
                    if lost.is_some() { "~" } else { "" }
                ),
                Op13::Restart(_) => "r".into(),
                Op13::Copy(_) => "c".into(),
            })
            .collect();
        format!("{}ops/{s}", c.ops.len())
    }
}

// ---------------------------------------------------------------- C18
#[derive(Clone, Serialize, Deserialize)]
pub struct C18Case {
    pub times: Times,
    pub restarts: Vec<(u32, Plan)>,
    pub probes: Times,
    pub ranges: Vec<(i32, i32)>,
}
pub struct C18;

fn check_ranges(v: &Vsri, m: &Model, c: &C18Case, tag: &str) -> Res {
    let h = m.hulls();
    let pan = |what: &str, y: &dyn std::fmt::Debug| -> Verdict { Verdict::Violation { class: format!("panics-{what}"), detail: format!("{tag}: {what}({y:?}) panics") } };
    for &(a, b) in &c.ranges {
        if a > b {
            continue;
        }
        let covered = h.iter().any(|s| s.0 <= b && s.1 >= a);
        let e = guarded(|| v.is_empty([a, b])).ok_or_else(|| pan("is_empty", &(a, b)))?;
        if e == covered {
            let s: Vec<_> = h.iter().take(6).map(|s| (s.0, s.1)).collect();
            return bad("is-empty", format!("{tag}: the range {a}..{b} is reported {}; segments {:?}", if e { "empty" } else { "not empty" }, s));
        }
    }
    if m.times.is_empty() {
        return Ok(());
    }
    let (first, last) = (m.times[0], *m.times.last().unwrap());
    for &y in &c.probes.0 {
        let next = guarded(|| v.get_this_or_next(y)).ok_or_else(|| pan("get_this_or_next", &y))?;
        let prev = guarded(|| v.get_this_or_previous(y)).ok_or_else(|| pan("get_this_or_previous", &y))?;
        let (mut wn, mut wp) = (None, None);
        if let Ok(x) = m.times.binary_search(&y) {
            wn = Some(Some(x as i32));
            wp = Some(Some(x as i32));
        } else if y < first {
            wn = Some(Some(0));
            wp = Some(None);
        } else if y > last {
            wn = Some(None);
        } else if let Some(s) = h.windows(2).find(|s| s[0].1 < y && y < s[1].0) {
            wn = Some(Some(s[1].2 as i32));
            wp = Some(Some(s[0].3 as i32));
        }
        if wn.map_or(false, |x| x != next) {
            return bad("this-or-next", format!("{tag}: at or after {y} comes position {next:?} instead of {:?}", wn.unwrap()));
        }
        if wp.map_or(false, |x| x != prev) {
            return bad("this-or-previous", format!("{tag}: at or before {y} comes position {prev:?} instead of {:?}", wp.unwrap()));
        }
    }
    Ok(())
}

impl Prop for C18 {
    type Case = C18Case;
    const ID: &'static str = "C18";
    const RUNS: (u64, u64) = (3_000_000, 60_000_000);
    const RULE: &'static str = "An index built from strictly increasing times on sampling grids with any number of gaps and rate changes, with restarts (save, reload, continue) in between; range and nearest-sample queries around every segment end, inside gaps, before the start and after the end are compared with the indexed points before and after each restart.";
    const REAL: &'static str = "vsri library in process (updates, range queries, save, load)";
    fn gen(r: &mut Rng, _thorough: bool) -> C18Case {
        let times = gen_times_far(r, true, 1500);
        let mut probes = probe_times(r, &times);
        let m = Model::of(&times);
        let mut edges: Vec<i32> = vec![0, -5, DAY];
        for s in m.hulls() {
            edges.extend([s.0, s.1]);
        }
        for _ in 0..20 {
            let e = *r.pick(&edges);
            probes.push(e.saturating_add(r.range(-2, 2) as i32));
        }
        probes.sort();
        probes.dedup();
        let ranges = (0..24)
            .map(|_| {
                let a = if r.chance(3, 4) { r.pick(&edges).saturating_add(r.range(-2, 2) as i32) } else { r.range(-10, DAY as i64 + 10) as i32 };
                let a = if r.chance(1, 12) { *r.pick(&[i32::MIN, i32::MAX, -DAY]) } else { a };
                let b = match r.below(5) {
                    4 if r.chance(1, 3) => *r.pick(&[i32::MIN, i32::MAX]),
                    0 => a,
                    1 => a.saturating_add(r.range(0, 10) as i32),
                    2 => r.pick(&edges).saturating_add(r.range(-2, 2) as i32),
                    _ => a.saturating_add(r.range(0, 9000) as i32),
                };
                (a.min(b), a.max(b))
            })
            .collect();
        let restarts = (0..r.below(3)).map(|_| (r.below(times.len() as u64 + 1) as u32, benign_plan(r, times.len()))).collect();
        C18Case { times: Times(times), restarts, probes: Times(probes), ranges }
    }
    fn run(w: &mut World, c: &C18Case) -> Res {
        if !Model::of(&c.times.0).on_grid() || c.times.0.windows(2).any(|p| p[0] >= p[1]) {
            return Ok(());
        }
        w.reset(&Disk::new());
        let path = w.path("i.vsri");
        let ps = path.to_str().unwrap().to_string();
        let mut v = Vsri::new(&ps);
        let mut m = Model::default();
        for i in 0..=c.times.0.len() {
            for (_, p) in c.restarts.iter().filter(|x| x.0 as usize == i) {
                check_ranges(&v, &m, c, &format!("before the restart at update {i}"))?;
                if w.lib(p, &[], || v.flush_to(&path).is_ok()).value != Some(true) {
                    return bad("save-fails", format!("saving after {i} updates failed"));
                }
                match w.lib(p, &[], || Vsri::load(&ps).ok()).value.flatten() {
                    Some(x) => v = x,
                    None => return bad("load-fails", format!("an index saved after {i} updates cannot be loaded")),
                }
                check_ranges(&v, &m, c, &format!("after the restart at update {i}"))?;
            }
            let Some(&y) = c.times.0.get(i) else { break };
            if guarded(|| v.update_for_point(y).is_ok()) != Some(true) {
                return bad("update-fails", format!("update {i} to {y} fails"));
            }
            m.update(y);
        }
        w.note(m.segs.len() as u64);
        w.note(m.times.len() as u64);
        check_ranges(&v, &m, c, "in the end")
    }
    fn shrink(c: &C18Case) -> Vec<C18Case> {
        let mut out = vec![];
        for i in 0..c.restarts.len() {
            let mut d = c.clone();
            d.restarts.remove(i);
            out.push(d);
        }
        if !c.ranges.is_empty() {
            out.push(C18Case { ranges: vec![], ..c.clone() });
        }
        if !c.probes.0.is_empty() {
            out.push(C18Case { probes: Times(vec![]), ..c.clone() });
        }
        for i in 0..c.ranges.len() {
            out.push(C18Case { ranges: vec![c.ranges[i]], ..c.clone() });
        }
        for i in 0..c.probes.0.len() {
            out.push(C18Case { probes: Times(vec![c.probes.0[i]]), ..c.clone() });
        }
        for t in shrink_times(&c.times.0) {
            let n = t.len() as u32;
            out.push(C18Case { times: Times(t), restarts: c.restarts.iter().map(|(i, p)| ((*i).min(n), p.clone())).collect(), ..c.clone() });
        }
        for i in 0..c.restarts.len() {
            for p in shrink_plan(&c.restarts[i].1) {
                let mut d = c.clone();
                d.restarts[i].1 = p;
                out.push(d);
            }
        }
        out
    }
    fn label(c: &C18Case) -> String {
        let m = Model::of(&c.times.0);
        format!("{}segs/{}pts/{}", m.segs.len().min(9), m.times.len(), c.restarts.len())
    }
}
