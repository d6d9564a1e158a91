//! C21: several commands at the same time, every interleaving of their I/O chosen by the seed.
use super::common::*;
use super::faulty::{Job7, Scenario, Setup};
use super::index::{gen_times_far, Times};
use crate::node::{describe, index_of};
use crate::rng::Rng;
use crate::runner::*;
use crate::sim::*;
use serde::{Deserialize, Serialize};
use vsri::Vsri;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Mode {
    /// Commands on different inputs
    Apart,
    /// The same command several times
    Twice,
    /// A directory job, and single-file jobs on its files
    DirAndFile,
    /// A command, and others that read what it is writing
    Chain,
    /// A process that saves an index, and others that load it
    Index,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct Conc {
    pub mode: Mode,
    pub jobs: Vec<Scenario>,
    /// How the inputs are told apart: 0 by directory, otherwise by name
    pub naming: u8,
    /// Copies of the command, or readers
    pub copies: u8,
    /// One per process; only those of the first may hold faults
    pub plans: Vec<Plan>,
    /// Index: the versions that are saved; the first is there already if `old`
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub versions: Vec<Times>,
    #[serde(default)]
    pub old: bool,
    #[serde(default)]
    pub loads: u8,
    pub sched: Vec<(u8, u16)>,
}
pub struct C21;

/// Schedules from strict alternation to a few long bursts
pub fn gen_sched(r: &mut Rng, n: u8) -> Vec<(u8, u16)> {
    let style = r.below(5);
    let len = match style {
        0 => r.range(1, 4),
        1 => r.range(2, 12),
        _ => r.range(4, 60),
    };
    let cap = *r.pick(&[1i64, 2, 3, 6, 20]);
    let mut last = r.below(n as u64) as u8;
    (0..len)
        .map(|_| {
            last = if style == 3 { (last + 1) % n } else { r.below(n as u64) as u8 };
            let steps = match style {
                0 | 1 => *r.pick(&[1i64, 2, 3, 5, 8, 13, 21, 40, 100, 400]),
                3 => cap,
                _ => r.range(1, cap),
            };
            (last, steps as u16)
        })
        .collect()
}
pub fn shrink_sched(s: &[(u8, u16)]) -> Vec<Vec<(u8, u16)>> {
    let mut o = vec![];
    if s.is_empty() {
        return o;
    }
    o.push(vec![]);
    o.push(s[..s.len() / 2].to_vec());
    for i in 0..s.len() {
        let mut q = s.to_vec();
        q.remove(i);
        o.push(q);
    }
    for i in 1..s.len() {
        if s[i].0 == s[i - 1].0 {
            let mut q = s.to_vec();
            q[i - 1].1 = q[i - 1].1.saturating_add(q[i].1);
            q.remove(i);
            o.push(q);
        }
    }
    for i in 0..s.len() {
        for k in [s[i].1 / 2, s[i].1 - 1] {
            if k > 0 {
                let mut q = s.to_vec();
                q[i].1 = k;
                o.push(q);
            }
        }
    }
    o
}

/// Moves a scenario to names of its own
fn moved(st: Setup, pre: &str) -> Setup {
    let f = |n: &String| format!("{pre}{n}");
    Setup {
        disk: st.disk.iter().map(|(n, d)| (f(n), d.clone())).collect(),
        cmd: Cmd { args: st.cmd.args.iter().map(|a| a.strip_prefix('@').map(|n| format!("@{pre}{n}")).unwrap_or(a.clone())).collect(), ..st.cmd },
        inputs: st.inputs.iter().map(f).collect(),
        outputs: st.outputs.iter().map(f).collect(),
    }
}
fn prefix(naming: u8, k: usize) -> String {
    match naming {
        0 => format!("p{k}/"),
        1 => format!("k{k}-"),
        2 => "b.".repeat(k + 1),
        _ => format!("{}-", "x".repeat(k + 1)),
    }
}
fn is_dir(j: Job7) -> bool {
    matches!(j, Job7::CompressDir | Job7::DecompressDir)
}

/// The result of one command on its own; None if it does not succeed (not this property's concern)
fn alone(w: &mut World, disk: &Disk, c: &Cmd) -> Result<Option<Disk>, Verdict> {
    w.reset(disk);
    let x = w.exec(c, &Plan::default());
    must_end(&x)?;
    Ok(if x.ok() { Some(w.snapshot()) } else { None })
}
/// Faults of the first process, addressed in its own trace
fn resolve(w: &mut World, disk: &Disk, c: &Cmd, p: &Plan) -> Vec<(u32, FaultSel, i32)> {
    if p.faults.is_empty() {
        return vec![];
    }
    w.reset(disk);
    w.exec(c, &p.without_faults());
    let t = w.last_trace.clone();
    World::resolve(&p.faults, &t)
}
fn party(c: &Cmd, p: &Plan, faults: Vec<(u32, FaultSel, i32)>) -> Party {
    Party { cmd: c.clone(), plan: p.clone(), faults }
}
fn plan_of(c: &Conc, k: usize) -> Plan {
    c.plans.get(k).cloned().unwrap_or_default()
}
fn ends(x: &[Exit]) -> Res {
    for e in x {
        must_end(e)?;
    }
    Ok(())
}

impl C21 {
    fn apart(w: &mut World, c: &Conc) -> Res {
        let mut all = Disk::new();
        let mut want = Disk::new();
        let mut sts = vec![];
        for (k, sc) in c.jobs.iter().enumerate() {
            let Some(st) = sc.setup(w)? else { return Ok(()) };
            let st = moved(st, &prefix(c.naming, k));
            let Some(d) = alone(w, &st.disk, &st.cmd)? else { return Ok(()) };
            all.extend(st.disk.clone());
            want.extend(d);
            sts.push(st);
        }
        let mut parties = vec![];
        for (k, st) in sts.iter().enumerate() {
            let p = plan_of(c, k);
            let f = if k == 0 { resolve(w, &all, &st.cmd, &p) } else { vec![] };
            parties.push(party(&st.cmd, &p, f));
        }
        let faulty = !parties[0].faults.is_empty();
        w.reset(&all);
        let x = w.exec_group(&parties, &c.sched);
        ends(&x)?;
        let got = w.snapshot();
        let pre = prefix(c.naming, 0);
        for (k, e) in x.iter().enumerate() {
            if !e.ok() && !(k == 0 && faulty) {
                return bad("fails", format!("{:?} fails ({e:?}) while others run on other inputs; alone it succeeds", c.jobs[k].job));
            }
        }
        // what a faulty command leaves of its own outputs is its own business
        let mine = |n: &String| faulty && n.starts_with(&pre) && !sts[0].inputs.contains(n);
        let strip = |d: &Disk| -> Disk { d.iter().filter(|(n, _)| !mine(n)).map(|(n, b)| (n.clone(), b.clone())).collect() };
        if let Some(d) = diff_disks(&strip(&want), &strip(&got)) {
            return bad("outputs", format!("commands on different inputs at the same time: {d}"));
        }
        if faulty && x[0].ok() {
            for o in &sts[0].outputs {
                if got.get(o) != want.get(o) {
                    return bad("outputs", format!("{o} is wrong although its command reported success"));
                }
            }
        }
        Ok(())
    }

    fn twice(w: &mut World, c: &Conc) -> Res {
        let sc = &c.jobs[0];
        let Some(st) = sc.setup(w)? else { return Ok(()) };
        let Some(want) = alone(w, &st.disk, &st.cmd)? else { return Ok(()) };
        let mut parties = vec![];
        for k in 0..c.copies.max(2) as usize {
            let mut cm = st.cmd.clone();
            if c.mode == Mode::DirAndFile && k > 0 {
                // single-file jobs on the inputs of the directory job
                let i = (k - 1) % st.inputs.len();
                *cm.args.last_mut().unwrap() = format!("@{}", st.inputs[i]);
            }
            parties.push(party(&cm, &plan_of(c, k), vec![]));
        }
        w.reset(&st.disk);
        let x = w.exec_group(&parties, &c.sched);
        ends(&x)?;
        for (k, e) in x.iter().enumerate() {
            // a directory job may come across an output of the other one, which is not in the format it expects
            let dir = is_dir(sc.job) && !(c.mode == Mode::DirAndFile && k > 0);
            if !(e.ok() || dir && matches!(e, Exit::Code(_))) {
                return bad("fails", format!("{:?} run {} times at once: number {k} fails ({e:?})", sc.job, x.len()));
            }
        }
        if let Some(d) = diff_disks(&want, &w.snapshot()) {
            return bad("outputs", format!("{:?} run {} times at once: {d}", sc.job, x.len()));
        }
        Ok(())
    }

    fn chain(w: &mut World, c: &Conc) -> Res {
        let sc = &c.jobs[0];
        let Some(mut st) = sc.setup(w)? else { return Ok(()) };
        // the readers' output must not be the writer's input
        if matches!(sc.job, Job7::Compress | Job7::Decompress) {
            let (from, to) = (st.inputs[0].clone(), "s.raw".to_string());
            let d = st.disk.remove(&from).unwrap();
            st.disk.insert(to.clone(), d);
            *st.cmd.args.last_mut().unwrap() = format!("@{to}");
            st.inputs = vec![to];
        }
        let o = sc.opts.args();
        let (reader, outs): (Cmd, Vec<&str>) = match sc.job {
            Job7::Archive => {
                st.disk.insert("q/keep".into(), vec![]);
                (cmd(Tool::Csvc, &[&strs(&["-u", "--output", "@q/out.any"])], "@s.bro"), vec!["q/out.wbro", "q/out.csv"])
            }
            Job7::Compress | Job7::CompressCsv | Job7::CompressCsvNoHeader => (cmd(Tool::Atsc, &[&strs(&["-u"])], "@s.bro"), vec!["s.wbro"]),
            _ => (cmd(Tool::Atsc, &[&o], "@s.wbro"), vec!["s.bro"]),
        };
        let Some(mid) = alone(w, &st.disk, &st.cmd)? else { return Ok(()) };
        let Some(end) = alone(w, &mid, &reader)? else { return Ok(()) };
        let mut parties = vec![];
        for k in 0..1 + c.copies.max(1) as usize {
            let p = plan_of(c, k);
            if k == 0 {
                let f = resolve(w, &st.disk, &st.cmd, &p);
                parties.push(party(&st.cmd, &p, f));
            } else {
                parties.push(party(&reader, &p, vec![]));
            }
        }
        w.reset(&st.disk);
        let x = w.exec_group(&parties, &c.sched);
        ends(&x)?;
        let got = w.snapshot();
        if parties[0].faults.is_empty() {
            if !x[0].ok() {
                return bad("fails", format!("{:?} fails ({:?}) while its output is being read; alone it succeeds", sc.job, x[0]));
            }
            for f in &st.outputs {
                if got.get(f) != mid.get(f) {
                    return bad("outputs", format!("{f} is wrong after it was read while being written"));
                }
            }
        }
        let any = x[1..].iter().any(|e| e.ok());
        for f in &outs {
            match got.get(*f) {
                None if any => return bad("lost", format!("a reader of a file in the making succeeds, but {f} is missing")),
                Some(_) if !any => return bad("partial", format!("a reader of a file in the making fails ({:?}), but leaves {f}", &x[1..])),
                Some(d) if end.get(*f) != Some(d) => return bad("partial", format!("{f}, made from a file in the making, is not what the complete file gives")),
                _ => {}
            }
        }
        for i in &st.inputs {
            if got.get(i) != st.disk.get(i) {
                return bad("inputs", format!("{i} changed"));
            }
        }
        Ok(())
    }

    fn index(w: &mut World, c: &Conc) -> Res {
        let all: Vec<String> = c.versions.iter().map(|t| describe(&index_of(&t.0, "i"))).collect();
        if all.is_empty() {
            return Ok(());
        }
        w.reset(&Disk::new());
        let first = c.old as usize;
        if c.old {
            let p = w.path("i.vsri");
            if guarded(|| index_of(&c.versions[0].0, "i").flush_to(&p).is_ok()) != Some(true) {
                return Ok(());
            }
        }
        let disk = w.snapshot();
        let mut args = strs(&["node", "save", "@i.vsri"]);
        args.extend(c.versions[first..].iter().map(|t| t.0.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")));
        let save = Cmd { tool: Tool::Node, args, abs: false };
        let p = plan_of(c, 0);
        let f = resolve(w, &disk, &save, &p);
        let mut parties = vec![party(&save, &p, f)];
        let n = c.copies.max(1) as usize;
        let out = |w: &World, k: usize| w.base.join(format!("load{k}.out"));
        for k in 1..=n {
            let _ = std::fs::remove_file(out(w, k));
            let args = vec!["node".into(), "load".into(), "@i.vsri".into(), out(w, k).display().to_string(), c.loads.max(1).to_string()];
            parties.push(party(&Cmd { tool: Tool::Node, args, abs: false }, &plan_of(c, k), vec![]));
        }
        w.reset(&disk);
        let x = w.exec_group(&parties, &c.sched);
        ends(&x)?;
        let healthy = parties[0].faults.is_empty();
        if healthy && !x[0].ok() {
            return bad("fails", format!("saving an index fails ({:?}) while it is being loaded", x[0]));
        }
        // no reader ever goes back in time; the last word is a load when all is over
        let last = describe_file(w);
        for k in 1..=n {
            if !x[k].ok() {
                return bad("fails", format!("the loading process failed: {:?}", x[k]));
            }
            let text = std::fs::read_to_string(out(w, k)).unwrap_or_default();
            let _ = std::fs::remove_file(out(w, k));
            let mut cur: Option<usize> = if c.old { Some(0) } else { None };
            for l in text.lines().chain([last.as_str()]) {
                if cur.is_none() && l == "error NotFound" {
                    continue;
                }
                match (cur.unwrap_or(0)..all.len()).find(|i| all[*i] == l) {
                    Some(i) => cur = Some(i),
                    None => return bad("mixture", format!("an index loaded while it is being saved is none of the versions in full: {}", l.chars().take(200).collect::<String>())),
                }
            }
        }
        if x[0].ok() && last != *all.last().unwrap() {
            return bad("lost", "a save that reported success is not what a later load gives");
        }
        Ok(())
    }
}

fn describe_file(w: &World) -> String {
    let p = w.path("i.vsri");
    match guarded(|| Vsri::load(p.to_str().unwrap())) {
        Some(Ok(v)) => describe(&v),
        Some(Err(e)) => format!("error {:?}", e.kind()),
        None => "panic".into(),
    }
}

fn gen_job(r: &mut Rng, ok: &[Job7]) -> Scenario {
    loop {
        let mut s = Scenario::gen(r);
        if !ok.contains(&s.job) {
            s.job = *r.pick(ok);
            if s.opts.compressor == "rle" && matches!(s.job, Job7::Archive | Job7::Unarchive) {
                continue;
            }
            if matches!(s.job, Job7::Wav) || s.series.0.iter().all(|x| x.is_finite()) {
                s.series.0.truncate(600);
                return s;
            }
        } else {
            s.series.0.truncate(600);
            return s;
        }
    }
}

impl Prop for C21 {
    type Case = Conc;
    const ID: &'static str = "C21";
    const RUNS: (u64, u64) = (18_000, 600_000);
    const RULE: &'static str = "Two to four processes at once under a seeded scheduler that decides before every I/O event which of them goes on, with split and interrupted transfers, clocks of their own and sometimes a crash or error of the first: commands on different inputs in one or several directories, the same command several times, a directory job next to single-file jobs, readers of a file that is being written, and loads of an index that is being saved.";
    const REAL: &'static str = "atsc, csv-compressor and wav2wbro command-line tools (release build, unmodified) and small clients of the vsri library, all as processes of their own";
    const STUB: &'static str = "the process scheduler (one process at a time, switched at I/O events), disk transfers, errors, directory order, clocks and randomness: the simulator's seam at the C library boundary";
    const ASSUMPTIONS: &'static [&'static str] = &["Processes are switched at I/O and stat calls on the simulated disk; a process does not run between two of its I/O calls while another one does"];
    fn gen(r: &mut Rng, _thorough: bool) -> Conc {
        use Job7::*;
        let mode = *r.pick(&[Mode::Apart, Mode::Apart, Mode::Apart, Mode::Twice, Mode::Twice, Mode::DirAndFile, Mode::Chain, Mode::Chain, Mode::Index, Mode::Index]);
        let mut c = Conc { mode, jobs: vec![], naming: r.below(4) as u8, copies: r.range(1, 3) as u8, plans: vec![], versions: vec![], old: false, loads: 0, sched: vec![] };
        let n = match mode {
            Mode::Apart => {
                let n = r.range(2, 4) as usize;
                let same = r.chance(1, 3).then(|| *r.pick(&super::faulty::JOBS));
                for _ in 0..n {
                    let kinds = same.map(|j| vec![j]).unwrap_or(super::faulty::JOBS.to_vec());
                    c.jobs.push(gen_job(r, &kinds));
                }
                n
            }
            Mode::Twice => {
                let mut s = gen_job(r, &[Compress, CompressCsv, CompressCsvNoHeader, Decompress, CompressDir, DecompressDir, Archive, Unarchive, Wav]);
                if s.job == Archive {
                    // two writers of one index share a temporary file: not promised
                    s.outs &= !1;
                }
                c.jobs.push(s);
                c.copies = r.range(2, 3) as u8;
                c.copies as usize
            }
            Mode::DirAndFile => {
                c.jobs.push(gen_job(r, &[CompressDir, DecompressDir]));
                c.copies = r.range(2, 3) as u8;
                c.copies as usize
            }
            Mode::Chain => {
                let mut s = gen_job(r, &[Compress, CompressCsv, CompressCsvNoHeader, Decompress, Archive, Wav]);
                s.outs = 1;
                s.stale = None;
                s.abs = false;
                c.jobs.push(s);
                1 + c.copies as usize
            }
            Mode::Index => {
                let k = r.range(2, 4);
                let mut t = vec![];
                for _ in 0..k {
                    // a later version often continues the one before
                    if r.chance(1, 2) || t.is_empty() {
                        t = gen_times_far(r, false, 60);
                        if t.len() > 60 {
                            t.truncate(60);
                        }
                    } else {
                        let l = t.iter().copied().max().unwrap_or(0);
                        let g = *r.pick(&[1, 5, 17, 600]);
                        t.extend((1..=r.range(1, 8) as i32).filter_map(|i| l.checked_add(g * i)));
                    }
                    c.versions.push(Times(t.clone()));
                }
                c.old = r.chance(2, 3);
                c.loads = r.range(1, 4) as u8;
                1 + c.copies as usize
            }
        };
        for k in 0..n {
            let size = c.jobs.get(k).or(c.jobs.first()).map(|s| s.series.0.len() * 8).unwrap_or(500) * 3;
            let mut p = benign_plan(r, size);
            if k == 0 && matches!(mode, Mode::Apart | Mode::Chain | Mode::Index) && r.chance(1, 4) {
                p.faults.push(hard_fault(r, true, true));
            }
            c.plans.push(p);
        }
        c.sched = gen_sched(r, n as u8);
        c
    }
    fn run(w: &mut World, c: &Conc) -> Res {
        match c.mode {
            Mode::Apart => Self::apart(w, c),
            Mode::Twice | Mode::DirAndFile => Self::twice(w, c),
            Mode::Chain => Self::chain(w, c),
            Mode::Index => Self::index(w, c),
        }
    }
    fn shrink(c: &Conc) -> Vec<Conc> {
        let mut o = vec![];
        // a process less
        if c.mode == Mode::Apart && c.jobs.len() > 2 {
            for k in 0..c.jobs.len() {
                let mut q = c.clone();
                q.jobs.remove(k);
                if k < q.plans.len() {
                    q.plans.remove(k);
                }
                q.sched = c.sched.iter().filter(|s| s.0 as usize != k).map(|s| (if s.0 as usize > k { s.0 - 1 } else { s.0 }, s.1)).collect();
                o.push(q);
            }
        }
        if c.mode != Mode::Apart && c.copies > 1 {
            let mut q = c.clone();
            q.copies -= 1;
            let n = q.plans.len().saturating_sub(1);
            q.plans.truncate(n);
            q.sched.retain(|s| (s.0 as usize) < n);
            o.push(q);
        }
        for s in shrink_sched(&c.sched) {
            o.push(Conc { sched: s, ..c.clone() });
        }
        for k in 0..c.plans.len() {
            for p in shrink_plan(&c.plans[k]) {
                let mut q = c.clone();
                q.plans[k] = p;
                o.push(q);
            }
        }
        for k in 0..c.jobs.len() {
            for s in c.jobs[k].shrink() {
                let mut q = c.clone();
                if (c.mode == Mode::Chain && s.outs != c.jobs[k].outs) || s.job != c.jobs[k].job {
                    continue;
                }
                q.jobs[k] = s;
                o.push(q);
            }
        }
        for k in 0..c.versions.len() {
            if c.versions.len() > 1 {
                let mut q = c.clone();
                q.versions.remove(k);
                o.push(q);
            }
            let t = &c.versions[k].0;
            for i in 0..t.len().min(30) {
                let mut q = c.clone();
                q.versions[k].0.remove(i);
                o.push(q);
            }
        }
        if c.loads > 1 {
            o.push(Conc { loads: c.loads - 1, ..c.clone() });
        }
        if c.naming > 0 {
            o.push(Conc { naming: c.naming - 1, ..c.clone() });
        }
        o
    }
    fn label(c: &Conc) -> String {
        format!("{:?}/{}/{}/{}", c.mode, c.jobs.iter().map(|j| j.label()).collect::<Vec<_>>().join("+"), c.plans.len(), c.versions.len())
    }
}
