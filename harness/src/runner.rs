//! Seeded search: workers, merging, minimisation, replay files, evidence.
use crate::ctl::{CTN, CT_NAMES};
use crate::props;
use crate::rng::{hash_str, mix, Rng};
use crate::sim::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Ok,
    /// Nothing can be concluded (a time limit was hit)
    Inconclusive(String),
    Violation { class: String, detail: String },
}
pub fn bad<T>(class: &str, detail: impl Into<String>) -> Result<T, Verdict> {
    Err(Verdict::Violation { class: class.to_string(), detail: detail.into() })
}
pub type Res = Result<(), Verdict>;

pub trait Prop {
    type Case: Clone + Serialize + DeserializeOwned;
    const ID: &'static str;
    /// Runs of a quick / thorough check
    const RUNS: (u64, u64);
    const RULE: &'static str;
    const REAL: &'static str;
    const STUB: &'static str = "disk transfers, errors, capacity and directory order, clock and randomness: the simulator's seam at the C library boundary; file contents live on a RAM-backed scratch directory";
    const ASSUMPTIONS: &'static [&'static str] = &[];
    fn gen(r: &mut Rng, thorough: bool) -> Self::Case;
    fn run(w: &mut World, c: &Self::Case) -> Res;
    fn shrink(c: &Self::Case) -> Vec<Self::Case>;
    /// Shape of the workload: distinguishes runs, names probes
    fn label(c: &Self::Case) -> String;
}

#[derive(Serialize, Deserialize, Default)]
struct WorkerOut {
    runs: u64,
    inconclusive: u64,
    nontrivial: u64,
    counters: [u64; CTN],
    events: u64,
    sim_s: f64,
    procs: u64,
    libs: u64,
    bytes: u64,
    sigs: Vec<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<Value>,
    violation: Option<Viol>,
    seconds: f64,
    sighash: BTreeMap<u64, u64>,
}
#[derive(Serialize, Deserialize, Clone)]
struct Viol {
    index: u64,
    seed: u64,
    class: String,
    detail: String,
    case: Value,
}

struct Env {
    verif: PathBuf,
    bins: PathBuf,
    shim: PathBuf,
    seed: u64,
    thorough: bool,
}

fn env() -> Env {
    let verif = PathBuf::from(std::env::var("VSIM_HOME").unwrap_or_else(|_| "/verif".into()));
    Env {
        bins: PathBuf::from(std::env::var("VSIM_BINS").unwrap_or_else(|_| verif.join("target/bins/release").display().to_string())),
        shim: PathBuf::from(std::env::var("VSIM_SHIM").unwrap_or_else(|_| verif.join("target/libvsim.so").display().to_string())),
        verif,
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1),
        thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
    }
}

fn run_seed(base: u64, id: &str, index: u64) -> u64 {
    mix(mix(base ^ hash_str(id)).wrapping_add(index.wrapping_mul(0x9e3779b97f4a7c15)))
}

fn one<P: Prop>(w: &mut World, c: &P::Case) -> Verdict {
    w.begin_run();
    w.reset(&Disk::new());
    // Checks guard the calls whose panics they expect; should another one panic, that is an outcome too
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| P::run(w, c))) {
        Ok(Ok(())) => Verdict::Ok,
        Ok(Err(v)) => v,
        Err(e) => match panicked_in_code_under_test() {
            Some(at) => Verdict::Violation { class: "panics".into(), detail: format!("a library call panics at {at}") },
            None => std::panic::resume_unwind(e),
        },
    }
}

pub fn main(args: &[String]) -> i32 {
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    match cmd {
        "node" => crate::node::main(&args[2..]),
        "check" => props::dispatch(&args[2], Job::Check),
        "worker" => props::dispatch(
            &args[2],
            Job::Worker {
                start: args[3].parse().unwrap(),
                stride: args[4].parse().unwrap(),
                count: args[5].parse().unwrap(),
                secs: args[6].parse().unwrap(),
                hashes: args.get(7).map(|s| s == "hashes").unwrap_or(false),
            },
        ),
        "selftest" => props::dispatch(&args[2], Job::SelfTest { runs: args.get(3).and_then(|s| s.parse().ok()).unwrap_or(200) }),
        c @ ("replay" | "minimise") => {
            let v: Value = match std::fs::read_to_string(&args[2]).ok().and_then(|s| serde_json::from_str(&s).ok()) {
                Some(v) => v,
                None => {
                    eprintln!("cannot read replay file {}", args[2]);
                    return 2;
                }
            };
            let id = v["property"].as_str().unwrap_or("").to_string();
            if c == "minimise" {
                return props::dispatch(&id, Job::Minimise { file: v, path: args[2].clone() });
            }
            props::dispatch(&id, Job::Replay { file: v, quiet: args.get(3).map(|s| s == "quiet").unwrap_or(false), path: args[2].clone() })
        }
        "mkold" => {
            let e = env();
            let mut w = world(&e, "mkold");
            props::compat::make(&mut w, &args[2], args[3].parse().unwrap());
            0
        }
        "gen" => props::dispatch(&args[2], Job::Gen { index: args[3].parse().unwrap() }),
        _ => {
            eprintln!("usage: vsim check|worker|replay|selftest|gen ...");
            2
        }
    }
}

pub enum Job {
    Check,
    Worker { start: u64, stride: u64, count: u64, secs: f64, hashes: bool },
    Replay { file: Value, quiet: bool, path: String },
    Minimise { file: Value, path: String },
    SelfTest { runs: u64 },
    Gen { index: u64 },
}

pub fn go<P: Prop>(job: Job) -> i32 {
    let e = env();
    match job {
        Job::Check => check::<P>(&e),
        Job::Worker { start, stride, count, secs, hashes } => worker::<P>(&e, start, stride, count, secs, hashes),
        Job::Replay { file, quiet, path } => replay::<P>(&e, file, quiet, &path),
        Job::Minimise { file, path } => minimise::<P>(&e, file, &path),
        Job::SelfTest { runs } => selftest::<P>(&e, runs),
        Job::Gen { index } => {
            let mut r = Rng::new(run_seed(e.seed, P::ID, index));
            let c = P::gen(&mut r, e.thorough);
            println!("{}", serde_json::to_string_pretty(&json!({"property": P::ID, "case": c})).unwrap());
            0
        }
    }
}

fn world(e: &Env, tag: &str) -> World {
    let w = World::new(tag, &e.bins, &e.shim);
    w.limit_memory(1 << 30);
    w
}

fn worker<P: Prop>(e: &Env, start: u64, stride: u64, count: u64, secs: f64, hashes: bool) -> i32 {
    let t0 = Instant::now();
    let mut w = world(e, &format!("{}-{}", P::ID, start));
    let mut o = WorkerOut::default();
    let mut i = start;
    let beacon = beacon_attach(start);
    while i < count {
        // The run in progress, for the parent in case this process dies in it
        unsafe { std::ptr::write_volatile(beacon, i + 1) };
        if t0.elapsed().as_secs_f64() > secs {
            break;
        }
        let seed = run_seed(e.seed, P::ID, i);
        let mut r = Rng::new(seed);
        let c = P::gen(&mut r, e.thorough);
        let label = P::label(&c);
        let v = one::<P>(&mut w, &c);
        o.runs += 1;
        *o.labels.entry(label.split('/').next().unwrap_or("").to_string()).or_default() += 1;
        let sig = w.sig ^ hash_str(&label);
        if w.fired > 0 {
            o.nontrivial += 1;
            o.sigs.push(sig);
        }
        if hashes {
            o.sighash.insert(i, w.sig);
        }
        if o.samples.len() < 3 && w.fired > 0 {
            let mut cv = serde_json::to_value(&c).unwrap();
            trim_value(&mut cv);
            o.samples.push(json!({"index": i, "run_seed": format!("{seed:016x}"), "shape": label, "case": cv, "perturbations_fired": w.fired}));
        }
        match v {
            Verdict::Ok => {}
            Verdict::Inconclusive(_) => o.inconclusive += 1,
            Verdict::Violation { class, detail } => {
                o.violation = Some(Viol { index: i, seed, class, detail, case: serde_json::to_value(&c).unwrap() });
                break;
            }
        }
        i += stride;
    }
    o.counters = w.stats.counters;
    o.events = w.stats.events;
    o.sim_s = w.stats.sim_s;
    o.procs = w.stats.procs;
    o.libs = w.stats.libs;
    o.bytes = w.stats.bytes;
    o.seconds = t0.elapsed().as_secs_f64();
    drop(w);
    println!("{}", serde_json::to_string(&o).unwrap());
    0
}

fn trim_value(v: &mut Value) {
    match v {
        Value::String(s) if s.len() > 160 => {
            let mut cut = 140;
            while !s.is_char_boundary(cut) {
                cut -= 1;
            }
            *s = format!("{} ...({} chars)", &s[..cut], s.len());
        }
        Value::Array(a) => {
            if a.len() > 30 {
                let n = a.len();
                a.truncate(25);
                a.push(json!(format!("... {n} in all")));
            }
            a.iter_mut().for_each(trim_value)
        }
        Value::Object(m) => m.values_mut().for_each(trim_value),
        _ => {}
    }
}

/// A page shared with the workers in which each notes the run it is in
struct Beacon {
    fd: i32,
    p: *mut u64,
}
const BEACON_SLOTS: usize = 64;
impl Beacon {
    fn new() -> Beacon {
        unsafe {
            let fd = libc::syscall(libc::SYS_memfd_create, b"beacon\0".as_ptr(), 0) as i32;
            assert!(fd >= 0 && libc::ftruncate(fd, (BEACON_SLOTS * 8) as i64) == 0);
            let p = libc::mmap(std::ptr::null_mut(), BEACON_SLOTS * 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
            assert!(p != libc::MAP_FAILED);
            Beacon { fd, p: p as *mut u64 }
        }
    }
    fn get(&self, k: usize) -> u64 {
        unsafe { std::ptr::read_volatile(self.p.add(k % BEACON_SLOTS)) }
    }
}
impl Drop for Beacon {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.p as *mut _, BEACON_SLOTS * 8);
            libc::close(self.fd);
        }
    }
}
fn beacon_attach(k: u64) -> *mut u64 {
    let fd = std::env::var("VSIM_BEACON").ok().and_then(|s| s.parse::<i32>().ok());
    unsafe {
        if let Some(fd) = fd {
            let p = libc::mmap(std::ptr::null_mut(), BEACON_SLOTS * 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
            libc::close(fd);
            if p != libc::MAP_FAILED {
                return (p as *mut u64).add(k as usize % BEACON_SLOTS);
            }
        }
    }
    Box::leak(Box::new(0u64))
}

/// A worker that has been in one run for this long hangs in library code
/// (of processor time, or five times that of a clock on the wall)
const STUCK_S: u64 = 60;
fn stuck(pid: u32, cpu0: f64, t0: Instant) -> bool {
    let wall = t0.elapsed().as_secs();
    wall > STUCK_S && (wall > 5 * STUCK_S || crate::sim::cpu_s(pid).unwrap_or(0.0) - cpu0 > STUCK_S as f64 * 0.9)
}

/// What became of the workers: their results, and the run in which one of them died or hung, if any
struct Spawned {
    outs: Vec<WorkerOut>,
    lost: Option<(u64, &'static str, String)>,
}

fn spawn_workers(e: &Env, id: &str, n: u64, runs: u64, secs: f64, hashes: bool) -> Result<Spawned, String> {
    let exe = std::env::current_exe().map_err(|x| x.to_string())?;
    let beacon = Beacon::new();
    let mut kids = vec![];
    for k in 0..n {
        let mut c = Command::new(&exe);
        c.args(["worker", id, &k.to_string(), &n.to_string(), &runs.to_string(), &secs.to_string()]);
        if hashes {
            c.arg("hashes");
        }
        c.env("VERIF_SEED", e.seed.to_string()).env("VSIM_BEACON", beacon.fd.to_string());
        c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::inherit());
        kids.push(c.spawn().map_err(|x| x.to_string())?);
    }
    let (tx, rx) = std::sync::mpsc::channel();
    let mut pids = vec![];
    for (k, mut kid) in kids.into_iter().enumerate() {
        pids.push(kid.id());
        let tx = tx.clone();
        std::thread::spawn(move || {
            let mut line = String::new();
            let mut rd = BufReader::new(kid.stdout.take().unwrap());
            let _ = rd.read_line(&mut line);
            let st = kid.wait();
            let _ = tx.send((k, line, st.map(|s| s.to_string()).unwrap_or_default()));
        });
    }
    drop(tx);
    let mut out = vec![];
    let mut stop = false;
    let mut lost = None;
    let mut live: BTreeSet<usize> = (0..pids.len()).collect();
    let mut seen: Vec<(u64, Instant, f64)> = vec![(0, Instant::now(), 0.0); pids.len()];
    let end = |live: &BTreeSet<usize>| {
        for j in live {
            unsafe { libc::kill(pids[*j] as i32, libc::SIGKILL) };
        }
    };
    loop {
        let (k, line, st) = match rx.recv_timeout(Duration::from_secs(1)) {
            Ok(x) => x,
            Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => break,
            Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {
                for &k in &live {
                    let at = beacon.get(k);
                    if at != seen[k].0 {
                        seen[k] = (at, Instant::now(), crate::sim::cpu_s(pids[k]).unwrap_or(0.0));
                    } else if at > 0 && !stop && stuck(pids[k], seen[k].2, seen[k].1) {
                        lost = Some((at - 1, "hang", format!("the run did not end within {STUCK_S} s")));
                        stop = true;
                        end(&live);
                        break;
                    }
                }
                continue;
            }
        };
        live.remove(&k);
        match serde_json::from_str::<WorkerOut>(&line) {
            Ok(o) => {
                if o.violation.is_some() && !stop {
                    // one is enough: end the others and remove what they leave behind
                    stop = true;
                    end(&live);
                }
                out.push(o);
            }
            Err(x) => {
                if !stop {
                    if !st.starts_with("signal") || beacon.get(k) == 0 {
                        return Err(format!("worker {k} of {id} gave no result ({st}): {x}"));
                    }
                    lost = Some((beacon.get(k) - 1, "died", format!("the library code ended the process: {st}")));
                    stop = true;
                    end(&live);
                }
                for d in ["/dev/shm", "/tmp"] {
                    let _ = std::fs::remove_dir_all(format!("{d}/vsim-{id}-{k}-{}", pids[k]));
                }
            }
        }
    }
    Ok(Spawned { outs: out, lost })
}

fn known(e: &Env, id: &str) -> Vec<(String, String)> {
    // lines: known: property=<id> class=<class> <what fails>
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(e.verif.join("known_findings.txt")) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("known: ") {
                let mut p = rest.splitn(3, ' ');
                let (a, b, c) = (p.next().unwrap_or(""), p.next().unwrap_or(""), p.next().unwrap_or(""));
                if a == format!("property={id}") {
                    v.push((b.trim_start_matches("class=").to_string(), c.to_string()));
                }
            }
        }
    }
    v
}

fn check<P: Prop>(e: &Env) -> i32 {
    let t0 = Instant::now();
    let id = P::ID;
    let ncpu = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 16);
    let runs = std::env::var("VSIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(if e.thorough { P::RUNS.1 } else { P::RUNS.0 });
    let secs = std::env::var("VSIM_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if e.thorough { 3000.0 } else { 100.0 });
    println!("{id}: VERIF_SEED={} runs={runs} workers={ncpu} tier={}", e.seed, if e.thorough { "thorough" } else { "quick" });
    for (class, what) in known(e, id) {
        println!("KNOWN-FINDING: property={id} {class} {what}");
    }
    let Spawned { outs, lost } = match spawn_workers(e, id, ncpu, runs, secs, false) {
        Ok(o) => o,
        Err(m) => {
            eprintln!("{m}");
            return 2;
        }
    };
    let explore = t0.elapsed().as_secs_f64();
    let mut t = WorkerOut::default();
    let mut sigs = BTreeSet::new();
    let mut first: Option<Viol> = None;
    for o in outs {
        t.runs += o.runs;
        t.inconclusive += o.inconclusive;
        t.nontrivial += o.nontrivial;
        for i in 0..CTN {
            t.counters[i] += o.counters[i];
        }
        t.events += o.events;
        t.sim_s += o.sim_s;
        t.procs += o.procs;
        t.libs += o.libs;
        t.bytes += o.bytes;
        sigs.extend(o.sigs);
        for (k, v) in o.labels {
            *t.labels.entry(k).or_default() += v;
        }
        if t.samples.len() < 6 {
            t.samples.extend(o.samples.into_iter().take(2));
        }
        if let Some(v) = o.violation {
            if first.as_ref().map(|f| v.index < f.index).unwrap_or(true) {
                first = Some(v);
            }
        }
    }
    if let (None, Some((index, class, detail))) = (&first, lost) {
        let seed = run_seed(e.seed, id, index);
        let c = P::gen(&mut Rng::new(seed), e.thorough);
        first = Some(Viol { index, seed, class: class.to_string(), detail, case: serde_json::to_value(&c).unwrap() });
    }
    let mut code = 0;
    let mut replay_path = String::new();
    let mut fresh = 0;
    if let Some(v) = &first {
        match report::<P>(e, v) {
            Ok(p) => {
                println!("violation class: {}", v.class);
                println!("VIOLATION property={id} replay={}", p.display());
                replay_path = p.display().to_string();
                code = 1;
                fresh = 1;
            }
            Err(m) => {
                eprintln!("{id}: {m}");
                return 2;
            }
        }
    }
    let mut faults = serde_json::Map::new();
    for (i, n) in CT_NAMES.iter().enumerate() {
        if t.counters[i] > 0 {
            faults.insert(n.to_string(), json!(t.counters[i]));
        }
    }
    let hours = explore / 3600.0;
    let ev = json!({
        "property": id,
        "tier": if e.thorough { "thorough" } else { "quick" },
        "seed": e.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": sigs.len(),
            "rule": format!("{} A run is non-trivial if at least one perturbation (fault, split, interruption, crash, listing order, external change) really fired in it; two runs are the same if workload shape and the hash of their whole event and outcome trace agree.", P::RULE),
            "nontrivial_runs": t.nontrivial,
            "inconclusive_runs": t.inconclusive,
            "runs_per_hour": (t.runs as f64 / hours.max(1e-9)) as u64,
            "seeds_per_hour": (t.runs as f64 / hours.max(1e-9)) as u64,
            "simulated_processes": t.procs,
            "simulated_library_sessions": t.libs,
            "simulated_io_events": t.events,
            "simulated_seconds": t.sim_s,
            "bytes_through_seam": t.bytes,
            "perturbations_fired": faults,
            "workload_shapes": t.labels,
            "real_components": P::REAL,
            "stubbed_components": P::STUB,
            "samples": t.samples,
            "replay": replay_path,
        },
        "assumptions": P::ASSUMPTIONS,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": fresh,
    });
    let dir = e.verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(x) = std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap() + "\n") {
        eprintln!("cannot write evidence: {x}");
        return 2;
    }
    println!(
        "{id}: {} runs in {:.1}s ({} distinct non-trivial), {} simulated processes, {} events, {} inconclusive: {}",
        t.runs,
        explore,
        sigs.len(),
        t.procs,
        t.events,
        t.inconclusive,
        if code == 0 { "held" } else { "VIOLATED" }
    );
    code
}

/// Writes the replay file of a violation, minimises it and proves that it reproduces in a fresh process
fn report<P: Prop>(e: &Env, v: &Viol) -> Result<PathBuf, String> {
    let isolated = v.class == "died" || (v.class == "hang" && v.detail.starts_with("the run"));
    let dir = e.verif.join("replays");
    std::fs::create_dir_all(&dir).map_err(|x| x.to_string())?;
    let path = dir.join(format!("{}-{:016x}.json", P::ID, v.seed));
    let original = json!({
        "property": P::ID, "class": v.class, "detail": v.detail, "verif_seed": e.seed, "run_index": v.index,
        "run_seed": format!("{:016x}", v.seed), "minimised": {"tried": 0, "kept": 0}, "isolated": isolated, "case": v.case,
    });
    let write = || std::fs::write(&path, serde_json::to_string_pretty(&original).unwrap() + "\n").map_err(|x| x.to_string());
    let confirm = || -> bool {
        // Once is enough, unless the code under test brings its own nondeterminism
        (0..10).any(|_| {
            Command::new(std::env::current_exe().unwrap())
                .args(["replay", path.to_str().unwrap(), "quiet"])
                .stdout(Stdio::null())
                .stdin(Stdio::null())
                .status()
                .map(|s| s.code() == Some(1))
                .unwrap_or(false)
        })
    };
    write()?;
    // In a process of its own: what a candidate does to it must not cost the answer
    if !isolated && !in_child("minimise", path.to_str().unwrap(), P::ID, "min", 80) {
        write()?;
    }
    if confirm() {
        let f: Value = std::fs::read(&path).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(Value::Null);
        println!("{}: {} (minimised: {} candidates tried, {} kept)", P::ID, f["detail"].as_str().unwrap_or(""), f["minimised"]["tried"], f["minimised"]["kept"]);
        return Ok(path);
    }
    write()?;
    if confirm() {
        println!("{}: {}", P::ID, v.detail);
        return Ok(path);
    }
    Err(format!("a violation ({}: {}) did not reproduce from its replay file {}", v.class, v.detail, path.display()))
}

/// Runs this program on a file and removes what it may leave; false if it fails or takes too long
fn in_child(job: &str, path: &str, id: &str, tag: &str, secs: u64) -> bool {
    let Ok(mut k) = Command::new(std::env::current_exe().unwrap()).args([job, path]).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn() else { return false };
    let t0 = Instant::now();
    let ok = loop {
        match k.try_wait() {
            Ok(Some(st)) => break st.success(),
            Ok(None) if t0.elapsed().as_secs() < secs => std::thread::sleep(Duration::from_millis(5)),
            _ => {
                let _ = k.kill();
                let _ = k.wait();
                break false;
            }
        }
    };
    for d in ["/dev/shm", "/tmp"] {
        let _ = std::fs::remove_dir_all(format!("{d}/vsim-{id}-{tag}-{}", k.id()));
    }
    ok
}

/// Replaces the case of a replay file by a simpler one that fails in the same way
fn minimise<P: Prop>(e: &Env, mut file: Value, path: &str) -> i32 {
    let Ok(case) = serde_json::from_value::<P::Case>(file["case"].clone()) else { return 2 };
    let class = file["class"].as_str().unwrap_or("").to_string();
    let mut w = world(e, &format!("{}-min", P::ID));
    let same = |a: &Verdict| matches!(a, Verdict::Violation{class: c, ..} if *c == class);
    let mut best = case;
    let (mut tried, mut kept) = (0, 0);
    // Only ever accept a candidate that is simpler by this measure, so that minimisation cannot go round in circles
    let size = |c: &P::Case| {
        let t = serde_json::to_string(c).unwrap_or_default().replace("false", "0").replace("true", "1");
        (t.len(), t)
    };
    if same(&one::<P>(&mut w, &best)) {
        let mut best_size = size(&best);
        let t0 = Instant::now();
        'outer: loop {
            let mut progress = false;
            for c in P::shrink(&best) {
                if tried >= 4000 || t0.elapsed() > Duration::from_secs(45) {
                    break 'outer;
                }
                let csize = size(&c);
                if csize >= best_size {
                    continue;
                }
                tried += 1;
                let r = one::<P>(&mut w, &c);
                if same(&r) {
                    if let Verdict::Violation { detail: d, .. } = r {
                        file["detail"] = json!(d);
                    }
                    best = c;
                    best_size = csize;
                    kept += 1;
                    progress = true;
                    break;
                }
            }
            if !progress {
                break;
            }
        }
    }
    drop(w);
    file["minimised"] = json!({"tried": tried, "kept": kept});
    file["case"] = serde_json::to_value(&best).unwrap();
    let tmp = format!("{path}.tmp");
    let done = std::fs::write(&tmp, serde_json::to_string_pretty(&file).unwrap() + "\n").and_then(|_| std::fs::rename(&tmp, path));
    if done.is_ok() { 0 } else { 2 }
}

fn replay<P: Prop>(e: &Env, file: Value, quiet: bool, path: &str) -> i32 {
    let case: P::Case = match serde_json::from_value(file["case"].clone()) {
        Ok(c) => c,
        Err(x) => {
            eprintln!("bad replay file: {x}");
            return 2;
        }
    };
    if file["isolated"] == true && std::env::var("VSIM_INNER").is_err() {
        // This case ends or blocks the process that runs it
        let mut k = match Command::new(std::env::current_exe().unwrap()).args(["replay", path, "quiet"]).env("VSIM_INNER", "1").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn() {
            Ok(k) => k,
            Err(_) => return 2,
        };
        let t0 = Instant::now();
        let how = loop {
            match k.try_wait() {
                Ok(Some(st)) if st.code().is_some() => break None,
                Ok(Some(st)) => break Some(("died", st.to_string())),
                _ if stuck(k.id(), 0.0, t0) => {
                    let _ = k.kill();
                    let _ = k.wait();
                    break Some(("hang", format!("no end within {STUCK_S} s")));
                }
                _ => std::thread::sleep(Duration::from_millis(20)),
            }
        };
        for d in ["/dev/shm", "/tmp"] {
            let _ = std::fs::remove_dir_all(format!("{d}/vsim-{}-replay-{}", P::ID, k.id()));
        }
        return match how {
            Some((class, how)) => {
                println!("{}: {class}: {how}", P::ID);
                println!("VIOLATION property={} replay={path}", P::ID);
                if file["class"] == class { 1 } else { 3 }
            }
            None => {
                println!("property {}: the case came to an end", P::ID);
                0
            }
        };
    }
    let mut w = world(e, &format!("{}-replay", P::ID));
    w.verbose = !quiet;
    let r = one::<P>(&mut w, &case);
    drop(w);
    match r {
        Verdict::Ok => {
            println!("property {} holds on this case", P::ID);
            0
        }
        Verdict::Inconclusive(m) => {
            println!("inconclusive: {m}");
            2
        }
        Verdict::Violation { class, detail } => {
            println!("{}: {class}: {detail}", P::ID);
            println!("VIOLATION property={} replay={path}", P::ID);
            let want = file["class"].as_str().unwrap_or("");
            if want.is_empty() || want == class {
                1
            } else {
                3
            }
        }
    }
}

/// Same seeds, different worker counts: every run must have the same event and outcome hash
fn selftest<P: Prop>(e: &Env, runs: u64) -> i32 {
    let mut maps = vec![];
    for n in [1u64, 3, 8, 5] {
        match spawn_workers(e, P::ID, n, runs, 600.0, true) {
            Ok(o) => {
                let mut m = BTreeMap::new();
                for w in o.outs {
                    if let Some(v) = w.violation {
                        println!("{}: violation in selftest at {}: {} {}", P::ID, v.index, v.class, v.detail);
                    }
                    m.extend(w.sighash);
                }
                maps.push(m);
            }
            Err(x) => {
                eprintln!("{x}");
                return 2;
            }
        }
    }
    let mut diff = 0;
    for m in &maps[1..] {
        for (k, v) in m {
            if let Some(x) = maps[0].get(k) {
                if x != v {
                    diff += 1;
                    if diff < 5 {
                        println!("{}: run {k} diverged", P::ID);
                    }
                }
            }
        }
    }
    println!("{}: {} runs x {} executions, {} divergences", P::ID, maps[0].len(), maps.len(), diff);
    let _ = std::io::stdout().flush();
    (diff > 0) as i32
}
