//! The simulated world: one scratch disk, one control block, one process at a time.
use crate::ctl::*;
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::os::fd::RawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

/// How the environment behaves throughout one simulated process.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(default)]
pub struct Plan {
    /// Longest read / write served at once (0: unlimited); with `rnd_split`, a random length up to it
    pub rmax: u32,
    pub wmax: u32,
    pub rnd_split: bool,
    /// Every n-th transfer is interrupted before it starts (0: never)
    pub eintr: u32,
    /// Bytes that fit on the disk during this process (None: unlimited)
    pub disk_cap: Option<u64>,
    pub seed: u64,
    pub clock_base: i64,
    pub clock_step: i64,
    pub dir_perm: bool,
    /// New entries during a directory walk: 0 never seen, 1 always seen, 2 sometimes
    pub live_new: u32,
    pub faults: Vec<FaultSel>,
    /// Opens of these paths (relative to the root) fail with the given errno
    pub refuse: Vec<(String, i32)>,
    /// Asking what these paths are (stat, access) fails with the given errno
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub blind: Vec<(String, i32)>,
    /// Environment variables of the process (it has no others)
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub env: Vec<(String, String)>,
    /// Standard output: 0 fine, 1 a full device, 2 a pipe nobody reads; +4: the same for standard error
    #[serde(default, skip_serializing_if = "is_zero")]
    pub stdio: u8,
    /// The n-th large allocation fails (0: none)
    #[serde(default, skip_serializing_if = "is_zero32")]
    pub oom: u32,
    /// How many files the process may have open at a time (0: as many as usual)
    #[serde(default, skip_serializing_if = "is_zero32")]
    pub nofile: u32,
}

impl Default for Plan {
    fn default() -> Self {
        Plan {
            rmax: 0,
            wmax: 0,
            rnd_split: false,
            eintr: 0,
            disk_cap: None,
            seed: 0,
            clock_base: 1_700_000_000_000_000_000,
            clock_step: 0,
            dir_perm: false,
            live_new: 0,
            faults: vec![],
            refuse: vec![],
            blind: vec![],
            env: vec![],
            stdio: 0,
            oom: 0,
            nofile: 0,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Class {
    Any,
    Read,
    Write,
    Open,
    Create,
    Close,
    Name, // rename, unlink, link, mkdir
    Sync,
    Dir,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    Err(i32),
    Short,
    Eintr,
    CrashBefore,
    CrashPartial,
    CrashAfter,
}
/// A fault addressed by the n-th event of a class in the fault-free trace of the same plan; `frac` (of 65536) sizes a
/// partial transfer.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct FaultSel {
    pub class: Class,
    pub nth: u32,
    pub from_end: bool,
    pub kind: Kind,
    pub frac: u32,
    /// An error lasts: this many further operations of the same kind fail too
    #[serde(default, skip_serializing_if = "is_zero")]
    pub rep: u8,
    /// An external actor's unlink (or rename) just before the event instead of a fault of the event itself
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub ext: Option<(String, Option<String>)>,
}

fn is_zero32(x: &u32) -> bool {
    *x == 0
}
fn is_zero(x: &u8) -> bool {
    *x == 0
}

impl Plan {
    pub fn is_benign(&self) -> bool {
        self.disk_cap.is_none() && self.faults.iter().all(|f| f.ext.is_none() && matches!(f.kind, Kind::Short | Kind::Eintr)) && self.refuse.is_empty() && self.blind.is_empty() && self.stdio == 0 && self.oom == 0
    }
    pub fn without_faults(&self) -> Plan {
        Plan { faults: vec![], disk_cap: None, refuse: vec![], blind: vec![], oom: 0, ..self.clone() }
    }
}

fn matches(class: Class, op: u8) -> bool {
    match class {
        Class::Any => true,
        Class::Read => op == OP_READ,
        Class::Write => op == OP_WRITE,
        Class::Open => op == OP_OPEN || op == OP_OPENDIR,
        Class::Create => op == OP_CREATE,
        Class::Close => op == OP_CLOSE,
        Class::Name => matches!(op, OP_RENAME | OP_UNLINK | OP_LINK | OP_MKDIR | OP_RMDIR | OP_TRUNC),
        Class::Sync => op == OP_FSYNC,
        Class::Dir => op == OP_READDIR || op == OP_OPENDIR,
    }
}

#[derive(Clone, Debug, Default)]
pub struct Trace {
    pub evs: Vec<Ev2>,
    pub total: u32,
    /// Large allocations
    pub allocs: u32,
    /// The largest allocation that could not be served
    pub refused: u64,
}
#[derive(Clone, Copy, Debug)]
pub struct Ev2 {
    pub op: u8,
    pub flags: u8,
    pub err: i16,
    pub ph: u32,
    pub req: u32,
    pub got: u32,
}
impl Trace {
    pub fn lines(&self, names: &[String]) -> Vec<String> {
        self.evs
            .iter()
            .enumerate()
            .map(|(i, e)| {
                let p = names.iter().find(|n| path_hash(n) == e.ph).cloned().unwrap_or_else(|| format!("#{:08x}", e.ph));
                let r = if e.err != 0 { format!("errno {}", e.err) } else { format!("{}", e.got) };
                let fl = match e.flags {
                    0 => "",
                    1 => "  <- fault",
                    _ => "  <- external change",
                };
                format!("{i}: {} {} req={} -> {}{}", OP_NAMES[e.op as usize], p, e.req, r, fl)
            })
            .collect()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Exit {
    Code(i32),
    Signal(i32),
    /// Killed by the simulator at a crash point
    Crashed,
    Timeout,
}
impl Exit {
    pub fn ok(&self) -> bool {
        *self == Exit::Code(0)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Tool {
    Atsc,
    Csvc,
    Wav,
    /// A client of the libraries: this program itself, see node.rs
    Node,
}
/// A simulated command; `@name` in an argument stands for a path on the simulated disk.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Cmd {
    pub tool: Tool,
    pub args: Vec<String>,
    #[serde(default)]
    pub abs: bool,
}
impl Cmd {
    pub fn new(tool: Tool, args: &[&str]) -> Self {
        Cmd { tool, args: args.iter().map(|s| s.to_string()).collect(), abs: false }
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub counters: [u64; CTN],
    pub events: u64,
    pub sim_s: f64,
    pub procs: u64,
    pub libs: u64,
    pub bytes: u64,
}

/// Code under test runs in this process: its panics are outcomes
pub static IN_LIB: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Where the latest panic came from
pub static PANICKED_AT: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
/// The harness itself is built from relative paths, the code under test and what it uses from absolute ones
pub fn panicked_in_code_under_test() -> Option<String> {
    let p = PANICKED_AT.lock().ok()?.clone();
    (p.starts_with('/') && !p.starts_with("/rustc/") && !p.contains("/serde")).then_some(p)
}

/// Runs code under test without any perturbation; None if it panics
pub fn guarded<R>(f: impl FnOnce() -> R) -> Option<R> {
    let was = IN_LIB.swap(true, std::sync::atomic::Ordering::Relaxed);
    let r = catch_unwind(AssertUnwindSafe(f)).ok();
    IN_LIB.store(was, std::sync::atomic::Ordering::Relaxed);
    r
}

pub type Disk = BTreeMap<String, Vec<u8>>;

/// A standard output that takes nothing
fn bad_out(kind: u8) -> Stdio {
    use std::os::fd::FromRawFd;
    if kind == 1 {
        return std::fs::OpenOptions::new().write(true).open("/dev/full").map(Stdio::from).unwrap_or(Stdio::null());
    }
    let (r, w) = pipe(false);
    unsafe {
        libc::close(r);
        Stdio::from(std::os::fd::OwnedFd::from_raw_fd(w))
    }
}

/// Stands for a byte that is not UTF-8 in names on the simulated disk
pub const ODD: char = '\u{e0ff}';
pub fn os(name: &str) -> std::ffi::OsString {
    use std::os::unix::ffi::OsStringExt;
    let mut b = vec![];
    for c in name.chars() {
        if c == ODD {
            b.push(0xff);
        } else {
            b.extend(c.encode_utf8(&mut [0; 4]).bytes());
        }
    }
    std::ffi::OsString::from_vec(b)
}
fn unos(name: &std::ffi::OsStr) -> String {
    use std::os::unix::ffi::OsStrExt;
    name.as_bytes().utf8_chunks().map(|c| format!("{}{}", c.valid(), String::from(ODD).repeat(c.invalid().len()))).collect()
}
fn real_dir(p: &Path) -> bool {
    std::fs::symlink_metadata(p).map(|m| m.is_dir()).unwrap_or(false)
}

fn new_ctl() -> (RawFd, *mut Ctl) {
    unsafe {
        let fd = libc::syscall(libc::SYS_memfd_create, b"vsim\0".as_ptr(), 0) as RawFd;
        assert!(fd >= 0, "memfd_create failed");
        let len = std::mem::size_of::<Ctl>();
        assert_eq!(libc::ftruncate(fd, len as i64), 0);
        let p = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
        assert!(p != libc::MAP_FAILED);
        let ctl = p as *mut Ctl;
        (*ctl).magic = MAGIC;
        (fd, ctl)
    }
}

/// What processes running at the same time need besides
struct Group {
    ctls: Vec<(RawFd, *mut Ctl)>,
    /// (read end kept by the child, write end kept here)
    turns: Vec<(RawFd, RawFd)>,
    /// (read end kept here, write end kept by the children)
    yields: (RawFd, RawFd),
}
fn pipe(child_reads: bool) -> (RawFd, RawFd) {
    let mut p = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC), 0);
        libc::fcntl(if child_reads { p[0] } else { p[1] }, libc::F_SETFD, 0);
    }
    (p[0], p[1])
}

/// One of several commands that run at the same time
pub struct Party {
    pub cmd: Cmd,
    pub plan: Plan,
    pub faults: Vec<(u32, FaultSel, i32)>,
}

pub struct World {
    group: Option<Group>,
    pub base: PathBuf,
    pub root: PathBuf,
    root_s: String,
    /// Where temporary files go; survives everything but the end of the run
    tmp_s: String,
    /// Keep what commands print
    capture: bool,
    fd: RawFd,
    pub ctl: *mut Ctl,
    bins: PathBuf,
    shim: PathBuf,
    pub stats: Stats,
    /// Hash of everything that happened in this run so far
    pub sig: u64,
    pub fired: u64,
    pub verbose: bool,
    pub timeouts: u64,
    /// Longest real time a simulated process may take
    pub limit_ms: i32,
    pub last_trace: Trace,
}

impl World {
    pub fn new(tag: &str, bins: &Path, shim: &Path) -> World {
        let cand = ["/dev/shm", "/tmp"];
        let mut base = None;
        for c in cand {
            let p = PathBuf::from(c).join(format!("vsim-{tag}-{}", std::process::id()));
            let _ = std::fs::remove_dir_all(&p);
            if std::fs::create_dir_all(p.join("d")).is_ok() && std::fs::write(p.join("probe"), b"x").is_ok() {
                base = Some(p);
                break;
            }
        }
        let base = base.expect("no scratch directory available");
        let root = base.join("d");
        let root_s = root.to_str().unwrap().to_string();
        let tmp_s = base.join("tmp").to_str().unwrap().to_string();
        std::fs::create_dir_all(&tmp_s).unwrap();
        std::env::set_var("TMPDIR", &tmp_s);
        unsafe {
            let (fd, ctl) = new_ctl();
            vsim_attach(ctl);
            // Same address-space layout in every simulated process
            libc::personality(0x0040000);
            World {
                group: None,
                base,
                root,
                root_s,
                tmp_s,
                capture: false,
                fd,
                ctl,
                bins: bins.to_path_buf(),
                shim: shim.to_path_buf(),
                stats: Stats::default(),
                sig: 0xcbf29ce484222325,
                fired: 0,
                verbose: false,
                timeouts: 0,
                limit_ms: 30_000,
                last_trace: Trace::default(),
            }
        }
    }

    pub fn limit_memory(&self, bytes: u64) {
        unsafe {
            let l = libc::rlimit { rlim_cur: bytes, rlim_max: bytes };
            libc::setrlimit(libc::RLIMIT_AS, &l);
            let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &c);
        }
    }

    pub fn begin_run(&mut self) {
        self.sig = 0xcbf29ce484222325;
        self.fired = 0;
        self.timeouts = 0;
        if std::fs::read_dir(&self.tmp_s).map_or(true, |mut d| d.next().is_some()) {
            let _ = std::fs::remove_dir_all(&self.tmp_s);
            std::fs::create_dir_all(&self.tmp_s).unwrap();
        }
    }
    pub fn note(&mut self, v: u64) {
        self.sig = (self.sig ^ v).wrapping_mul(0x100000001b3);
        self.sig ^= self.sig >> 31;
    }

    /// Empties the simulated disk and fills it with the given files
    pub fn reset(&mut self, files: &Disk) {
        let entries: Vec<_> = std::fs::read_dir(&self.root).unwrap().map(|e| e.unwrap().path()).collect();
        for p in entries {
            if real_dir(&p) {
                std::fs::remove_dir_all(&p).unwrap();
            } else {
                std::fs::remove_file(&p).unwrap();
            }
        }
        for (n, d) in files {
            self.put(n, d);
        }
    }
    pub fn put(&mut self, name: &str, data: &[u8]) {
        let p = self.path(name);
        if let Some(dir) = p.parent() {
            std::fs::create_dir_all(dir).unwrap();
        }
        std::fs::write(p, data).unwrap();
    }
    pub fn get(&self, name: &str) -> Option<Vec<u8>> {
        std::fs::read(self.path(name)).ok()
    }
    pub fn path(&self, name: &str) -> PathBuf {
        self.root.join(os(name))
    }
    pub fn snapshot(&self) -> Disk {
        fn walk(dir: &Path, pre: &str, out: &mut Disk) {
            for e in std::fs::read_dir(dir).unwrap() {
                let e = e.unwrap();
                let n = format!("{pre}{}", unos(&e.file_name()));
                let p = e.path();
                let t = e.file_type().unwrap();
                if t.is_dir() {
                    walk(&p, &format!("{n}/"), out);
                } else if t.is_symlink() {
                    out.insert(n, format!("<link to {:?}>", std::fs::read_link(&p)).into_bytes());
                } else if t.is_file() {
                    out.insert(n, std::fs::read(&p).unwrap_or_default());
                } else {
                    out.insert(n, b"<special>".to_vec());
                }
            }
        }
        let mut d = Disk::new();
        walk(&self.root, "", &mut d);
        d
    }

    fn arm(&mut self, plan: &Plan, faults: &[(u32, FaultSel, i32)], lib: bool) {
        self.arm_ctl(self.ctl, plan, faults, lib)
    }
    fn arm_ctl(&mut self, ctl: *mut Ctl, plan: &Plan, faults: &[(u32, FaultSel, i32)], lib: bool) {
        unsafe {
            let c = &mut *ctl;
            c.magic = MAGIC;
            c.lib_mode = lib as u32;
            put(&mut c.root, &self.root_s);
            put(&mut c.tmp, &self.tmp_s);
            c.rmax = plan.rmax;
            c.wmax = plan.wmax;
            c.rnd_split = plan.rnd_split as u32;
            c.eintr_period = plan.eintr;
            c.disk_cap = plan.disk_cap.unwrap_or(u64::MAX);
            c.seed = plan.seed;
            c.rng = plan.seed ^ 0xabcdef;
            c.clock_base_ns = plan.clock_base;
            c.clock_step_ns = plan.clock_step;
            c.dir_perm = plan.dir_perm as u32;
            c.live_new = plan.live_new;
            c.oom_at = plan.oom;
            c.nofile = plan.nofile;
            // the machine: any number of processors, and a process number that comes again now and then
            let mut m = Rng::new(plan.seed ^ 0x6d61_6368);
            c.cpus = *m.pick(&[1, 2, 3, 4, 8, 64]);
            c.pid = if m.chance(1, 2) { *m.pick(&[1, 7]) } else { m.range(2, 9999) as u32 };
            c.xdev = m.chance(1, 2) as u32;
            c.nfaults = 0;
            c.npfaults = 0;
            for (ev, f, arg) in faults.iter().take(MAX_FAULTS) {
                let o = &mut c.faults[c.nfaults as usize];
                o.ev = *ev;
                o.arg = *arg;
                o.pad = f.rep as u32;
                o.kind = match f.kind {
                    Kind::Err(_) => FK_ERR,
                    Kind::Short => FK_SHORT,
                    Kind::Eintr => FK_EINTR,
                    Kind::CrashBefore => FK_CRASH_BEFORE,
                    Kind::CrashPartial => FK_CRASH_PARTIAL,
                    Kind::CrashAfter => FK_CRASH_AFTER,
                };
                if let Some((a, b)) = &f.ext {
                    put_os(&mut o.p1, &os(a));
                    match b {
                        None => o.kind = FK_EXT_UNLINK,
                        Some(b) => {
                            o.kind = FK_EXT_RENAME;
                            put_os(&mut o.p2, &os(b));
                        }
                    }
                }
                c.nfaults += 1;
            }
            let opens = plan.refuse.iter().map(|f| (OP_OPEN, f));
            for (op, (p, e)) in opens.chain(plan.blind.iter().map(|f| (OP_STAT, f))).take(MAX_PFAULTS) {
                let o = &mut c.pfaults[c.npfaults as usize];
                o.op = op as u32;
                o.err = *e;
                put_os(&mut o.path, &os(p));
                c.npfaults += 1;
            }
            c.crashed = 0;
            c.dead = 0;
            c.nev = 0;
            c.nxfer = 0;
            c.nalloc = 0;
            c.refused = 0;
            c.sim_ns = 0;
            c.hash = 0xcbf29ce484222325;
            c.bytes_written = 0;
            c.bytes_read = 0;
            c.counters = [0; CTN];
            c.active = 1;
        }
    }
    fn disarm(&mut self) -> bool {
        self.disarm_ctl(self.ctl)
    }
    fn disarm_ctl(&mut self, ctl: *mut Ctl) -> bool {
        unsafe {
            let c = &mut *ctl;
            c.active = 0;
            let n = (c.nev as usize).min(LOG);
            self.last_trace = Trace {
                evs: c.log[..n]
                    .iter()
                    .map(|e| Ev2 { op: e.op, flags: e.flags, err: e.err, ph: e.ph, req: e.req, got: e.got })
                    .collect(),
                total: c.nev,
                allocs: c.nalloc,
                refused: c.refused,
            };
            for i in 0..CTN {
                self.stats.counters[i] += c.counters[i];
            }
            for i in CT_INJECTED {
                self.fired += c.counters[i];
            }
            self.stats.events += c.nev as u64;
            self.stats.sim_s += c.sim_ns as f64 / 1e9;
            self.stats.bytes += c.bytes_read + c.bytes_written;
            let (h, nev, crashed) = (c.hash, c.nev, c.crashed);
            self.note(h ^ nev as u64 ^ ((crashed as u64) << 40));
            crashed != 0
        }
    }

    /// Turns trace-relative fault selectors into event numbers
    pub fn resolve(sel: &[FaultSel], trace: &Trace) -> Vec<(u32, FaultSel, i32)> {
        let mut out = vec![];
        for f in sel {
            let idx: Vec<usize> = trace.evs.iter().enumerate().filter(|(_, e)| matches(f.class, e.op)).map(|(i, _)| i).collect();
            if idx.is_empty() {
                continue;
            }
            let k = (f.nth as usize) % idx.len();
            let i = if f.from_end { idx[idx.len() - 1 - k] } else { idx[k] };
            let req = trace.evs[i].got.max(1) as u64;
            let arg = match f.kind {
                Kind::Err(e) => e,
                _ => ((req * f.frac as u64) >> 16) as i32,
            };
            out.push((i as u32, f.clone(), arg));
        }
        out
    }

    fn tool_path(&self, t: Tool) -> PathBuf {
        if t == Tool::Node {
            return std::env::current_exe().unwrap();
        }
        self.bins.join(match t {
            Tool::Atsc => "atsc",
            Tool::Csvc => "csv-compressor",
            Tool::Wav => "wav2wbro",
            Tool::Node => unreachable!(),
        })
    }

    fn command(&self, cmd: &Cmd, plan: &Plan, fd: RawFd) -> (Command, Vec<String>) {
        let shown: Vec<String> = cmd
            .args
            .iter()
            .map(|a| match a.strip_prefix('@') {
                Some(n) if cmd.abs => format!("{}/{}", self.root_s, n),
                Some(n) => n.to_string(),
                None => a.clone(),
            })
            .collect();
        let mut c = Command::new(self.tool_path(cmd.tool));
        c.args(shown.iter().map(|a| os(a)))
            .current_dir(&self.root)
            .env_clear()
            .env("VSIM_FD", fd.to_string())
            .env("TMPDIR", &self.tmp_s)
            .env("HOME", &self.tmp_s)
            .envs(plan.env.iter().map(|(k, v)| (k, v)))
            .stdin(Stdio::null());
        if cmd.tool != Tool::Node {
            c.env("LD_PRELOAD", &self.shim);
        }
        if self.verbose {
            c.env("RUST_LOG", "error");
        } else {
            c.stdout(Stdio::null()).stderr(Stdio::null());
        }
        if self.capture {
            c.stdout(std::fs::File::create(self.base.join("out")).expect("no file for the output"));
        }
        if plan.stdio & 3 != 0 {
            c.stdout(bad_out(plan.stdio & 3));
            if plan.stdio & 4 != 0 {
                c.stderr(bad_out(plan.stdio & 3));
            }
        }
        (c, shown)
    }

    /// Runs one command and returns what it printed
    pub fn exec_out(&mut self, cmd: &Cmd, plan: &Plan) -> (Exit, Vec<u8>) {
        self.capture = true;
        let e = self.exec(cmd, plan);
        self.capture = false;
        (e, std::fs::read(self.base.join("out")).unwrap_or_default())
    }
    /// Runs one command as a simulated process; faults are already event-addressed
    pub fn exec_raw(&mut self, cmd: &Cmd, plan: &Plan, faults: &[(u32, FaultSel, i32)]) -> Exit {
        let (mut c, args) = self.command(cmd, plan, self.fd);
        self.arm(plan, faults, false);
        let mut child = match c.spawn() {
            Ok(ch) => ch,
            Err(e) => panic!("cannot start {:?}: {e}", self.tool_path(cmd.tool)),
        };
        let mut timed_out = false;
        unsafe {
            let pfd = libc::syscall(libc::SYS_pidfd_open, child.id() as libc::pid_t, 0) as i32;
            if pfd >= 0 {
                let mut p = libc::pollfd { fd: pfd, events: libc::POLLIN, revents: 0 };
                if !wait_ready(std::slice::from_mut(&mut p), self.limit_ms, child.id()) {
                    timed_out = true;
                    let _ = child.kill();
                }
                libc::close(pfd);
            }
        }
        let st = child.wait().expect("wait");
        let crashed = self.disarm();
        self.stats.procs += 1;
        use std::os::unix::process::ExitStatusExt;
        let e = if timed_out {
            self.timeouts += 1;
            Exit::Timeout
        } else if crashed {
            Exit::Crashed
        } else if let Some(c) = st.code() {
            Exit::Code(c)
        } else {
            Exit::Signal(st.signal().unwrap_or(0))
        };
        if self.verbose {
            println!("--- {:?} {:?} -> {:?}", cmd.tool, args, e);
            let names: Vec<String> = self.snapshot().keys().cloned().chain(std::iter::once(".".to_string())).collect();
            self.show_trace(&names);
        }
        self.note(match e {
            Exit::Code(c) => c as u64,
            Exit::Signal(_) => 1000,
            Exit::Crashed => 2000,
            Exit::Timeout => 3000,
        });
        e
    }
    fn show_trace(&self, names: &[String]) {
        let l = self.last_trace.lines(names);
        for s in l.iter().take(60) {
            println!("      {s}");
        }
        if l.len() > 60 {
            println!("      ... {} events in all", self.last_trace.total);
        }
    }

    /// Runs commands at the same time, one I/O event of one of them after the other. `sched` says who goes on and for
    /// how many events; a command starts when its turn first comes; in the end the rest finishes in order.
    pub fn exec_group(&mut self, parties: &[Party], sched: &[(u8, u16)]) -> Vec<Exit> {
        use std::os::unix::process::ExitStatusExt;
        let n = parties.len();
        if self.group.is_none() {
            self.group = Some(Group { ctls: vec![], turns: vec![], yields: pipe(false) });
        }
        let yields = {
            let g = self.group.as_mut().unwrap();
            while g.ctls.len() < n {
                g.ctls.push(new_ctl());
                g.turns.push(pipe(true));
            }
            g.yields
        };
        #[derive(Default)]
        struct P {
            child: Option<std::process::Child>,
            pfd: RawFd,
            /// Waits for its turn
            waiting: bool,
            exit: Option<Exit>,
            slow: bool,
        }
        let mut ps: Vec<P> = (0..n).map(|_| P::default()).collect();
        let ctls: Vec<(RawFd, *mut Ctl)> = self.group.as_ref().unwrap().ctls[..n].to_vec();
        let turns: Vec<(RawFd, RawFd)> = self.group.as_ref().unwrap().turns[..n].to_vec();
        for (k, p) in parties.iter().enumerate() {
            self.arm_ctl(ctls[k].1, &p.plan, &p.faults, false);
        }
        // nothing may be left over from an earlier group
        for fd in turns.iter().map(|t| t.0).chain([yields.0]) {
            let mut b = 0u8;
            let mut pf = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
            unsafe { while libc::poll(&mut pf, 1, 0) == 1 && libc::read(fd, &mut b as *mut u8 as *mut libc::c_void, 1) == 1 {} }
        }
        let mut slices: Vec<(usize, u32, u32)> = vec![];
        let mut preempt = 0u64;
        let mut last: Option<usize> = None;
        let mut pos = 0;
        let mut left = sched.first().map(|s| s.1).unwrap_or(0);
        loop {
            // whose turn it is
            let mut who = None;
            while pos < sched.len() {
                let k = sched[pos].0 as usize % n;
                if left == 0 || ps[k].exit.is_some() || ps[k].slow {
                    pos += 1;
                    left = sched.get(pos).map(|s| s.1).unwrap_or(0);
                    continue;
                }
                left -= 1;
                who = Some(k);
                break;
            }
            let Some(k) = who.or_else(|| (0..n).find(|k| ps[*k].exit.is_none() && !ps[*k].slow)).or_else(|| (0..n).find(|k| ps[*k].exit.is_none())) else { break };
            let nev = |k: usize| unsafe { std::ptr::read_volatile(&(*ctls[k].1).nev) };
            if let Some(l) = last {
                if l != k && ps[l].exit.is_none() {
                    preempt += 1;
                }
            }
            last = Some(k);
            match slices.last_mut() {
                Some(s) if s.0 == k => {}
                _ => slices.push((k, nev(k), 0)),
            }
            if ps[k].child.is_none() {
                let (mut c, _) = self.command(&parties[k].cmd, &parties[k].plan, ctls[k].0);
                c.env("VSIM_SCHED", format!("{},{},{}", yields.1, turns[k].0, k));
                let ch = c.spawn().unwrap_or_else(|e| panic!("cannot start {:?}: {e}", parties[k].cmd.tool));
                ps[k].pfd = unsafe { libc::syscall(libc::SYS_pidfd_open, ch.id() as libc::pid_t, 0) as i32 };
                ps[k].child = Some(ch);
            } else if ps[k].waiting {
                ps[k].waiting = false;
                unsafe { libc::write(turns[k].1, b"t".as_ptr() as *const libc::c_void, 1) };
            }
            // until it hands the turn back or ends
            let alone = (0..n).all(|j| j == k || ps[j].exit.is_some() || ps[j].slow);
            loop {
                let mut pf = [
                    libc::pollfd { fd: yields.0, events: libc::POLLIN, revents: 0 },
                    libc::pollfd { fd: ps[k].pfd, events: libc::POLLIN, revents: 0 },
                ];
                let pid = ps[k].child.as_ref().unwrap().id();
                let ready = if alone { wait_ready(&mut pf, self.limit_ms, pid) } else { unsafe { libc::poll(pf.as_mut_ptr(), 2, 5000) != 0 } };
                if !ready {
                    if alone {
                        let _ = ps[k].child.as_mut().unwrap().kill();
                        let _ = ps[k].child.as_mut().unwrap().wait();
                        self.timeouts += 1;
                        ps[k].exit = Some(Exit::Timeout);
                    } else {
                        // it may be waiting for something that another one has to do first
                        ps[k].slow = true;
                    }
                    break;
                }
                if pf[0].revents & libc::POLLIN != 0 {
                    let mut b = 0u8;
                    if unsafe { libc::read(yields.0, &mut b as *mut u8 as *mut libc::c_void, 1) } == 1 && (b as usize) < n {
                        ps[b as usize].waiting = true;
                        ps[b as usize].slow = false;
                        if b as usize == k {
                            break;
                        }
                    }
                    continue;
                }
                if pf[1].revents != 0 {
                    let st = ps[k].child.as_mut().unwrap().wait().expect("wait");
                    let crashed = unsafe { (*ctls[k].1).crashed != 0 };
                    ps[k].exit = Some(if crashed {
                        Exit::Crashed
                    } else if let Some(c) = st.code() {
                        Exit::Code(c)
                    } else {
                        Exit::Signal(st.signal().unwrap_or(0))
                    });
                    break;
                }
            }
            if let Some(s) = slices.last_mut() {
                s.2 = nev(k);
            }
        }
        let names: Vec<String> = if self.verbose { self.snapshot().keys().cloned().chain(std::iter::once(".".to_string())).collect() } else { vec![] };
        let mut out = vec![];
        for (k, p) in ps.iter_mut().enumerate() {
            unsafe { libc::close(p.pfd) };
            self.disarm_ctl(ctls[k].1);
            self.stats.procs += 1;
            let e = p.exit.take().unwrap();
            self.note(match e {
                Exit::Code(c) => c as u64,
                Exit::Signal(_) => 1000,
                Exit::Crashed => 2000,
                Exit::Timeout => 3000,
            });
            if self.verbose {
                println!("--- process {k}: {:?} {:?} -> {:?}", parties[k].cmd.tool, parties[k].cmd.args, e);
                self.show_trace(&names);
            }
            out.push(e);
        }
        for s in &slices {
            self.note((s.0 as u64) << 40 | (s.1 as u64) << 20 | s.2 as u64);
        }
        self.stats.counters[CT_PREEMPT] += preempt;
        self.fired += preempt;
        if self.verbose {
            println!("--- schedule: {}", slices.iter().map(|s| format!("process {} events {}..{}", s.0, s.1, s.2)).collect::<Vec<_>>().join(", "));
        }
        out
    }

    /// Runs a command under a plan without explicit faults
    pub fn exec(&mut self, cmd: &Cmd, plan: &Plan) -> Exit {
        self.exec_raw(cmd, plan, &[])
    }

    /// Runs library code in this process behind the same seam
    pub fn lib<R>(&mut self, plan: &Plan, faults: &[(u32, FaultSel, i32)], f: impl FnOnce() -> R) -> LibOut<R> {
        self.arm(plan, faults, true);
        let r = guarded(f);
        let crashed = self.disarm();
        self.stats.libs += 1;
        self.note(r.is_some() as u64);
        if self.verbose {
            println!("--- library call -> {}{}", if r.is_some() { "returned" } else { "panicked" }, if crashed { " (crashed)" } else { "" });
            let names: Vec<String> = self.snapshot().keys().cloned().collect();
            for s in self.last_trace.lines(&names).iter().take(40) {
                println!("      {s}");
            }
        }
        LibOut { value: r, crashed }
    }
}

impl Drop for World {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.base);
    }
}

pub struct LibOut<R> {
    /// None: panicked
    pub value: Option<R>,
    pub crashed: bool,
}

// ---------------------------------------------------------------- plan generation

const SPLITS: [u32; 12] = [1, 2, 3, 5, 7, 8, 13, 31, 64, 511, 4096, 8191];

/// A plan in which every perturbation is legal and harmless. `size` bounds the bytes moved, to keep event counts sane.
pub fn benign_plan(r: &mut Rng, size: usize) -> Plan {
    let mut p = Plan { seed: r.next(), ..Plan::default() };
    let pick = |r: &mut Rng| {
        let s = *r.pick(&SPLITS);
        s.max((size / 3000) as u32)
    };
    if r.chance(1, 2) {
        p.rmax = pick(r);
    }
    if r.chance(1, 2) {
        p.wmax = pick(r);
    }
    p.rnd_split = r.chance(1, 2);
    if r.chance(1, 3) {
        p.eintr = r.range(2, 9) as u32;
    }
    if r.chance(1, 4) {
        p.clock_base = r.range(0, 4_000_000_000) * 1_000_000_000;
        p.clock_step = r.range(0, 3_600_000_000_000);
    }
    p.dir_perm = r.chance(1, 2);
    p.live_new = r.below(3) as u32;
    if r.chance(1, 4) {
        p.env = gen_env(r, size);
    }
    p
}

/// Processor time a process has used, in seconds
pub fn cpu_s(pid: u32) -> Option<f64> {
    unsafe {
        let mut c = 0;
        let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
        (libc::clock_getcpuclockid(pid as libc::pid_t, &mut c) == 0 && libc::clock_gettime(c, &mut t) == 0).then(|| t.tv_sec as f64 + t.tv_nsec as f64 / 1e9)
    }
}
/// A limit of this much stands for "never": it is taken as processor time, so that a busy machine does not look like a hang
const NEVER_MS: i32 = 30_000;
/// Waits until one of the descriptors is ready; false if that takes too long
fn wait_ready(p: &mut [libc::pollfd], limit_ms: i32, pid: u32) -> bool {
    let t0 = std::time::Instant::now();
    let mut left = limit_ms;
    loop {
        match unsafe { libc::poll(p.as_mut_ptr(), p.len() as libc::nfds_t, left) } {
            0 => {}
            r if r < 0 && std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted => {}
            _ => return true,
        }
        if limit_ms < NEVER_MS || t0.elapsed().as_secs() >= 5 * limit_ms as u64 / 1000 {
            return false;
        }
        let used = cpu_s(pid).unwrap_or(0.0);
        if used * 1000.0 >= limit_ms as f64 * 0.9 {
            return false;
        }
        left = ((limit_ms as f64 - used * 1000.0) as i32).clamp(1000, limit_ms);
    }
}

/// The surroundings a process may find itself in; none of it may matter
fn gen_env(r: &mut Rng, size: usize) -> Vec<(String, String)> {
    let mut v: Vec<(&str, &str)> = vec![];
    for _ in 0..r.range(1, 3) {
        let e = match r.below(8) {
            0..=2 => ("TZ", *r.pick(&["XYZ-5:30", "ABC8", "UTC", "America/New_York", "CET-1CEST,M3.5.0,M10.5.0/3", ":/nonexistent", ""])),
            3 => ("LC_ALL", *r.pick(&["de_DE.UTF-8", "C", "tr_TR.UTF-8", "POSIX"])),
            4 => ("HOME", *r.pick(&["/nonexistent", ""])),
            5 => ("RUST_BACKTRACE", *r.pick(&["1", "full", "0"])),
            6 if size < 6000 && r.chance(1, 3) => ("RUST_LOG", *r.pick(&["trace", "debug", "info"])),
            6 => ("RUST_LOG", *r.pick(&["warn", "off", "!?", "atsc=error"])),
            _ => ("COLUMNS", "20"),
        };
        if v.iter().all(|x| x.0 != e.0) {
            v.push(e);
        }
    }
    v.into_iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

pub fn fault_sel(r: &mut Rng, class: Class, kind: Kind) -> FaultSel {
    FaultSel {
        class,
        nth: if r.chance(1, 2) { r.below(4) as u32 } else { r.below(64) as u32 },
        from_end: r.chance(1, 2),
        kind,
        frac: match r.below(6) {
            0 => 0,
            1 => 1,
            2 => 65535,
            _ => r.below(65536) as u32,
        },
        rep: if matches!(kind, Kind::Err(_)) { *r.pick(&[0, 0, 0, 1, 2, 3, 200]) } else { 0 },
        ext: None,
    }
}

pub const EIO: i32 = 5;
pub const EACCES: i32 = 13;
pub const ENFILE: i32 = 23;
pub const EMFILE: i32 = 24;
pub const ENOSPC: i32 = 28;
pub const EROFS: i32 = 30;
pub const EDQUOT: i32 = 122;

/// One hard fault: an error, an out-of-space condition or a crash
pub fn hard_fault(r: &mut Rng, crashes: bool, errors: bool) -> FaultSel {
    let crash = crashes && (!errors || r.chance(1, 2));
    if crash {
        let kind = *r.pick(&[Kind::CrashBefore, Kind::CrashPartial, Kind::CrashPartial, Kind::CrashAfter]);
        let class = *r.pick(&[Class::Write, Class::Write, Class::Write, Class::Create, Class::Any, Class::Read, Class::Close, Class::Name, Class::Sync, Class::Dir]);
        fault_sel(r, class, kind)
    } else {
        match r.below(10) {
            0..=4 => {
                let e = *r.pick(&[EIO, ENOSPC, EDQUOT]);
                fault_sel(r, Class::Write, Kind::Err(e))
            }
            5 | 6 => fault_sel(r, Class::Read, Kind::Err(EIO)),
            7 => {
                let e = *r.pick(&[EACCES, EMFILE, ENFILE, EIO]);
                fault_sel(r, Class::Open, Kind::Err(e))
            }
            8 => {
                let e = *r.pick(&[ENOSPC, EACCES, EROFS, EMFILE]);
                fault_sel(r, Class::Create, Kind::Err(e))
            }
            _ => {
                let c = *r.pick(&[Class::Name, Class::Sync, Class::Dir, Class::Dir]);
                fault_sel(r, c, Kind::Err(EIO))
            }
        }
    }
}

pub fn soft_fault(r: &mut Rng) -> FaultSel {
    let class = *r.pick(&[Class::Read, Class::Write, Class::Write]);
    let kind = *r.pick(&[Kind::Short, Kind::Short, Kind::Eintr]);
    fault_sel(r, class, kind)
}

/// Simpler plans, for minimisation
pub fn shrink_plan(p: &Plan) -> Vec<Plan> {
    let mut out = vec![];
    let d = Plan::default();
    let mut push = |q: Plan| {
        if q != *p {
            out.push(q)
        }
    };
    push(Plan { faults: p.faults.clone(), refuse: p.refuse.clone(), blind: p.blind.clone(), disk_cap: p.disk_cap, ..d.clone() });
    for i in 0..p.faults.len() {
        let mut q = p.clone();
        q.faults.remove(i);
        push(q);
    }
    for i in 0..p.refuse.len() {
        let mut q = p.clone();
        q.refuse.remove(i);
        push(q);
    }
    for i in 0..p.blind.len() {
        let mut q = p.clone();
        q.blind.remove(i);
        push(q);
    }
    push(Plan { rmax: 0, ..p.clone() });
    push(Plan { wmax: 0, ..p.clone() });
    push(Plan { rnd_split: false, ..p.clone() });
    push(Plan { eintr: 0, ..p.clone() });
    push(Plan { disk_cap: None, ..p.clone() });
    push(Plan { seed: 0, ..p.clone() });
    push(Plan { clock_base: d.clock_base, clock_step: 0, ..p.clone() });
    push(Plan { dir_perm: false, ..p.clone() });
    push(Plan { live_new: 0, ..p.clone() });
    push(Plan { env: vec![], ..p.clone() });
    push(Plan { stdio: 0, ..p.clone() });
    push(Plan { oom: 0, ..p.clone() });
    push(Plan { nofile: 0, ..p.clone() });
    push(Plan { oom: p.oom / 2, ..p.clone() });
    push(Plan { oom: p.oom.saturating_sub(1), ..p.clone() });
    push(Plan { stdio: p.stdio & 3, ..p.clone() });
    if p.env.len() > 1 {
        for i in 0..p.env.len() {
            let mut q = p.clone();
            q.env.remove(i);
            push(q);
        }
    }
    if let Some(c) = p.disk_cap {
        push(Plan { disk_cap: Some(c / 2), ..p.clone() });
    }
    for i in 0..p.faults.len() {
        let f = &p.faults[i];
        if f.nth > 0 {
            let mut q = p.clone();
            q.faults[i].nth /= 2;
            push(q);
        }
        if f.rep > 0 {
            for rep in [0, f.rep / 2, f.rep - 1] {
                let mut q = p.clone();
                q.faults[i].rep = rep;
                push(q);
            }
        }
        if f.from_end {
            let mut q = p.clone();
            q.faults[i].from_end = false;
            push(q);
        }
    }
    out
}
