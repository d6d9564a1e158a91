//! Mirror of sim/shim.h
pub const MAGIC: u32 = 0x56534d31;
pub const MAX_FAULTS: usize = 32;
pub const MAX_PFAULTS: usize = 16;
pub const LOG: usize = 6000;
pub const PATHN: usize = 192;

pub const OP_OPEN: u8 = 1;
pub const OP_CREATE: u8 = 2;
pub const OP_READ: u8 = 3;
pub const OP_WRITE: u8 = 4;
pub const OP_CLOSE: u8 = 5;
pub const OP_FSYNC: u8 = 6;
pub const OP_TRUNC: u8 = 7;
pub const OP_RENAME: u8 = 8;
pub const OP_UNLINK: u8 = 9;
pub const OP_MKDIR: u8 = 10;
pub const OP_RMDIR: u8 = 11;
pub const OP_OPENDIR: u8 = 12;
pub const OP_READDIR: u8 = 13;
pub const OP_LINK: u8 = 14;
pub const OP_STAT: u8 = 15;
pub const OP_NAMES: [&str; 15] = [
    "?", "open", "create", "read", "write", "close", "fsync", "truncate", "rename", "unlink", "mkdir", "rmdir",
    "opendir", "readdir", "link",
];

pub const FK_ERR: u32 = 1;
pub const FK_SHORT: u32 = 2;
pub const FK_EINTR: u32 = 3;
pub const FK_CRASH_BEFORE: u32 = 4;
pub const FK_CRASH_PARTIAL: u32 = 5;
pub const FK_CRASH_AFTER: u32 = 6;
pub const FK_EXT_UNLINK: u32 = 7;
pub const FK_EXT_RENAME: u32 = 8;

pub const CTN: usize = 17;
pub const CT_NAMES: [&str; CTN] = [
    "io_error",
    "short_transfer",
    "eintr",
    "crash",
    "disk_full",
    "external_change",
    "read_split",
    "write_split",
    "periodic_eintr",
    "open_refused",
    "dir_order",
    "entry_appears",
    "clock_reads",
    "random_reads",
    "alloc_failure",
    "preemption",
    "stat_refused",
];
/// Counters that stand for an injected perturbation (as opposed to mere use of a seam)
pub const CT_INJECTED: [usize; 15] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, CT_PREEMPT, 16];
/// Counted by the scheduler: a process had to wait in the middle of its work while another one ran
pub const CT_PREEMPT: usize = 15;

#[repr(C)]
pub struct Fault {
    pub ev: u32,
    pub kind: u32,
    pub arg: i32,
    pub pad: u32,
    pub p1: [u8; PATHN],
    pub p2: [u8; PATHN],
}
#[repr(C)]
pub struct PFault {
    pub op: u32,
    pub err: i32,
    pub path: [u8; PATHN],
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Ev {
    pub op: u8,
    pub flags: u8,
    pub err: i16,
    pub ph: u32,
    pub req: u32,
    pub got: u32,
}
#[repr(C)]
pub struct Ctl {
    pub magic: u32,
    pub active: u32,
    pub lib_mode: u32,
    pub xdev: u32,
    pub root: [u8; PATHN],
    pub tmp: [u8; PATHN],
    pub rmax: u32,
    pub wmax: u32,
    pub rnd_split: u32,
    pub eintr_period: u32,
    pub disk_cap: u64,
    pub seed: u64,
    pub clock_base_ns: i64,
    pub clock_step_ns: i64,
    pub dir_perm: u32,
    pub live_new: u32,
    pub oom_at: u32,
    pub cpus: u32,
    pub pid: u32,
    pub nofile: u32,
    pub nfaults: u32,
    pub npfaults: u32,
    pub faults: [Fault; MAX_FAULTS],
    pub pfaults: [PFault; MAX_PFAULTS],
    pub crashed: u32,
    pub dead: u32,
    pub nev: u32,
    pub nxfer: u32,
    pub nalloc: u32,
    pub pad2: u32,
    pub rng: u64,
    pub sim_ns: u64,
    pub hash: u64,
    pub bytes_written: u64,
    pub bytes_read: u64,
    pub refused: u64,
    pub counters: [u64; CTN],
    pub log: [Ev; LOG],
}

extern "C" {
    pub fn vsim_attach(c: *mut Ctl);
    /// Attaches to the control block and scheduler named in the environment
    pub fn vsim_attach_env();
}

pub fn path_hash(rel: &str) -> u32 {
    let mut h: u32 = 2166136261;
    for b in rel.bytes() {
        h = (h ^ b as u32).wrapping_mul(16777619);
    }
    if h == 0 {
        1
    } else {
        h
    }
}

pub fn put(dst: &mut [u8; PATHN], s: &str) {
    put_os(dst, std::ffi::OsStr::new(s))
}
pub fn put_os(dst: &mut [u8; PATHN], s: &std::ffi::OsStr) {
    use std::os::unix::ffi::OsStrExt;
    let b = s.as_bytes();
    assert!(b.len() < PATHN, "path too long for the simulator: {s:?}");
    dst.fill(0);
    dst[..b.len()].copy_from_slice(b);
}
