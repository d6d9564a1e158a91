/* Control block shared by the simulator (harness) and the shim.  Mirrored by harness/src/ctl.rs. */
#ifndef VSIM_H
#define VSIM_H
#include <stdint.h>

#define VSIM_MAGIC 0x56534d31u
#define VSIM_MAX_FAULTS 32
#define VSIM_MAX_PFAULTS 16
#define VSIM_LOG 6000
#define VSIM_PATH 192

enum { /* operations */
  OP_OPEN = 1, OP_CREATE, OP_READ, OP_WRITE, OP_CLOSE, OP_FSYNC, OP_TRUNC, OP_RENAME, OP_UNLINK,
  OP_MKDIR, OP_RMDIR, OP_OPENDIR, OP_READDIR, OP_LINK, OP_STAT, OP_MAX
};
enum { /* fault kinds */
  FK_ERR = 1, FK_SHORT, FK_EINTR, FK_CRASH_BEFORE, FK_CRASH_PARTIAL, FK_CRASH_AFTER, FK_EXT_UNLINK, FK_EXT_RENAME, FK_MAX
};
enum { /* counters of what really fired */
  CT_ERR = 0, CT_SHORT, CT_EINTR, CT_CRASH, CT_ENOSPC_CAP, CT_EXT, CT_RSPLIT, CT_WSPLIT, CT_PEINTR, CT_PATHERR,
  CT_DIRPERM, CT_LIVE_NEW, CT_CLOCK, CT_RANDOM, CT_OOM, CT_PREEMPT, CT_STATERR, CT_MAX = 17
};

struct vsim_fault { uint32_t ev, kind; int32_t arg; uint32_t pad; char p1[VSIM_PATH], p2[VSIM_PATH]; };
struct vsim_pfault { uint32_t op; int32_t err; char path[VSIM_PATH]; };
struct vsim_ev { uint8_t op, flags; int16_t err; uint32_t ph; uint32_t req; uint32_t got; };

struct vsim_ctl {
  uint32_t magic, active, lib_mode, xdev;
  /* plan */
  char root[VSIM_PATH], tmp[VSIM_PATH];   /* the simulated disk; the directory for temporary files */
  uint32_t rmax, wmax, rnd_split, eintr_period;
  uint64_t disk_cap, seed;
  int64_t clock_base_ns, clock_step_ns;
  uint32_t dir_perm, live_new, oom_at, cpus;
  uint32_t pid, nofile;
  uint32_t nfaults, npfaults;
  struct vsim_fault faults[VSIM_MAX_FAULTS];
  struct vsim_pfault pfaults[VSIM_MAX_PFAULTS];
  /* state and record */
  uint32_t crashed, dead, nev, nxfer, nalloc, pad2;
  uint64_t rng, sim_ns, hash, bytes_written, bytes_read, refused;
  uint64_t counters[CT_MAX];
  struct vsim_ev log[VSIM_LOG];
};
#endif
