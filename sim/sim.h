/* grtsim: deterministic simulation runtime for PyGRT (see /verif/DESIGN.md) */
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>

#define SIM_MAXT 64
#define SIM_NKIND 24

enum op_kind {
    OP_OPEN_R = 0, OP_OPEN_W, OP_READ, OP_WRITE, OP_CLOSE_R, OP_CLOSE_W, OP_MKDIR, OP_OPENDIR, OP_READDIR,
    OP_STAT, OP_ACCESS, OP_STDOUT, OP_TRUNC, OP_UNLINK, OP_RENAME, OP_FSYNC, OP_SEEK, OP_STDCLOSE, OP_LIBW, OP_LIBR, OP_N
};

enum fault_kind {
    F_NONE = 0,
    F_ERR,          /* operation fails with errno=arg, no effect */
    F_SHORT,        /* read/write transfers only part (legal, caller must continue) */
    F_PARTIAL_ERR,  /* write: part transferred, then this and all later writes to the device fail with ENOSPC */
    F_FULL,         /* this and every later space-consuming operation fails with ENOSPC */
    F_CLOSE_LOSE,   /* close: reports error, tail of the file (arg permille kept) is lost */
    F_CRASH,        /* process dies before the operation */
    F_TORN,         /* write: part transferred, then the process dies */
    F_DEAD,         /* this and every later operation on this path fails with EIO */
    F_EINTR,        /* interrupted once */
    F_LIB,          /* call number op of the NetCDF library fails with status arg, no effect (arg2=1: and all later ones) */
    F_N
};

/* statistics, in a MAP_SHARED file so that they survive any death of the process */
typedef struct {
    uint64_t magic;
    uint64_t steps;         /* memory accesses + sync points inside parallel regions */
    uint64_t switches;      /* context switches between simulated threads */
    uint64_t regions;       /* parallel regions with more than one thread */
    uint64_t iters;         /* loop chunks handed out */
    uint64_t ops;           /* file-system operations on the simulated disk */
    uint64_t allocs;        /* allocations counted */
    uint64_t races;         /* data races observed */
    uint64_t race_pc1, race_pc2, race_addr; uint64_t race_w1, race_w2;
    uint64_t deadlock, steplimit, escapes;
    uint64_t faults_fired[F_N];
    uint64_t alloc_faults_fired;
    uint64_t opcount[OP_N];
    uint64_t sched_hash;    /* hash of the sequence of switches and loop chunks */
    uint64_t clock_reads, clock_us;
    uint64_t exited;        /* 1: normal exit path reached */
    uint64_t bytes_written;
    uint64_t maxthreads;
    uint64_t stdout_bytes;
    uint64_t crit_entries;
    uint64_t peer_wait;
    uint64_t dir_scans;
    char escape_path[256];
    char fault_info[8][160];
    uint64_t nfault_info;
    char race_info[256];
} sim_report;

extern sim_report *R;

/* scheduler */
void sched_init(void);
void sched_point(int forced);
bool sched_in_region(void);
int  sched_tid(void);
extern int sim_active;      /* simulated program is running */
extern __thread int sim_depth; /* >0: inside the shim, do not count/fail */

/* race detector */
void race_region_begin(int n, uintptr_t master_sp);
void race_region_end(void);
void race_forget(const void *p, size_t n);
void race_access(uintptr_t a, size_t n, int w, uintptr_t pc);
void race_acquire(uint32_t *vc);
void race_release(uint32_t *vc);
void race_barrier(void);
extern int race_on;

/* config */
typedef struct {
    uint64_t seed; int nthreads; int nprocs; int policy; uint64_t mean; int pct_d; uint64_t pct_len;
    int chunk; int race; int64_t garbage; int clock; uint64_t dirseed; uint64_t maxsteps, maxops;
    char *root; char *sched_in; char *sched_out; char *optrace; char *report;
    int64_t alloc_fail; int alloc_mode, alloc_trace; uint64_t alloc_min; int rvz_req, rvz_grant; int sigkill; int depth_mem;
} sim_conf;
extern sim_conf K;
typedef struct { uint64_t op; int kind; int64_t arg; int64_t arg2; } sim_fault;
extern sim_fault *FA; extern int NFA;

uint64_t rng_next(uint64_t *s);
long raw(long n, ...);
void sim_die(int code);
