/* simrt: deterministic whole-process simulator runtime.
 *
 * One OS process runs one "phase" of the system under test.  All of its
 * threads are real threads, but exactly one holds the baton and runs; every
 * place where control can move to another thread is a point at which this
 * runtime decides who runs next.  Clock, randomness, CPU count and the file
 * system are simulated.  See DESIGN.md.
 */
#ifndef SIMRT_H
#define SIMRT_H
#include <stdint.h>
#include <stddef.h>

#define SIM_MAX_THREADS 48
#define SIM_MAX_INODES 256
#define SIM_FILE_CAP (4u << 20)
#define SIM_PATH_CAP 200
#define SIM_MAX_DECISIONS 200000
#define SIM_MAX_FAULTS 2048
#define SIM_MAX_FSOPS 65536
#define SIM_MAX_RESULT (32u << 20)
#define SIM_MAX_STDERR (1u << 20)
#define SIM_MAX_GUARDS (1u << 20)
#define SIM_MAX_EVENTS 65536

/* fault kinds */
enum {
  FK_NONE = 0,
  FK_SHORT_READ = 1,      /* param: byte count (>=1) */
  FK_EINTR_READ = 2,
  FK_EIO_READ = 3,        /* once */
  FK_EIO_READ_STICKY = 4, /* all later reads of that file fail too */
  FK_OPEN_ERR = 5,        /* param: errno */
  FK_SHORT_WRITE = 6,     /* param: byte count (>=1) */
  FK_EINTR_WRITE = 7,
  FK_ENOSPC_WRITE = 8,    /* this and all later writes (disk full) */
  FK_ENOSPC_ONCE = 9,
  FK_EIO_WRITE = 10,      /* once */
  FK_EIO_WRITE_STICKY = 11,
  FK_MKDIR_ERR = 12,      /* param: errno */
  FK_CRASH = 13,          /* process dies before op; if op is a write, after param bytes */
  FK_TRUNC_FILE = 14,     /* before op: truncate the op's file to param bytes */
  FK_STAT_ERR = 15,       /* param: errno */
  FK_SPURIOUS_WAKE = 16,  /* futex wait returns without a wake */
  FK_CLOCK_JUMP = 17,     /* param: nanoseconds */
  FK_STALL = 18,          /* a thread is not scheduled for a while */
  FK_OPEN_EINTR = 19,
  FK_TORN_CRASH = 20,     /* counted: crash inside a write */
  FK_LOST_UNSYNCED = 21,  /* counted: power loss dropped unsynced data */
  FK_BAD_SECTOR = 22,     /* from op on: the op's file cannot be read from byte param on */
  FK_REPLACE = 23,        /* before op: the op's file gets the contents of inode param */
  FK_MAX = 24
};

/* fs op kinds */
enum { OP_OPEN = 1, OP_READ, OP_WRITE, OP_CLOSE, OP_STAT, OP_MKDIR, OP_LSEEK,
       OP_UNLINK, OP_RENAME, OP_FSYNC, OP_TRUNC, OP_OTHER };

/* outcomes of a phase */
enum { OUT_NONE = 0, OUT_RETURNED = 1, OUT_EXIT = 2, OUT_CRASH = 3, OUT_DEADLOCK = 4,
       OUT_STEPLIMIT = 5, OUT_ABORT = 6, OUT_SIGNAL = 7, OUT_CPULIMIT = 8,
       OUT_HARNESS = 9, OUT_PANIC = 10 };

typedef struct { uint64_t count; uint32_t kind; uint32_t tid; } sim_decision; /* kind 0 switch, 1 wake */
typedef struct { uint32_t op; uint32_t kind; int64_t param; } sim_fault;
typedef struct { uint32_t kind; int32_t inode; int64_t arg; int64_t result; uint64_t count; uint32_t tid; uint32_t flags; } sim_fsop;
typedef struct { uint64_t seq; uint32_t tid; uint32_t tag; uint64_t a, b; } sim_event;

typedef struct {
  uint64_t seed;
  uint32_t replay;          /* 1: take decisions from the list */
  uint32_t ncpu;            /* simulated number of CPUs */
  uint32_t policy;          /* 0 random walk, 1 PCT, 2 only forced switches */
  uint32_t gap;             /* mean distance between random preemptions (points) */
  uint32_t pct_depth;
  uint64_t pct_len;
  uint32_t hot_mod;         /* 1/hot_mod of all code edges are preemption-prone; 0 off */
  uint32_t hot_pct;         /* chance in percent to preempt there */
  uint32_t hot_budget;
  uint32_t stall_pct;       /* chance (per mille) that a preemption stalls the thread */
  uint64_t stall_len;
  uint32_t spurious_pm;     /* per mille of futex waits that return spuriously */
  uint32_t clock_jump_pm;   /* per mille of clock reads that see a jump */
  uint32_t short_read_pm, eintr_read_pm, short_write_pm, eintr_write_pm; /* benign I/O, per mille */
  uint32_t tty;             /* stderr is a terminal */
  uint64_t step_limit;
  uint64_t capacity;        /* bytes the disk can hold; 0 unlimited */
  uint64_t time_base;       /* initial clock, ns */
  uint32_t ndec; uint32_t nfaults;   /* replay decisions / planned faults (in shm arrays) */
} sim_cfg;

typedef struct {
  int32_t outcome; int32_t code; int32_t signal; int32_t pad;
  uint64_t points;          /* scheduling points passed */
  uint64_t switches;        /* context switches */
  uint64_t preemptions;
  uint64_t trace_hash;      /* everything observable: schedule, fs ops, clock reads */
  uint64_t sched_hash;      /* who ran, where it was preempted */
  uint64_t sim_ns;          /* simulated time covered */
  uint32_t nthreads; uint32_t nfsops;
  uint32_t ndec_out; uint32_t nfaults_out;
  uint32_t new_guards; uint32_t dec_overflow;
  uint64_t fired[FK_MAX];
  uint64_t foreign_opens;   /* attempts to open paths outside the simulated disk */
  uint64_t result_len; uint64_t stderr_len; uint64_t stdout_len; uint64_t nevents;
  uint64_t futex_waits, futex_wakes, yields;
  char note[256];
} sim_stats;

typedef struct {
  uint8_t used; uint8_t is_dir; uint8_t sticky_eio; uint8_t created; /* created in this phase */
  uint32_t opens_w;
  uint64_t size; uint64_t synced; /* bytes known durable */
  uint64_t version; /* bumped by every modification */
  char path[SIM_PATH_CAP];
} sim_inode;

typedef struct {
  sim_cfg cfg;
  sim_stats st;
  sim_inode inodes[SIM_MAX_INODES];
  sim_decision dec_in[SIM_MAX_DECISIONS];
  sim_decision dec_out[SIM_MAX_DECISIONS];
  sim_fault faults_in[SIM_MAX_FAULTS];
  sim_fault faults_out[SIM_MAX_FAULTS];
  sim_fsop fsops[SIM_MAX_FSOPS];
  sim_event events[SIM_MAX_EVENTS];
  uint8_t guards_hit[SIM_MAX_GUARDS];  /* accumulated over all phases of this worker */
  char err[SIM_MAX_STDERR];
  char out[SIM_MAX_STDERR];
  uint8_t result[SIM_MAX_RESULT];
} sim_shm;

/* API for the harness */
sim_shm *sim_get(void);
uint8_t *sim_file_data(int inode);
void sim_fs_reset(void);
int sim_fs_put(const char *path, const uint8_t *data, uint64_t len);
int sim_fs_mkdir(const char *path);
int sim_fs_find(const char *path);
int sim_phase(void (*fn)(void *), void *arg);
void sim_init(int argc, char **argv);
void sim_set_result(const uint8_t *p, uint64_t len);
uint32_t sim_self(void);          /* id of the running simulated thread */
uint64_t sim_seq(void);           /* current point count */
void sim_event_log(uint32_t tag, uint64_t a, uint64_t b);
int sim_active(void);
void sim_set_args(int n, const char *const *args);
void sim_point(void);
void sim_freeze(int on);
uint32_t sim_nguards(void);
void *sim_alloc(size_t size, size_t align);
void sim_free(void *p, size_t size, size_t align);
void *sim_realloc(void *p, size_t old, size_t align, size_t n);
int sim_in_arena(void *p);
int sim_open_files(void); /* of the running process */
void sim_mark_panic(void);
#endif
