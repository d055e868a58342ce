#define _GNU_SOURCE
#include "simrt.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

/* ------------------------------------------------------------------ */
/* raw system calls                                                    */
static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}
#define RAW(n, a, b, c, d, e, f) raw6((n), (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))
static long ret_errno(long r) {
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

/* ------------------------------------------------------------------ */
/* address-space layout                                                */
#define SHM_ADDR ((void *)0x100000000000ul)
#define FS_ADDR ((uint8_t *)0x110000000000ul)
#define ARENA_ADDR ((uint8_t *)0x120000000000ul)
#define ARENA_SIZE (16ul << 30)
#define STACK_ADDR ((uint8_t *)0x130000000000ul)
#define STACK_SIZE (16ul << 20)

enum { T_FREE = 0, T_RUN, T_FUTEX, T_JOIN, T_SLEEP, T_DONE };

typedef struct {
  int state;
  uint32_t go;              /* real futex: baton */
  uint32_t *addr; uint32_t bitset;
  uint64_t deadline;        /* ns, 0 none */
  int woken;                /* 1 woken, 2 timeout, 3 spurious */
  int join;                 /* target */
  uint64_t prio; uint64_t stalled;
  pthread_t pt; int has_pt;
  void *(*fn)(void *); void *arg;
} sthread;

static sim_shm *M;          /* shared with the controller */
static struct {
  int active;
  int64_t countdown; uint64_t next_stop;
  int cur; int nthreads;
  uint64_t preempt_at, fair_at;
  uint64_t rng_s[2], rng_f[2], rng_o[2];
  uint32_t dec_pos;
  uint64_t hot_left; uint64_t clock_add; int64_t real_skew;
  uint64_t pct_next_low; uint64_t pct_points[64]; uint32_t pct_n, pct_i;
  uint64_t n_clock, n_futex, n_fsop;
  int disk_full;
  sthread t[SIM_MAX_THREADS];
  uint64_t trace, sched;
  void (*fn)(void *); void *arg;
  uint32_t rr;
  int frozen;               /* harness code: no scheduling points */
} S;

static __thread int t_self = -1;
static pthread_key_t exit_key;
static int (*real_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_pthread_join)(pthread_t, void **);
static void finish(int outcome, int code) __attribute__((noreturn));

static void mix(uint64_t *h, uint64_t v) {
  uint64_t x = *h ^ (v + 0x9e3779b97f4a7c15ull + (*h << 6) + (*h >> 2));
  x ^= x >> 31; x *= 0x7fb5d329728ea185ull; x ^= x >> 27; x *= 0x81dadef4bc2dd44dull; x ^= x >> 33;
  *h = x;
}
static uint64_t sm64(uint64_t *x) {
  uint64_t z = (*x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static uint64_t rnd(uint64_t s[2]) { /* xoroshiro128+ */
  uint64_t a = s[0], b = s[1], r = a + b;
  b ^= a; s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16); s[1] = (b << 37) | (b >> 27);
  return r;
}
static uint64_t rndn(uint64_t s[2], uint64_t n) { return n ? (uint64_t)(((__uint128_t)rnd(s) * n) >> 64) : 0; }

/* ------------------------------------------------------------------ */
/* points, clock                                                       */
static uint64_t cnt(void) { return S.next_stop - (uint64_t)S.countdown; }
static uint64_t sim_now(void) { return M->cfg.time_base + cnt() * 20 + S.clock_add; }
int sim_active(void) { return S.active && t_self >= 0; }
uint32_t sim_self(void) { return (uint32_t)t_self; }
uint64_t sim_seq(void) { return S.active ? cnt() : 0; }
uint32_t sim_nguards(void);

static void fnote(const char *s) { strncpy(M->st.note, s, sizeof M->st.note - 1); }

static uint64_t geometric(uint64_t mean) {
  /* cheap heavy-tailed gap: uniform in [1, 2*mean] most of the time */
  uint64_t k = rndn(S.rng_s, 8);
  if (k == 0) return 1 + rndn(S.rng_s, 1 + mean / 8);
  if (k == 1) return 1 + rndn(S.rng_s, 6 * mean + 1);
  return 1 + rndn(S.rng_s, 2 * mean);
}

static void set_stop(void) {
  uint64_t c = cnt(), s = M->cfg.step_limit;
  if (S.fair_at < s) s = S.fair_at;
  if (M->cfg.replay) {
    while (S.dec_pos < M->cfg.ndec && M->dec_in[S.dec_pos].count < c) S.dec_pos++;
    if (S.dec_pos < M->cfg.ndec && M->dec_in[S.dec_pos].count > c && M->dec_in[S.dec_pos].count < s)
      s = M->dec_in[S.dec_pos].count;
  } else if (S.preempt_at < s) s = S.preempt_at;
  if (s <= c) s = c + 1;
  S.countdown = (int64_t)(s - c);
  S.next_stop = s;
}
#define FAIR 60000
static void next_preempt(void) {
  uint64_t c = cnt();
  if (M->cfg.policy == 0) S.preempt_at = c + geometric(M->cfg.gap ? M->cfg.gap : 100);
  else if (M->cfg.policy == 1) {
    while (S.pct_i < S.pct_n && S.pct_points[S.pct_i] <= c) S.pct_i++;
    S.preempt_at = S.pct_i < S.pct_n ? S.pct_points[S.pct_i] : UINT64_MAX;
  } else S.preempt_at = UINT64_MAX;
}

static void log_dec(uint32_t kind, uint32_t tid) {
  if (M->st.ndec_out < SIM_MAX_DECISIONS) {
    M->dec_out[M->st.ndec_out++] = (sim_decision){cnt(), kind, tid};
  } else M->st.dec_overflow = 1;
}

static void wait_baton(int me) {
  sthread *t = &S.t[me];
  while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) RAW(SYS_futex, &t->go, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  t->go = 0;
}
static void give_baton(int to) {
  S.cur = to;
  __atomic_store_n(&S.t[to].go, 1, __ATOMIC_RELEASE);
  RAW(SYS_futex, &S.t[to].go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

static void timers(void) {
  uint64_t n = sim_now();
  for (int i = 0; i < S.nthreads; i++) {
    sthread *t = &S.t[i];
    if ((t->state == T_FUTEX || t->state == T_SLEEP) && t->deadline && t->deadline <= n) {
      t->state = T_RUN; t->woken = 2; t->deadline = 0;
    }
  }
}
static int runnable(int i) { return S.t[i].state == T_RUN; }
static int default_next(int cur) { /* next runnable after cur, cyclically; may be cur itself */
  for (int k = 1; k <= S.nthreads; k++) { int i = (cur + k) % S.nthreads; if (runnable(i)) return i; }
  return -1;
}
static int policy_pick(int cur, int include_cur) {
  int cand[SIM_MAX_THREADS], n = 0;
  uint64_t c = cnt();
  for (int pass = 0; pass < 2 && n == 0; pass++)
    for (int i = 0; i < S.nthreads; i++)
      if (runnable(i) && (include_cur || i != cur) && (pass || S.t[i].stalled <= c)) cand[n++] = i;
  if (!n) return -1;
  if (M->cfg.policy == 1) {
    int b = cand[0];
    for (int i = 1; i < n; i++) if (S.t[cand[i]].prio > S.t[b].prio) b = cand[i];
    return b;
  }
  if (M->cfg.policy == 2) return default_next(cur);
  return cand[rndn(S.rng_s, n)];
}

static void do_switch(int to, uint32_t why) {
  int me = S.cur;
  if (to == me) { set_stop(); return; }
  S.fair_at = cnt() + FAIR;
  M->st.switches++;
  mix(&S.trace, (cnt() << 8) ^ (uint64_t)to);
  mix(&S.sched, ((uint64_t)why << 32) | (uint64_t)(to << 8) | (uint64_t)me);
  set_stop();
  give_baton(to);
  wait_baton(me);
}

/* Every decision gets a count of its own, so that the log is unambiguous. */
static void tick(void) { S.countdown--; }

/* the current thread cannot continue; pick another one */
static int pick_forced(void) {
  tick();
  timers();
  int d = default_next(S.cur);
  if (d < 0) { /* everyone blocked: let time pass */
    uint64_t best = 0; int bi = -1;
    for (int i = 0; i < S.nthreads; i++)
      if ((S.t[i].state == T_FUTEX || S.t[i].state == T_SLEEP) && S.t[i].deadline && (bi < 0 || S.t[i].deadline < best)) {
        best = S.t[i].deadline; bi = i;
      }
    if (bi < 0) return -1;
    uint64_t n = sim_now();
    if (best > n) S.clock_add += best - n;
    timers();
    d = default_next(S.cur);
  }
  int pick = d;
  if (M->cfg.replay) {
    while (S.dec_pos < M->cfg.ndec && M->dec_in[S.dec_pos].count < cnt()) S.dec_pos++;
    if (S.dec_pos < M->cfg.ndec && M->dec_in[S.dec_pos].count == cnt() && M->dec_in[S.dec_pos].kind == 0) {
      uint32_t t = M->dec_in[S.dec_pos].tid; S.dec_pos++;
      if (t < (uint32_t)S.nthreads && runnable((int)t)) pick = (int)t;
    }
  } else {
    int p = policy_pick(S.cur, 0);
    if (p >= 0) pick = p;
  }
  if (pick != d) log_dec(0, (uint32_t)pick);
  return pick;
}

static void block_current(void) { /* state already set; returns when runnable and scheduled */
  int me = S.cur;
  int to = pick_forced();
  if (to < 0) { fnote("all threads blocked"); finish(OUT_DEADLOCK, 0); }
  if (to == me) { S.fair_at = cnt() + FAIR; set_stop(); return; } /* own timeout fired */
  do_switch(to, 1);
}

static void preempt(uint32_t guard) { /* voluntary preemption of a runnable thread */
  timers();
  int me = S.cur, to = me;
  if (M->cfg.replay) {
    if (S.dec_pos < M->cfg.ndec && M->dec_in[S.dec_pos].count == cnt() && M->dec_in[S.dec_pos].kind == 0) {
      uint32_t t = M->dec_in[S.dec_pos].tid; S.dec_pos++;
      if (t < (uint32_t)S.nthreads && runnable((int)t)) to = (int)t;
    }
  } else {
    if (M->cfg.policy == 1) { S.t[me].prio = S.pct_next_low--; to = policy_pick(me, 1); }
    else {
      if (M->cfg.stall_pct && rndn(S.rng_s, 1000) < M->cfg.stall_pct) {
        S.t[me].stalled = cnt() + 1 + rndn(S.rng_s, M->cfg.stall_len + 1);
        M->st.fired[FK_STALL]++;
      }
      to = policy_pick(me, S.t[me].stalled <= cnt());
      if (to < 0) to = me;
    }
  }
  if (to != me) { log_dec(0, (uint32_t)to); M->st.preemptions++; mix(&S.sched, guard); }
  do_switch(to, 2);
}

static void slow(uint32_t guard) {
  uint64_t c = cnt();
  if (c >= M->cfg.step_limit) { fnote("step limit"); finish(OUT_STEPLIMIT, 0); }
  if (c >= S.fair_at) { /* fairness: not a decision, identical on replay */
    timers();
    int d = default_next(S.cur);
    if (M->cfg.policy == 1 && !M->cfg.replay) S.t[S.cur].prio = S.pct_next_low--;
    S.fair_at = c + FAIR;
    do_switch(d < 0 ? S.cur : d, 3);
    return;
  }
  if (M->cfg.replay) {
    if (S.dec_pos < M->cfg.ndec && M->dec_in[S.dec_pos].count == c && M->dec_in[S.dec_pos].kind == 0) { preempt(guard); return; }
  } else if (c >= S.preempt_at) {
    next_preempt();
    preempt(guard);
    return;
  }
  set_stop();
}
static inline void point(uint32_t g) { if (S.frozen) return; if (--S.countdown <= 0) slow(g); }
void sim_freeze(int on) { if (sim_active()) S.frozen += on ? 1 : -1; }
void sim_point(void) { if (sim_active()) point(1); }

static void yield_(void) {
  M->st.yields++;
  point(2);
  tick();
  timers();
  int me = S.cur, d = default_next(me), pick = d;
  if (M->cfg.replay) {
    while (S.dec_pos < M->cfg.ndec && M->dec_in[S.dec_pos].count < cnt()) S.dec_pos++;
    if (S.dec_pos < M->cfg.ndec && M->dec_in[S.dec_pos].count == cnt() && M->dec_in[S.dec_pos].kind == 0) {
      uint32_t t = M->dec_in[S.dec_pos].tid; S.dec_pos++;
      if (t < (uint32_t)S.nthreads && runnable((int)t)) pick = (int)t;
    }
  } else {
    if (M->cfg.policy == 1) S.t[me].prio = S.pct_next_low--;
    int p = policy_pick(me, M->cfg.policy == 1);
    if (p >= 0) pick = p;
  }
  if (pick != d) log_dec(0, (uint32_t)pick);
  do_switch(pick, 4);
}

/* ------------------------------------------------------------------ */
/* code-edge instrumentation                                           */
static uint32_t nguards = 1;
static uint8_t hotg[SIM_MAX_GUARDS];
void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) {
  if (start == stop || *start) return;
  for (uint32_t *x = start; x < stop; x++) *x = nguards < SIM_MAX_GUARDS - 1 ? nguards++ : SIM_MAX_GUARDS - 1;
}
uint32_t sim_nguards(void) { return nguards; }
static void guard_first(uint32_t g) {
  /* hot marks depend on the order in which code is first reached in this
   * phase, not on its address: stable under unrelated code changes */
  uint64_t x = M->cfg.seed ^ (0x5151ull * (uint64_t)(++S.rr));
  uint8_t hot = M->cfg.hot_mod && !M->cfg.replay && (sm64(&x) % M->cfg.hot_mod) == 0;
  hotg[g] = 1 | (uint8_t)(hot << 1);
  if (!M->guards_hit[g]) { M->guards_hit[g] = 1; M->st.new_guards++; }
}
void __sanitizer_cov_trace_pc_guard(uint32_t *guard) {
  if (!S.active || S.frozen) return;
  uint32_t g = *guard;
  if (__builtin_expect(hotg[g] != 1, 0)) {
    if (!hotg[g]) guard_first(g);
    if ((hotg[g] & 2) && S.hot_left && rndn(S.rng_s, 100) < M->cfg.hot_pct) {
      S.hot_left--;
      if (--S.countdown <= 0) { slow(g); return; }
      preempt(g);
      return;
    }
  }
  if (--S.countdown <= 0) slow(g);
}

/* ------------------------------------------------------------------ */
/* faults                                                              */
static void fired(uint32_t op, uint32_t kind, int64_t param) {
  M->st.fired[kind]++;
  if (M->st.nfaults_out < SIM_MAX_FAULTS) M->faults_out[M->st.nfaults_out++] = (sim_fault){op, kind, param};
  mix(&S.trace, ((uint64_t)op << 32) ^ (uint64_t)kind ^ ((uint64_t)param << 8));
}
static sim_fault *planned(uint32_t op, uint32_t lo, uint32_t hi) {
  for (uint32_t i = 0; i < M->cfg.nfaults; i++)
    if (M->faults_in[i].op == op && M->faults_in[i].kind >= lo && M->faults_in[i].kind <= hi) return &M->faults_in[i];
  return NULL;
}

/* ------------------------------------------------------------------ */
/* phase end                                                           */
static void finish(int outcome, int code) {
  M->st.outcome = outcome; M->st.code = code;
  M->st.points = cnt(); M->st.trace_hash = S.trace; M->st.sched_hash = S.sched;
  M->st.nthreads = (uint32_t)S.nthreads; M->st.nfsops = (uint32_t)S.n_fsop;
  M->st.sim_ns = sim_now() - M->cfg.time_base;
  RAW(SYS_exit_group, 0, 0, 0, 0, 0, 0);
  for (;;) ;
}
void sim_mark_panic(void) { if (S.active) M->st.pad |= 1; }
void sim_set_result(const uint8_t *p, uint64_t len) {
  if (len > SIM_MAX_RESULT) { fnote("result too large"); finish(OUT_HARNESS, 1); }
  memcpy(M->result, p, len); M->st.result_len = len;
}
void sim_event_log(uint32_t tag, uint64_t a, uint64_t b) {
  if (!sim_active()) return;
  if (M->st.nevents < SIM_MAX_EVENTS)
    M->events[M->st.nevents] = (sim_event){cnt(), (uint32_t)t_self, tag, a, b};
  M->st.nevents++;
}

/* ------------------------------------------------------------------ */
/* threads                                                             */
static void thread_end(void *p) {
  long n = (long)p;
  if (n < PTHREAD_DESTRUCTOR_ITERATIONS) { pthread_setspecific(exit_key, (void *)(n + 1)); return; }
  if (t_self < 0 || !S.active) return;
  int me = t_self;
  S.t[me].state = T_DONE;
  for (int i = 0; i < S.nthreads; i++)
    if (S.t[i].state == T_JOIN && S.t[i].join == me) S.t[i].state = T_RUN;
  int to = pick_forced();
  if (to < 0) { fnote("all threads blocked after a thread ended"); finish(OUT_DEADLOCK, 0); }
  M->st.switches++;
  mix(&S.trace, (cnt() << 8) ^ (uint64_t)to ^ 0xdead);
  S.fair_at = cnt() + FAIR;
  set_stop();
  t_self = -1;
  give_baton(to);
}
static void *thread_main(void *p) {
  int me = (int)(long)p;
  t_self = me;
  pthread_setspecific(exit_key, (void *)1);
  wait_baton(me);
  return S.t[me].fn(S.t[me].arg);
}
static int spawn(pthread_t *out, void *(*fn)(void *), void *arg) {
  if (S.nthreads >= SIM_MAX_THREADS) return EAGAIN;
  int id = S.nthreads++;
  sthread *t = &S.t[id];
  memset(t, 0, sizeof *t);
  t->fn = fn; t->arg = arg; t->state = T_RUN;
  t->prio = (rnd(S.rng_s) | (1ull << 63)); t->join = -1;
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, STACK_ADDR + (uint64_t)id * STACK_SIZE, STACK_SIZE - 4096);
  int r = real_pthread_create(&t->pt, &at, thread_main, (void *)(long)id);
  pthread_attr_destroy(&at);
  if (r) { S.nthreads--; return r; }
  t->has_pt = 1;
  *out = t->pt;
  return 0;
}
int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  if (!real_pthread_create) real_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
  if (!sim_active()) return real_pthread_create(out, attr, fn, arg);
  int r = spawn(out, fn, arg);
  if (!r) { mix(&S.trace, 0x7717); point(3); }
  return r;
}
int pthread_join(pthread_t pt, void **ret) {
  if (!real_pthread_join) real_pthread_join = dlsym(RTLD_NEXT, "pthread_join");
  if (!sim_active()) return real_pthread_join(pt, ret);
  point(4);
  int me = t_self;
  for (int i = 0; i < S.nthreads; i++)
    if (S.t[i].has_pt && S.t[i].pt == pt) {
      if (S.t[i].state != T_DONE) { S.t[me].state = T_JOIN; S.t[me].join = i; block_current(); }
      S.t[i].has_pt = 0;
      break;
    }
  return real_pthread_join(pt, ret);
}
int sched_yield(void) {
  if (!sim_active()) return (int)ret_errno(RAW(SYS_sched_yield, 0, 0, 0, 0, 0, 0));
  yield_();
  return 0;
}

/* ------------------------------------------------------------------ */
/* futex                                                               */
static long sim_futex(uint32_t *addr, int op, uint32_t val, const struct timespec *ts, uint32_t *addr2, uint32_t val3) {
  int cmd = op & FUTEX_CMD_MASK;
  sthread *me = &S.t[t_self];
  point(5);
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    M->st.futex_waits++;
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
    uint32_t idx = (uint32_t)S.n_futex++;
    int spur = 0;
    if (planned(idx, FK_SPURIOUS_WAKE, FK_SPURIOUS_WAKE)) spur = 1;
    else if (!M->cfg.replay && M->cfg.spurious_pm && rndn(S.rng_f, 1000) < M->cfg.spurious_pm) spur = 1;
    if (spur) { fired(idx, FK_SPURIOUS_WAKE, 0); if (idx & 1) { errno = EINTR; return -1; } return 0; }
    me->deadline = 0;
    if (ts) {
      uint64_t v = (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec;
      if (cmd == FUTEX_WAIT) v += sim_now();
      else if (op & FUTEX_CLOCK_REALTIME) v -= (uint64_t)S.real_skew;
      me->deadline = v ? v : 1;
    }
    me->addr = addr; me->bitset = cmd == FUTEX_WAIT_BITSET ? val3 : 0xffffffffu;
    me->woken = 0; me->state = T_FUTEX;
    block_current();
    me->addr = NULL;
    if (me->woken == 2) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    M->st.futex_wakes++;
    timers();
    uint32_t bs = cmd == FUTEX_WAKE_BITSET ? val3 : 0xffffffffu;
    long woke = 0;
    while ((uint32_t)woke < val) {
      int cand[SIM_MAX_THREADS], n = 0;
      for (int i = 0; i < S.nthreads; i++)
        if (S.t[i].state == T_FUTEX && S.t[i].addr == addr && (S.t[i].bitset & bs)) cand[n++] = i;
      if (!n) break;
      int pick = cand[0];
      if (n > 1) {
        tick();
        if (M->cfg.replay) {
          if (S.dec_pos < M->cfg.ndec && M->dec_in[S.dec_pos].count == cnt() && M->dec_in[S.dec_pos].kind == 1) {
            for (int i = 0; i < n; i++) if ((uint32_t)cand[i] == M->dec_in[S.dec_pos].tid) pick = cand[i];
            S.dec_pos++;
          }
        } else pick = cand[rndn(S.rng_s, n)];
        if (pick != cand[0]) log_dec(1, (uint32_t)pick);
      }
      S.t[pick].state = T_RUN; S.t[pick].woken = 1; S.t[pick].deadline = 0;
      woke++;
    }
    if (woke) tick();
    if (woke && M->cfg.policy == 1 && !M->cfg.replay) {
      int b = policy_pick(t_self, 1);
      if (b >= 0 && b != t_self) { log_dec(0, (uint32_t)b); M->st.preemptions++; do_switch(b, 5); }
    } else if (M->cfg.replay) {
      if (woke && S.dec_pos < M->cfg.ndec && M->dec_in[S.dec_pos].count == cnt() && M->dec_in[S.dec_pos].kind == 0) preempt(6);
    }
    return woke;
  }
  if (cmd == FUTEX_REQUEUE || cmd == FUTEX_CMP_REQUEUE) {
    /* legal simplification: wake everybody */
    long woke = 0;
    for (int i = 0; i < S.nthreads; i++)
      if (S.t[i].state == T_FUTEX && S.t[i].addr == addr) { S.t[i].state = T_RUN; S.t[i].woken = 1; S.t[i].deadline = 0; woke++; }
    (void)addr2;
    return woke;
  }
  errno = ENOSYS;
  return -1;
}

static int sleep_until(uint64_t when) {
  sthread *me = &S.t[t_self];
  point(7);
  if (when <= sim_now()) { yield_(); return 0; }
  me->deadline = when; me->state = T_SLEEP;
  block_current();
  return 0;
}
int nanosleep(const struct timespec *r, struct timespec *rem) {
  if (!sim_active()) return (int)ret_errno(RAW(SYS_nanosleep, r, rem, 0, 0, 0, 0));
  return sleep_until(sim_now() + (uint64_t)r->tv_sec * 1000000000ull + (uint64_t)r->tv_nsec);
}
int usleep(useconds_t us) { struct timespec t = {us / 1000000, (us % 1000000) * 1000}; return nanosleep(&t, NULL); }
static uint64_t clock_value(clockid_t id) {
  if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)
    return sim_now() + (uint64_t)S.real_skew;
  return sim_now();
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *r, struct timespec *rem) {
  if (!sim_active()) return (int)-RAW(SYS_clock_nanosleep, c, flags, r, rem, 0, 0);
  uint64_t v = (uint64_t)r->tv_sec * 1000000000ull + (uint64_t)r->tv_nsec;
  if (flags & TIMER_ABSTIME) { if (c == CLOCK_REALTIME) v -= (uint64_t)S.real_skew; } else v += sim_now();
  return sleep_until(v);
}
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!sim_active()) return (int)ret_errno(RAW(SYS_clock_gettime, id, ts, 0, 0, 0, 0));
  point(8);
  uint32_t idx = (uint32_t)S.n_clock++;
  sim_fault *f = planned(idx, FK_CLOCK_JUMP, FK_CLOCK_JUMP);
  int64_t j = 0;
  if (f) j = f->param;
  else if (!M->cfg.replay && M->cfg.clock_jump_pm && rndn(S.rng_f, 1000) < M->cfg.clock_jump_pm) {
    j = (int64_t)(1ull << (10 + rndn(S.rng_f, 44))) + (int64_t)rndn(S.rng_f, 1000);
    if (rndn(S.rng_f, 2)) j = -j;
  }
  if (j) {
    fired(idx, FK_CLOCK_JUMP, j);
    if (j > 0) S.clock_add += (uint64_t)j; /* both clocks leap */
    else S.real_skew += j;                 /* wall clock set back */
    if ((int64_t)sim_now() + S.real_skew < 0) S.real_skew = -(int64_t)sim_now();
  }
  uint64_t v = clock_value(id);
  mix(&S.trace, v);
  ts->tv_sec = (time_t)(v / 1000000000ull); ts->tv_nsec = (long)(v % 1000000000ull);
  return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
  struct timespec ts; (void)tz;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t *t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}

ssize_t getrandom(void *buf, size_t len, unsigned flags) {
  if (!sim_active()) return ret_errno(RAW(SYS_getrandom, buf, len, flags, 0, 0, 0));
  point(9);
  uint8_t *p = buf;
  for (size_t i = 0; i < len; i++) { p[i] = (uint8_t)(rnd(S.rng_o) >> 24); }
  if (len >= 8) mix(&S.trace, *(uint64_t *)buf);
  return (ssize_t)len;
}
int getentropy(void *buf, size_t len) { return getrandom(buf, len, 0) < 0 ? -1 : 0; }

int sched_getaffinity(pid_t pid, size_t sz, cpu_set_t *set) {
  if (!sim_active()) {
    long r = RAW(SYS_sched_getaffinity, pid, sz, set, 0, 0, 0);
    if (r < 0) return (int)ret_errno(r);
    if ((size_t)r < sz) memset((char *)set + r, 0, sz - (size_t)r);
    return 0;
  }
  memset(set, 0, sz);
  for (uint32_t i = 0; i < M->cfg.ncpu && i < sz * 8; i++) CPU_SET_S(i, sz, set);
  return 0;
}
long sysconf(int name) {
  static long (*real)(int);
  if (sim_active() && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return M->cfg.ncpu;
  if (!real) real = dlsym(RTLD_NEXT, "sysconf");
  return real(name);
}
int sched_getcpu(void) { return 0; }
/* differs between configurations */
static int pid_sim(void) { return 4242 + (int)((M->cfg.seed >> 9) % 900); }
pid_t getpid(void) { return sim_active() ? pid_sim() : (pid_t)RAW(SYS_getpid, 0, 0, 0, 0, 0, 0); }
pid_t gettid(void) { return sim_active() ? pid_sim() + 758 + t_self : (pid_t)RAW(SYS_gettid, 0, 0, 0, 0, 0, 0); }

/* ------------------------------------------------------------------ */
/* simulated file system                                               */
#define SIMFD 1000
#define MAXFD 128
static struct { int used, inode, flags; uint64_t pos; } F[MAXFD];
uint8_t *sim_file_data(int i) { return FS_ADDR + (uint64_t)i * SIM_FILE_CAP; }

int sim_fs_find(const char *path) {
  for (int i = 0; i < SIM_MAX_INODES; i++)
    if (M->inodes[i].used && !strcmp(M->inodes[i].path, path)) return i;
  return -1;
}
static int inode_new(const char *path, int dir) {
  for (int i = 0; i < SIM_MAX_INODES; i++)
    if (!M->inodes[i].used) {
      sim_inode *n = &M->inodes[i];
      memset(n, 0, sizeof *n);
      n->used = 1; n->is_dir = (uint8_t)dir;
      strncpy(n->path, path, SIM_PATH_CAP - 1);
      return i;
    }
  return -1;
}
void sim_fs_reset(void) {
  memset(M->inodes, 0, sizeof M->inodes);
  sim_fs_mkdir("/simfs");
}
int sim_fs_mkdir(const char *p) { int i = sim_fs_find(p); return i >= 0 ? i : inode_new(p, 1); }
int sim_fs_put(const char *path, const uint8_t *data, uint64_t len) {
  int i = sim_fs_find(path);
  if (i < 0) i = inode_new(path, 0);
  if (i < 0 || len > SIM_FILE_CAP) return -1;
  memcpy(sim_file_data(i), data, len);
  M->inodes[i].size = len; M->inodes[i].synced = len;
  return i;
}

/* absolute, normalised path on the simulated disk.  is_dir==2: symbolic link
 * (to a directory or file), target path stored as file data; is_dir==3:
 * another name of a file (hard link).  Returns 0 if the path is outside the
 * simulated disk. */
static int norm(const char *p, char *out) {
  char tmp[1024];
  if (!p) return 0;
  if (p[0] == '/') { if (strlen(p) >= 900) return 0; strcpy(tmp, p); }
  else { if (strlen(p) >= 900) return 0; strcpy(tmp, "/simfs/cwd/"); strcat(tmp, p); }
  size_t n = 0; out[0] = 0;
  char *s = tmp; int links = 0;
  while (*s) {
    while (*s == '/') s++;
    if (!*s) break;
    char *e = s; while (*e && *e != '/') e++;
    size_t l = (size_t)(e - s);
    if (l == 1 && s[0] == '.') { s = e; continue; }
    if (l == 2 && s[0] == '.' && s[1] == '.') {
      while (n && out[n - 1] != '/') n--;
      if (n) n--;
      out[n] = 0; s = e; continue;
    }
    if (n + l + 2 >= SIM_PATH_CAP) return 0;
    out[n++] = '/'; memcpy(out + n, s, l); n += l; out[n] = 0;
    int i = sim_fs_find(out);
    if (i >= 0 && M->inodes[i].is_dir == 2 && links++ < 8) {
      strcpy(out, (char *)sim_file_data(i)); n = strlen(out);
    }
    s = e;
  }
  return !strcmp(out, "/simfs") || !strncmp(out, "/simfs/", 7);
}
/* the file behind a name */
static int fs_open_find(const char *path) {
  int i = sim_fs_find(path);
  return i >= 0 && M->inodes[i].is_dir == 3 ? sim_fs_find((char *)sim_file_data(i)) : i;
}
static int parent_ok(const char *path) {
  char d[SIM_PATH_CAP];
  strcpy(d, path);
  char *e = strrchr(d, '/');
  if (!e || e == d) return 0;
  *e = 0;
  int i = sim_fs_find(d);
  if (i < 0) return ENOENT;
  return M->inodes[i].is_dir ? 0 : ENOTDIR;
}

typedef struct { uint32_t idx; int kind; int64_t param; sim_fsop *rec; } opctx;
/* 1 + offset from which the file cannot be read any more, 0 if it is healthy */
static uint64_t bad_from[SIM_MAX_INODES];
static void crash_now(uint32_t idx) { fired(idx, FK_CRASH, 0); finish(OUT_CRASH, 0); }

static opctx op_begin(int kind, int inode, int64_t arg) {
  opctx o = {0, FK_NONE, 0, NULL};
  point(10 + (uint32_t)kind);
  o.idx = (uint32_t)S.n_fsop++;
  mix(&S.trace, ((uint64_t)kind << 56) ^ ((uint64_t)(uint32_t)inode << 40) ^ (uint64_t)arg);
  if (o.idx < SIM_MAX_FSOPS) {
    o.rec = &M->fsops[o.idx];
    *o.rec = (sim_fsop){(uint32_t)kind, inode, arg, 0, cnt(), (uint32_t)t_self, 0};
  }
  sim_fault *f = planned(o.idx, FK_SHORT_READ, FK_STAT_ERR);
  if (!f) f = planned(o.idx, FK_OPEN_EINTR, FK_OPEN_EINTR);
  if (!f) f = planned(o.idx, FK_BAD_SECTOR, FK_REPLACE);
  if (f) {
    if (f->kind == FK_CRASH && !(kind == OP_WRITE && f->param > 0)) crash_now(o.idx);
    if (f->kind == FK_TRUNC_FILE) {
      if (inode >= 0 && (uint64_t)f->param < M->inodes[inode].size) {
        M->inodes[inode].size = (uint64_t)f->param; M->inodes[inode].version++;
        fired(o.idx, FK_TRUNC_FILE, f->param);
      }
      return o;
    }
    if (f->kind == FK_REPLACE) {
      if (inode >= 0 && f->param >= 0 && f->param < SIM_MAX_INODES && M->inodes[f->param].used) {
        uint64_t n = M->inodes[f->param].size;
        memcpy(sim_file_data(inode), sim_file_data((int)f->param), n);
        M->inodes[inode].size = n; M->inodes[inode].version++;
        fired(o.idx, FK_REPLACE, f->param);
      }
      return o;
    }
    if (f->kind == FK_BAD_SECTOR) {
      if (inode >= 0 && f->param >= 0) { bad_from[inode] = 1 + (uint64_t)f->param; fired(o.idx, FK_BAD_SECTOR, f->param); }
      return o;
    }
    int k = (int)f->kind, ok = 0;
    switch (kind) {
      case OP_OPEN: ok = k == FK_OPEN_ERR || k == FK_OPEN_EINTR; break;
      case OP_READ: ok = k >= FK_SHORT_READ && k <= FK_EIO_READ_STICKY; break;
      case OP_WRITE: ok = (k >= FK_SHORT_WRITE && k <= FK_EIO_WRITE_STICKY) || k == FK_CRASH; break;
      case OP_MKDIR: ok = k == FK_MKDIR_ERR; break;
      case OP_STAT: ok = k == FK_STAT_ERR; break;
    }
    if (ok) { o.kind = k; o.param = f->param; }
    return o;
  }
  if (!M->cfg.replay) {
    if (kind == OP_READ && arg > 0) {
      if (M->cfg.eintr_read_pm && rndn(S.rng_f, 1000) < M->cfg.eintr_read_pm) o.kind = FK_EINTR_READ;
      else if (M->cfg.short_read_pm && rndn(S.rng_f, 1000) < M->cfg.short_read_pm) {
        o.kind = FK_SHORT_READ;
        o.param = rndn(S.rng_f, 2) ? 1 + (int64_t)rndn(S.rng_f, 8) : 1 + (int64_t)rndn(S.rng_f, (uint64_t)arg);
      }
    } else if (kind == OP_WRITE && arg > 0) {
      if (M->cfg.eintr_write_pm && rndn(S.rng_f, 1000) < M->cfg.eintr_write_pm) o.kind = FK_EINTR_WRITE;
      else if (M->cfg.short_write_pm && rndn(S.rng_f, 1000) < M->cfg.short_write_pm) {
        o.kind = FK_SHORT_WRITE;
        o.param = rndn(S.rng_f, 2) ? 1 + (int64_t)rndn(S.rng_f, 8) : 1 + (int64_t)rndn(S.rng_f, (uint64_t)arg);
      }
    }
  }
  return o;
}
static long op_end(opctx *o, long r) {
  if (o->rec) o->rec->result = r;
  mix(&S.trace, (uint64_t)r);
  if (r < 0) { errno = (int)-r; return -1; }
  return r;
}

static int sim_open(const char *path, int flags) {
  char np[SIM_PATH_CAP];
  if (!norm(path, np)) {
    M->st.foreign_opens++;
    mix(&S.trace, 0xf0);
    errno = ENOENT;
    return -1;
  }
  int i = fs_open_find(np);
  int acc = flags & O_ACCMODE;
  opctx o = op_begin(OP_OPEN, i, flags);
  if (o.kind == FK_OPEN_ERR) { fired(o.idx, FK_OPEN_ERR, o.param); return (int)op_end(&o, -o.param); }
  if (o.kind == FK_OPEN_EINTR) { fired(o.idx, FK_OPEN_EINTR, 0); return (int)op_end(&o, -EINTR); }
  if (i < 0) {
    if (!(flags & O_CREAT)) return (int)op_end(&o, -ENOENT);
    int e = parent_ok(np);
    if (e) return (int)op_end(&o, -e);
    i = inode_new(np, 0);
    if (i < 0) { fnote("too many files"); finish(OUT_HARNESS, 1); }
    M->inodes[i].created = 1; M->inodes[i].version = 1;
    if (o.rec) { o.rec->inode = i; o.rec->flags |= 1; }
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) return (int)op_end(&o, -EEXIST);
    if (M->inodes[i].is_dir && acc != O_RDONLY) return (int)op_end(&o, -EISDIR);
    if ((flags & O_DIRECTORY) && !M->inodes[i].is_dir) return (int)op_end(&o, -ENOTDIR);
    if ((flags & O_TRUNC) && acc != O_RDONLY) {
      if (M->inodes[i].size) M->inodes[i].version++;
      M->inodes[i].size = 0; M->inodes[i].synced = 0; M->inodes[i].version++;
    }
  }
  if (acc != O_RDONLY) M->inodes[i].opens_w++;
  for (int k = 0; k < MAXFD; k++)
    if (!F[k].used) {
      F[k].used = 1; F[k].inode = i; F[k].flags = flags; F[k].pos = 0;
      return (int)op_end(&o, SIMFD + k);
    }
  return (int)op_end(&o, -EMFILE);
}
int sim_open_files(void) { int n = 0; for (int k = 0; k < MAXFD; k++) n += F[k].used; return n; }
static int isfd(int fd) { return fd >= SIMFD && fd < SIMFD + MAXFD && F[fd - SIMFD].used; }

static long sim_read(int fd, void *buf, size_t n, int64_t off) {
  if (fd == 0) return 0;
  if (!isfd(fd)) { errno = EBADF; return -1; }
  int k = fd - SIMFD, i = F[k].inode;
  opctx o = op_begin(OP_READ, i, (int64_t)n);
  if (M->inodes[i].is_dir) return op_end(&o, -EISDIR);
  if ((F[k].flags & O_ACCMODE) == O_WRONLY) return op_end(&o, -EBADF);
  if (M->inodes[i].sticky_eio & 1) return op_end(&o, -EIO);
  if (o.kind == FK_EINTR_READ) { fired(o.idx, FK_EINTR_READ, 0); return op_end(&o, -EINTR); }
  if (o.kind == FK_EIO_READ) { fired(o.idx, FK_EIO_READ, 0); return op_end(&o, -EIO); }
  if (o.kind == FK_EIO_READ_STICKY) { fired(o.idx, FK_EIO_READ_STICKY, 0); M->inodes[i].sticky_eio |= 1; return op_end(&o, -EIO); }
  uint64_t pos = off >= 0 ? (uint64_t)off : F[k].pos, sz = M->inodes[i].size;
  uint64_t m = pos < sz ? sz - pos : 0;
  if (m > n) m = n;
  if (bad_from[i] && n > 0) {
    uint64_t bad = bad_from[i] - 1;
    if (pos >= bad) return op_end(&o, -EIO);
    if (pos + m > bad) m = bad - pos;
  }
  if (o.kind == FK_SHORT_READ && m > 1) {
    uint64_t lim = (uint64_t)(o.param < 1 ? 1 : o.param);
    if (lim < m) { m = lim; fired(o.idx, FK_SHORT_READ, o.param); }
  }
  memcpy(buf, sim_file_data(i) + pos, m);
  if (off < 0) F[k].pos = pos + m;
  return op_end(&o, (long)m);
}
static uint64_t disk_used(void) {
  uint64_t s = 0;
  for (int i = 0; i < SIM_MAX_INODES; i++) if (M->inodes[i].used && !M->inodes[i].is_dir) s += M->inodes[i].size;
  return s;
}
static long sim_write(int fd, const void *buf, size_t n, int64_t off) {
  if (fd == 1 || fd == 2) {
    char *b = fd == 2 ? M->err : M->out;
    uint64_t *l = fd == 2 ? &M->st.stderr_len : &M->st.stdout_len;
    uint64_t m = n;
    if (*l + m > SIM_MAX_STDERR) m = SIM_MAX_STDERR - *l;
    memcpy(b + *l, buf, m); *l += m;
    point(30);
    return (long)n;
  }
  if (!isfd(fd)) { errno = EBADF; return -1; }
  int k = fd - SIMFD, i = F[k].inode;
  opctx o = op_begin(OP_WRITE, i, (int64_t)n);
  if ((F[k].flags & O_ACCMODE) == O_RDONLY) return op_end(&o, -EBADF);
  if (M->inodes[i].sticky_eio & 2) return op_end(&o, -EIO);
  if (S.disk_full && n) return op_end(&o, -ENOSPC);
  switch (o.kind) {
    case FK_EINTR_WRITE: fired(o.idx, FK_EINTR_WRITE, 0); return op_end(&o, -EINTR);
    case FK_ENOSPC_ONCE: fired(o.idx, FK_ENOSPC_ONCE, 0); return op_end(&o, -ENOSPC);
    case FK_ENOSPC_WRITE: fired(o.idx, FK_ENOSPC_WRITE, 0); S.disk_full = 1; return op_end(&o, -ENOSPC);
    case FK_EIO_WRITE: fired(o.idx, FK_EIO_WRITE, 0); return op_end(&o, -EIO);
    case FK_EIO_WRITE_STICKY: fired(o.idx, FK_EIO_WRITE_STICKY, 0); M->inodes[i].sticky_eio |= 2; return op_end(&o, -EIO);
  }
  uint64_t m = n;
  if (o.kind == FK_SHORT_WRITE && m > 1) {
    uint64_t lim = (uint64_t)(o.param < 1 ? 1 : o.param);
    if (lim < m) { m = lim; fired(o.idx, FK_SHORT_WRITE, o.param); }
  }
  int torn = 0;
  if (o.kind == FK_CRASH) { torn = 1; if ((uint64_t)o.param < m) m = (uint64_t)o.param; }
  uint64_t pos = off >= 0 ? (uint64_t)off : (F[k].flags & O_APPEND) ? M->inodes[i].size : F[k].pos;
  if (M->cfg.capacity) {
    uint64_t grow = pos + m > M->inodes[i].size ? pos + m - M->inodes[i].size : 0, used = disk_used();
    if (used + grow > M->cfg.capacity) {
      uint64_t room = used < M->cfg.capacity ? M->cfg.capacity - used : 0;
      M->st.fired[FK_ENOSPC_WRITE]++;
      if (!room && m) return op_end(&o, -ENOSPC);
      m = m - (grow - room);
    }
  }
  if (pos + m > SIM_FILE_CAP) { fnote("simulated file too large"); finish(OUT_HARNESS, 1); }
  if (pos > M->inodes[i].size) memset(sim_file_data(i) + M->inodes[i].size, 0, pos - M->inodes[i].size);
  memcpy(sim_file_data(i) + pos, buf, m);
  if (pos + m > M->inodes[i].size) M->inodes[i].size = pos + m;
  if (pos < M->inodes[i].synced) M->inodes[i].synced = pos;
  if (m) M->inodes[i].version++;
  if (torn) { M->st.fired[FK_TORN_CRASH]++; crash_now(o.idx); }
  if (off < 0) F[k].pos = pos + m;
  uint64_t h = 0; for (uint64_t z = 0; z < m; z++) h = h * 31 + ((const uint8_t *)buf)[z];
  mix(&S.trace, h);
  return op_end(&o, (long)m);
}

static void fill_stat(int i, struct stat *st) {
  memset(st, 0, sizeof *st);
  st->st_dev = 77; st->st_ino = (ino_t)(100 + i); st->st_nlink = 1; st->st_blksize = 4096;
  st->st_mode = M->inodes[i].is_dir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
  st->st_size = (off_t)M->inodes[i].size; st->st_blocks = (st->st_size + 511) / 512;
  st->st_mtim.tv_sec = 1700000000 + (time_t)M->inodes[i].version;
}
static int sim_stat_common(const char *path, int fd, struct stat *st) {
  char np[SIM_PATH_CAP]; int i;
  if (path) {
    if (!norm(path, np)) { M->st.foreign_opens++; errno = ENOENT; return -1; }
    i = fs_open_find(np);
  } else if (fd >= 0 && fd <= 2) {
    memset(st, 0, sizeof *st); st->st_mode = S_IFCHR | 0620; return 0;
  } else {
    if (!isfd(fd)) { errno = EBADF; return -1; }
    i = F[fd - SIMFD].inode;
  }
  opctx o = op_begin(OP_STAT, i, 0);
  if (o.kind == FK_STAT_ERR) { fired(o.idx, FK_STAT_ERR, o.param); return (int)op_end(&o, -o.param); }
  if (i < 0) return (int)op_end(&o, -ENOENT);
  fill_stat(i, st);
  return (int)op_end(&o, 0);
}

int open(const char *p, int flags, ...) {
  mode_t m = 0;
  if (flags & O_CREAT) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
  if (!sim_active()) return (int)ret_errno(RAW(SYS_openat, AT_FDCWD, p, flags, m, 0, 0));
  return sim_open(p, flags);
}
int open64(const char *p, int flags, ...) {
  mode_t m = 0;
  if (flags & O_CREAT) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
  if (!sim_active()) return (int)ret_errno(RAW(SYS_openat, AT_FDCWD, p, flags, m, 0, 0));
  return sim_open(p, flags);
}
int openat(int d, const char *p, int flags, ...) {
  mode_t m = 0;
  if (flags & O_CREAT) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
  if (!sim_active()) return (int)ret_errno(RAW(SYS_openat, d, p, flags, m, 0, 0));
  if (d != AT_FDCWD && p[0] != '/') { errno = ENOSYS; return -1; }
  return sim_open(p, flags);
}
int openat64(int d, const char *p, int flags, ...) {
  mode_t m = 0;
  if (flags & O_CREAT) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
  if (!sim_active()) return (int)ret_errno(RAW(SYS_openat, d, p, flags, m, 0, 0));
  if (d != AT_FDCWD && p[0] != '/') { errno = ENOSYS; return -1; }
  return sim_open(p, flags);
}
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd) {
  if (!sim_active() || !isfd(fd)) {
    if (sim_active()) { errno = EBADF; return fd <= 2 ? 0 : -1; }
    return (int)ret_errno(RAW(SYS_close, fd, 0, 0, 0, 0, 0));
  }
  opctx o = op_begin(OP_CLOSE, F[fd - SIMFD].inode, 0);
  F[fd - SIMFD].used = 0;
  return (int)op_end(&o, 0);
}
ssize_t read(int fd, void *b, size_t n) {
  if (!sim_active()) return ret_errno(RAW(SYS_read, fd, b, n, 0, 0, 0));
  return sim_read(fd, b, n, -1);
}
ssize_t write(int fd, const void *b, size_t n) {
  if (!sim_active()) return ret_errno(RAW(SYS_write, fd, b, n, 0, 0, 0));
  return sim_write(fd, b, n, -1);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
  if (!sim_active()) return ret_errno(RAW(SYS_pread64, fd, b, n, o, 0, 0));
  return sim_read(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  if (!sim_active()) return ret_errno(RAW(SYS_pwrite64, fd, b, n, o, 0, 0));
  return sim_write(fd, b, n, o);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec *v, int c) {
  if (!sim_active()) return ret_errno(RAW(SYS_readv, fd, v, c, 0, 0, 0));
  for (int i = 0; i < c; i++) if (v[i].iov_len) return sim_read(fd, v[i].iov_base, v[i].iov_len, -1);
  return 0;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!sim_active()) return ret_errno(RAW(SYS_writev, fd, v, c, 0, 0, 0));
  ssize_t t = 0;
  if (fd == 1 || fd == 2) {
    for (int i = 0; i < c; i++) t += sim_write(fd, v[i].iov_base, v[i].iov_len, -1);
    return t;
  }
  for (int i = 0; i < c; i++) if (v[i].iov_len) return sim_write(fd, v[i].iov_base, v[i].iov_len, -1);
  return 0;
}
off64_t lseek64(int fd, off64_t off, int wh) {
  if (!sim_active()) return ret_errno(RAW(SYS_lseek, fd, off, wh, 0, 0, 0));
  if (!isfd(fd)) { errno = fd <= 2 ? ESPIPE : EBADF; return -1; }
  int k = fd - SIMFD;
  opctx o = op_begin(OP_LSEEK, F[k].inode, off);
  int64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)F[k].pos : (int64_t)M->inodes[F[k].inode].size;
  if (b + off < 0) return op_end(&o, -EINVAL);
  F[k].pos = (uint64_t)(b + off);
  return op_end(&o, (long)F[k].pos);
}
off_t lseek(int fd, off_t off, int wh) { return lseek64(fd, off, wh); }

#define STATBODY(raw) if (!sim_active()) return (int)ret_errno(raw)
int fstat(int fd, struct stat *st) { STATBODY(RAW(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH, 0, 0)); return sim_stat_common(NULL, fd, st); }
int fstat64(int fd, struct stat64 *st) { STATBODY(RAW(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH, 0, 0)); return sim_stat_common(NULL, fd, (struct stat *)st); }
int stat(const char *p, struct stat *st) { STATBODY(RAW(SYS_newfstatat, AT_FDCWD, p, st, 0, 0, 0)); return sim_stat_common(p, -1, st); }
int stat64(const char *p, struct stat64 *st) { STATBODY(RAW(SYS_newfstatat, AT_FDCWD, p, st, 0, 0, 0)); return sim_stat_common(p, -1, (struct stat *)st); }
int lstat(const char *p, struct stat *st) { STATBODY(RAW(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW, 0, 0)); return sim_stat_common(p, -1, st); }
int lstat64(const char *p, struct stat64 *st) { STATBODY(RAW(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW, 0, 0)); return sim_stat_common(p, -1, (struct stat *)st); }
int fstatat64(int d, const char *p, struct stat64 *st, int fl) {
  STATBODY(RAW(SYS_newfstatat, d, p, st, fl, 0, 0));
  return sim_stat_common(p[0] ? p : NULL, d, (struct stat *)st);
}
static int sim_statx(int d, const char *p, int fl, unsigned mask, struct statx *x) {
  struct stat st; (void)fl; (void)mask;
  if (!x || !p) { errno = EFAULT; return -1; } /* std probes statx with null pointers */
  int r = sim_stat_common(p[0] ? p : NULL, d, &st);
  if (r) return r;
  memset(x, 0, sizeof *x);
  x->stx_mask = STATX_BASIC_STATS; x->stx_blksize = 4096; x->stx_nlink = 1; x->stx_mode = (uint16_t)st.st_mode;
  x->stx_ino = st.st_ino; x->stx_size = (uint64_t)st.st_size; x->stx_blocks = (uint64_t)st.st_blocks;
  x->stx_dev_major = 0; x->stx_dev_minor = 77; x->stx_mtime.tv_sec = st.st_mtim.tv_sec;
  return 0;
}
int statx(int d, const char *restrict p, int fl, unsigned mask, struct statx *restrict x) {
  if (!sim_active()) return (int)ret_errno(RAW(SYS_statx, d, p, fl, mask, x, 0));
  return sim_statx(d, p, fl, mask, x);
}
int access(const char *p, int mode) {
  if (!sim_active()) return (int)ret_errno(RAW(SYS_faccessat, AT_FDCWD, p, mode, 0, 0, 0));
  struct stat st; return sim_stat_common(p, -1, &st);
}
int mkdir(const char *p, mode_t m) {
  if (!sim_active()) return (int)ret_errno(RAW(SYS_mkdirat, AT_FDCWD, p, m, 0, 0, 0));
  char np[SIM_PATH_CAP];
  if (!norm(p, np)) { M->st.foreign_opens++; errno = EACCES; return -1; }
  opctx o = op_begin(OP_MKDIR, -1, 0);
  if (o.kind == FK_MKDIR_ERR) { fired(o.idx, FK_MKDIR_ERR, o.param); return (int)op_end(&o, -o.param); }
  if (sim_fs_find(np) >= 0) return (int)op_end(&o, -EEXIST);
  int e = parent_ok(np);
  if (e) return (int)op_end(&o, -e);
  inode_new(np, 1);
  return (int)op_end(&o, 0);
}
int unlink(const char *p) {
  if (!sim_active()) return (int)ret_errno(RAW(SYS_unlinkat, AT_FDCWD, p, 0, 0, 0, 0));
  char np[SIM_PATH_CAP];
  if (!norm(p, np)) { M->st.foreign_opens++; errno = EACCES; return -1; }
  int i = sim_fs_find(np);
  opctx o = op_begin(OP_UNLINK, i, 0);
  if (i < 0) return (int)op_end(&o, -ENOENT);
  if (M->inodes[i].is_dir == 1) return (int)op_end(&o, -EISDIR);
  M->inodes[i].path[0] = 0; M->inodes[i].version++;
  return (int)op_end(&o, 0);
}
int rmdir(const char *p) {
  if (!sim_active()) return (int)ret_errno(RAW(SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR, 0, 0, 0));
  errno = EACCES; return -1;
}
int rename(const char *a, const char *b) {
  if (!sim_active()) return (int)ret_errno(RAW(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0, 0));
  char na[SIM_PATH_CAP], nb[SIM_PATH_CAP];
  if (!norm(a, na) || !norm(b, nb)) { M->st.foreign_opens++; errno = EACCES; return -1; }
  int i = sim_fs_find(na), j = sim_fs_find(nb);
  opctx o = op_begin(OP_RENAME, i, 0);
  if (i < 0) return (int)op_end(&o, -ENOENT);
  if (i == j) return (int)op_end(&o, 0);
  int e = parent_ok(nb);
  if (e) return (int)op_end(&o, -e);
  if (j >= 0) { if (M->inodes[j].is_dir == 1) return (int)op_end(&o, -EISDIR); M->inodes[j].path[0] = 0; M->inodes[j].version++; }
  strcpy(M->inodes[i].path, nb);
  return (int)op_end(&o, 0);
}
static int sim_sync(int fd) {
  if (!isfd(fd)) { errno = EINVAL; return -1; }
  int i = F[fd - SIMFD].inode;
  opctx o = op_begin(OP_FSYNC, i, 0);
  if (M->inodes[i].sticky_eio & 2) return (int)op_end(&o, -EIO);
  M->inodes[i].synced = M->inodes[i].size;
  return (int)op_end(&o, 0);
}
int fsync(int fd) { if (!sim_active()) return (int)ret_errno(RAW(SYS_fsync, fd, 0, 0, 0, 0, 0)); return sim_sync(fd); }
int fdatasync(int fd) { if (!sim_active()) return (int)ret_errno(RAW(SYS_fdatasync, fd, 0, 0, 0, 0, 0)); return sim_sync(fd); }
int ftruncate64(int fd, off64_t n) {
  if (!sim_active()) return (int)ret_errno(RAW(SYS_ftruncate, fd, n, 0, 0, 0, 0));
  if (!isfd(fd)) { errno = EBADF; return -1; }
  int i = F[fd - SIMFD].inode;
  opctx o = op_begin(OP_TRUNC, i, n);
  if (n > SIM_FILE_CAP) return (int)op_end(&o, -EFBIG);
  if ((uint64_t)n > M->inodes[i].size) memset(sim_file_data(i) + M->inodes[i].size, 0, (uint64_t)n - M->inodes[i].size);
  M->inodes[i].size = (uint64_t)n; M->inodes[i].version++;
  return (int)op_end(&o, 0);
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
char *realpath(const char *restrict p, char *restrict out) {
  static char *(*real)(const char *, char *);
  if (!sim_active()) { if (!real) real = dlsym(RTLD_NEXT, "realpath"); return real(p, out); }
  char np[SIM_PATH_CAP];
  if (!norm(p, np) || sim_fs_find(np) < 0) { errno = ENOENT; return NULL; }
  if (!out) out = malloc(PATH_MAX);
  strcpy(out, np);
  return out;
}
char *getcwd(char *b, size_t n) {
  if (!sim_active()) { long r = RAW(SYS_getcwd, b, n, 0, 0, 0, 0); if (r < 0) { errno = (int)-r; return NULL; } return b; }
  if (n < 12) { errno = ERANGE; return NULL; }
  strcpy(b, "/simfs/cwd");
  return b;
}
ssize_t readlink(const char *p, char *b, size_t n) {
  if (!sim_active()) return ret_errno(RAW(SYS_readlinkat, AT_FDCWD, p, b, n, 0, 0));
  errno = EINVAL; return -1;
}
int isatty(int fd) {
  if (!sim_active()) { struct { int x[32]; } t; return RAW(SYS_ioctl, fd, 0x5401, &t, 0, 0, 0) == 0; }
  if (fd == 2 && M->cfg.tty) return 1;
  errno = ENOTTY;
  return 0;
}
int ioctl(int fd, unsigned long req, ...) {
  va_list a; va_start(a, req); void *p = va_arg(a, void *); va_end(a);
  if (!sim_active()) return (int)ret_errno(RAW(SYS_ioctl, fd, req, p, 0, 0, 0));
  if (fd == 2 && M->cfg.tty && req == TIOCGWINSZ) { struct winsize w = {24, 80, 0, 0}; memcpy(p, &w, sizeof w); return 0; }
  errno = ENOTTY;
  return -1;
}
int fcntl(int fd, int cmd, ...) {
  va_list a; va_start(a, cmd); long p = va_arg(a, long); va_end(a);
  if (!sim_active() || fd < SIMFD) return (int)ret_errno(RAW(SYS_fcntl, fd, cmd, p, 0, 0, 0));
  if (!isfd(fd)) { errno = EBADF; return -1; }
  if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) {
    for (int k = 0; k < MAXFD; k++) if (!F[k].used) { F[k] = F[fd - SIMFD]; return SIMFD + k; }
    errno = EMFILE; return -1;
  }
  if (cmd == F_GETFL) return F[fd - SIMFD].flags;
  return 0;
}
int fcntl64(int fd, int cmd, ...) {
  va_list a; va_start(a, cmd); long p = va_arg(a, long); va_end(a);
  return fcntl(fd, cmd, p);
}
int poll(struct pollfd *f, nfds_t n, int to) {
  if (!sim_active()) return (int)ret_errno(RAW(SYS_poll, f, n, to, 0, 0, 0));
  if (to > 0) sleep_until(sim_now() + (uint64_t)to * 1000000ull);
  return 0;
}
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) {
  if (!sim_active()) return ret_errno(RAW(SYS_copy_file_range, a, b, c, d, e, f));
  errno = EXDEV; return -1;
}
ssize_t sendfile64(int a, int b, off64_t *c, size_t d) {
  if (!sim_active()) return ret_errno(RAW(SYS_sendfile, a, b, c, d, 0, 0));
  errno = EINVAL; return -1;
}
int chmod(const char *p, mode_t m) { if (!sim_active()) return (int)ret_errno(RAW(SYS_fchmodat, AT_FDCWD, p, m, 0, 0, 0)); return 0; }
int fchmod(int fd, mode_t m) { if (!sim_active()) return (int)ret_errno(RAW(SYS_fchmod, fd, m, 0, 0, 0, 0)); return 0; }
int link(const char *a, const char *b) { if (!sim_active()) return (int)ret_errno(RAW(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0, 0)); errno = EPERM; return -1; }
int symlink(const char *a, const char *b) { if (!sim_active()) return (int)ret_errno(RAW(SYS_symlinkat, a, AT_FDCWD, b, 0, 0, 0)); errno = EPERM; return -1; }
int flock(int fd, int op) { if (!sim_active()) return (int)ret_errno(RAW(SYS_flock, fd, op, 0, 0, 0, 0)); return 0; }

long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (!sim_active()) return ret_errno(raw6(n, a, b, c, d, e, f));
  switch (n) {
    case SYS_futex: return sim_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t *)e, (uint32_t)f);
    case SYS_getrandom: return getrandom((void *)a, (size_t)b, (unsigned)c);
    case SYS_statx: return sim_statx((int)a, (const char *)b, (int)c, (unsigned)d, (struct statx *)e);
    case SYS_copy_file_range: errno = EXDEV; return -1;
    case SYS_gettid: return pid_sim() + 758 + t_self;
    case SYS_getpid: return pid_sim();
    case SYS_sched_getaffinity: return sched_getaffinity((pid_t)a, (size_t)b, (cpu_set_t *)c) ? -1 : 8;
    case SYS_openat: return openat((int)a, (const char *)b, (int)c, (mode_t)d);
    case SYS_membarrier: case SYS_gettimeofday: case SYS_prctl: return ret_errno(raw6(n, a, b, c, d, e, f));
  }
  M->st.foreign_opens++;
  return ret_errno(raw6(n, a, b, c, d, e, f));
}

void exit(int code) {
  static void (*real)(int) __attribute__((noreturn));
  if (sim_active()) { finish(OUT_EXIT, code); }
  if (!real) real = dlsym(RTLD_NEXT, "exit");
  real(code);
  __builtin_unreachable();
}
void _exit(int code) {
  if (sim_active()) finish(OUT_EXIT, code);
  RAW(SYS_exit_group, code, 0, 0, 0, 0, 0);
  __builtin_unreachable();
}
void abort(void) {
  if (sim_active()) finish(OUT_ABORT, 0);
  signal(SIGABRT, SIG_DFL);
  RAW(SYS_kill, RAW(SYS_getpid, 0, 0, 0, 0, 0, 0), SIGABRT, 0, 0, 0, 0);
  RAW(SYS_exit_group, 134, 0, 0, 0, 0, 0);
  __builtin_unreachable();
}

/* ------------------------------------------------------------------ */
/* deterministic heap of a phase                                       */
static uint8_t *heap_top, *heap_end; /* free between them; grows from either end, depending on the configuration */
static int heap_down;
static void *freel[128];
static int cls(size_t n, size_t *sz) {
  if (n <= 1024) { size_t k = (n + 15) / 16; if (!k) k = 1; *sz = k * 16; return (int)k; }
  int b = 64 - __builtin_clzl(n - 1);
  *sz = 1ul << b;
  return 65 + b;
}
int sim_in_arena(void *p) { return (uint8_t *)p >= ARENA_ADDR && (uint8_t *)p < ARENA_ADDR + ARENA_SIZE; }
void *sim_alloc(size_t n, size_t al) {
  size_t sz; int c;
  if (al > 16 && n < al) n = al;
  c = cls(n, &sz);
  if (al <= 16 && freel[c]) { void *p = freel[c]; freel[c] = *(void **)p; return p; }
  uint8_t *p = heap_top;
  if (heap_down) {
    if (sz > (size_t)(heap_end - heap_top)) return NULL;
    p = heap_end - sz;
    if (al > 16) p = (uint8_t *)((uintptr_t)p & ~(uintptr_t)(al - 1));
    if (p < heap_top) return NULL;
    heap_end = p;
    return p;
  }
  if (al > 16) p = (uint8_t *)(((uintptr_t)p + al - 1) & ~(uintptr_t)(al - 1));
  if (p + sz > heap_end) return NULL;
  heap_top = p + sz;
  return p;
}
void sim_free(void *p, size_t n, size_t al) {
  if (!sim_in_arena(p)) return;
  size_t sz; if (al > 16) return;
  int c = cls(n, &sz);
  *(void **)p = freel[c]; freel[c] = p;
}
void *sim_realloc(void *p, size_t old, size_t al, size_t n) {
  if (sim_in_arena(p) && al <= 16) { size_t a, b; if (cls(old, &a) == cls(n, &b)) return p; }
  void *q = sim_alloc(n, al);
  if (q) { memcpy(q, p, old < n ? old : n); sim_free(p, old, al); }
  return q;
}

/* ------------------------------------------------------------------ */
/* process set-up                                                      */
static char **g_argv; static int g_argc;
#define PAD_ARGS 192
static char argstore[65536];
void sim_set_args(int n, const char *const *args) {
  size_t o = 0;
  for (int i = 0; i < n && i < g_argc; i++) {
    size_t l = strlen(args[i]) + 1;
    if (o + l > sizeof argstore) break;
    memcpy(argstore + o, args[i], l);
    g_argv[i] = argstore + o; o += l;
  }
  if (n < g_argc) g_argv[n] = NULL;
}
extern char **environ;
static void early(int argc, char **argv, char **envp) {
  (void)envp;
  if (!getenv("SIMRT_READY")) {
    RAW(SYS_personality, ADDR_NO_RANDOMIZE, 0, 0, 0, 0, 0);
    static char *nargv[PAD_ARGS + 2];
    static char joined[16384] = "SIM_ARGS=", cpu[64] = "SIM_CPU=";
    size_t o = strlen(joined);
    for (int i = 1; i < argc; i++) {
      size_t l = strlen(argv[i]);
      if (o + l + 2 >= sizeof joined) break;
      memcpy(joined + o, argv[i], l); o += l; joined[o++] = '\x1f';
    }
    joined[o] = 0;
    const char *c = getenv("SIM_CPU");
    if (c) strncat(cpu, c, 32);
    for (int i = 0; i < PAD_ARGS; i++) nargv[i] = i ? "pad" : argv[0];
    static char *nenv[] = {"SIMRT_READY=1", joined, cpu, NULL};
    RAW(SYS_execve, "/proc/self/exe", nargv, nenv, 0, 0, 0);
    /* fall through if exec failed */
  }
  const char *c = getenv("SIM_CPU");
  if (c && *c) {
    cpu_set_t have, set; CPU_ZERO(&have); CPU_ZERO(&set);
    RAW(SYS_sched_getaffinity, 0, sizeof have, &have, 0, 0, 0);
    int want = atoi(c), n = CPU_COUNT(&have), k = 0;
    if (n > 0) {
      want %= n;
      for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &have)) { if (k == want) { CPU_SET(i, &set); break; } k++; }
      RAW(SYS_sched_setaffinity, 0, sizeof set, &set, 0, 0, 0);
    }
  }
  g_argc = argc; g_argv = argv;
  M = mmap(SHM_ADDR, sizeof(sim_shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void *fs = mmap(FS_ADDR, (size_t)SIM_MAX_INODES * SIM_FILE_CAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void *ar = mmap(ARENA_ADDR, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void *sk = mmap(STACK_ADDR, STACK_SIZE * SIM_MAX_THREADS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (M != SHM_ADDR || fs != FS_ADDR || ar != ARENA_ADDR || sk != STACK_ADDR) {
    static const char m[] = "simrt: cannot map address space\n";
    RAW(SYS_write, 2, m, sizeof m - 1, 0, 0, 0);
    RAW(SYS_exit_group, 97, 0, 0, 0, 0, 0);
  }
  heap_top = ARENA_ADDR + 4096; heap_end = ARENA_ADDR + ARENA_SIZE;
  real_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
  real_pthread_join = dlsym(RTLD_NEXT, "pthread_join");
  pthread_key_create(&exit_key, thread_end);
}
__attribute__((section(".init_array"), used)) static void (*early_ptr)(int, char **, char **) = early;
sim_shm *sim_get(void) { return M; }

static void *phase_main(void *p) {
  (void)p;
  S.fn(S.arg);
  finish(OUT_RETURNED, 0);
  return NULL;
}

/* run one process of the system under test; statistics are left in shm */
int sim_phase(void (*fn)(void *), void *arg) {
  memset(&M->st, 0, sizeof M->st);
  memset(bad_from, 0, sizeof bad_from);
  for (int i = 0; i < SIM_MAX_INODES; i++) { M->inodes[i].sticky_eio = 0; M->inodes[i].created = 0; M->inodes[i].opens_w = 0; M->inodes[i].version = 0; }
  int pid = fork();
  if (pid < 0) return -1;
  if (pid == 0) {
    RAW(SYS_prctl, 1 /*PR_SET_PDEATHSIG*/, SIGKILL, 0, 0, 0, 0);
    struct rlimit rl = {120, 125};
    setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
    memset(&S, 0, sizeof S);
    memset(F, 0, sizeof F);
    memset(hotg, 0, sizeof(hotg[0]) * nguards);
    uint64_t x = M->cfg.seed * 0x9e3779b97f4a7c15ull + 12345;
    S.rng_s[0] = sm64(&x); S.rng_s[1] = sm64(&x) | 1;
    S.rng_f[0] = sm64(&x); S.rng_f[1] = sm64(&x) | 1;
    S.rng_o[0] = sm64(&x); S.rng_o[1] = sm64(&x) | 1;
    S.pct_next_low = 1ull << 40;
    S.hot_left = M->cfg.hot_budget;
    heap_top += (sm64(&x) & 0xfff) * 16; heap_down = sm64(&x) & 1;
    S.fn = fn; S.arg = arg;
    S.next_stop = 1; S.countdown = 1;
    S.fair_at = FAIR;
    if (M->cfg.policy == 1) {
      S.pct_n = M->cfg.pct_depth > 60 ? 60 : M->cfg.pct_depth;
      for (uint32_t i = 0; i < S.pct_n; i++) S.pct_points[i] = 1 + rndn(S.rng_s, M->cfg.pct_len ? M->cfg.pct_len : 100000);
      for (uint32_t i = 1; i < S.pct_n; i++)
        for (uint32_t j = i; j > 0 && S.pct_points[j - 1] > S.pct_points[j]; j--) { uint64_t t = S.pct_points[j]; S.pct_points[j] = S.pct_points[j - 1]; S.pct_points[j - 1] = t; }
    }
    next_preempt();
    set_stop();
    pthread_t pt;
    if (spawn(&pt, phase_main, NULL)) { M->st.outcome = OUT_HARNESS; RAW(SYS_exit_group, 0, 0, 0, 0, 0, 0); }
    S.active = 1;
    give_baton(0);
    for (;;) RAW(SYS_pause, 0, 0, 0, 0, 0, 0);
  }
  int status = 0;
  int pfd = (int)RAW(SYS_pidfd_open, pid, 0, 0, 0, 0, 0);
  int killed = 0;
  if (pfd >= 0) {
    struct pollfd p = {pfd, POLLIN, 0};
    long r;
    do { r = RAW(SYS_poll, &p, 1, 300000, 0, 0, 0); } while (r == -EINTR);
    if (r == 0) { RAW(SYS_kill, pid, SIGKILL, 0, 0, 0, 0); killed = 1; }
    RAW(SYS_close, pfd, 0, 0, 0, 0, 0);
  }
  long w;
  do { w = RAW(SYS_wait4, pid, &status, 0, 0, 0, 0); } while (w == -EINTR);
  if (killed) { M->st.outcome = OUT_HARNESS; fnote("phase hung outside the simulator"); }
  else if (WIFSIGNALED(status)) {
    M->st.signal = WTERMSIG(status);
    M->st.outcome = WTERMSIG(status) == SIGXCPU ? OUT_CPULIMIT : OUT_SIGNAL;
  } else if (M->st.outcome == OUT_NONE) { M->st.outcome = OUT_HARNESS; fnote("phase ended without a verdict"); }
  return M->st.outcome;
}
void sim_init(int argc, char **argv) { (void)argc; (void)argv; }
void sim_layout(uint64_t *o) {
  o[0] = sizeof(sim_cfg); o[1] = sizeof(sim_stats); o[2] = sizeof(sim_inode); o[3] = sizeof(sim_shm);
  o[4] = offsetof(sim_shm, dec_in); o[5] = offsetof(sim_shm, fsops); o[6] = offsetof(sim_shm, events); o[7] = offsetof(sim_shm, result);
}
/* the fixed stacks are set up by us: pretend the usual guard page exists */
int pthread_attr_getguardsize(const pthread_attr_t *a, size_t *g) {
  static int (*real)(const pthread_attr_t *, size_t *);
  if (!real) real = dlsym(RTLD_NEXT, "pthread_attr_getguardsize");
  int r = real(a, g);
  if (!r && sim_active() && *g == 0) *g = 4096;
  return r;
}
