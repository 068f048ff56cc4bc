#define _GNU_SOURCE
#include "amrt.h"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stddef.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default")))
#define MAXT 4096
#define MAXFD 1024
#define NONE INT64_MAX

/* ------------------------------------------------------------------ raw system calls */
static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
#define RAW(n, ...) RAW_(n, ##__VA_ARGS__, 0, 0, 0, 0, 0, 0)
#define RAW_(n, a, b, c, d, e, f, ...) raw6((long)(n), (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))
static long ret(long r) {
  if (r < 0 && r > -4096) {
    errno = (int)-r;
    return -1;
  }
  return r;
}

/* ------------------------------------------------------------------ state */
static struct am_shm *S;
static volatile int MODE = M_OFF;
static __thread int my_tid = -1;
static __thread int busy; /* inside the runtime or a signal handler */

enum { T_FREE, T_RUN, T_FUTEX, T_JOIN, T_SLEEP, T_FD, T_DEAD, T_NEVER };
struct th {
  int state;
  uint32_t *faddr;
  uint32_t fbits;
  int64_t deadline;
  int timedout;
  int fd;
  int jt;
  uint32_t go;
  uint64_t seq;
  pthread_t pt;
  int detached;
};
static struct th T[MAXT];
static int NT;
static uint64_t seqno;
static uint64_t now_ns;
static int64_t wall_off;
static uint64_t rng;
static int sig_left, sig_seen, nreq;
static struct sigaction sig_act;
static int eof_reads;
static uint32_t stdin_pos;
static am_server_cb server_cb;
static pthread_key_t end_key;
static int have_key;

struct vsock {
  int used, fam, conn, cid;
  int nonblock, pending, soerr;
  int64_t pend_at;
  int64_t rcvtimeo;
  uint8_t *sent;
  uint32_t nsent, csent, stot;
  int answered;
  uint8_t *resp;
  uint32_t nresp, pos;
  int hang, eof_known, fail_after, fail_errno, seg;
  uint32_t split;
  uint64_t body_delay;
  int64_t ready_at, split_at;
  uint32_t cutdone, scutdone;
  int eintr_pending, seintr_pending;
  int dead; /* errno after failure */
  int trunc;
};
static struct vsock V[MAXFD];
static int fdfile[MAXFD]; /* record file id + 1 */
static int nfile, nconn, topfd;
static uint32_t sent_total;

static void die(int code) { RAW(SYS_exit_group, code); }

static void stop(int type, int code) {
  struct am_trace *t = &S->tr;
  if (t->nev < AM_MAXEV) {
    struct am_event *e = &t->ev[t->nev++];
    memset(e, 0, sizeof *e);
    e->type = (uint16_t)type;
    e->tid = (uint16_t)my_tid;
    e->t = now_ns;
  }
  t->status = (uint32_t)code;
  if (MODE == M_SCHED) die(code);
}

static void ev(int type, int a, int64_t b, const void *data, uint32_t len) {
  struct am_trace *t = &S->tr;
  if (t->nev >= AM_MAXEV - 2 || t->arena + len > AM_ARENA) {
    stop(E_HORIZON, 78);
    return;
  }
  struct am_event *e = &t->ev[t->nev++];
  e->type = (uint16_t)type;
  e->tid = (uint16_t)(my_tid < 0 ? 0 : my_tid);
  e->a = a;
  e->b = b;
  e->t = now_ns;
  e->off = t->arena;
  e->len = len;
  if (len) {
    memcpy(t->data + t->arena, data, len);
    t->arena += len;
  }
}

static int choose(int kind, int n, int nfree) {
  struct am_trace *t = &S->tr;
  if (n <= 1) return 0;
  uint32_t i = t->nchoice;
  if (i >= AM_MAXCHOICE || (S->cfg.horizon && i >= S->cfg.horizon)) {
    stop(E_HORIZON, 78);
    return 0;
  }
  int c = i < S->cfg.nprefix ? S->cfg.prefix[i] : 0;
  if (c >= n) {
    stop(E_DIVERGE, 80);
    return 0;
  }
  struct am_choice *ch = &t->choice[t->nchoice++];
  ch->kind = (uint8_t)kind;
  ch->chosen = (uint8_t)c;
  ch->n = (uint8_t)n;
  ch->nfree = (uint8_t)nfree;
  ch->ev = t->nev;
  return c;
}

/* ------------------------------------------------------------------ scheduler */
static void fwait(uint32_t *a, uint32_t v) {
  while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == v) RAW(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0);
}
static void fset(uint32_t *a) {
  __atomic_store_n(a, 1, __ATOMIC_RELEASE);
  RAW(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static int fd_ready(int fd) {
  struct pollfd p = {fd, POLLIN, 0};
  return RAW(SYS_poll, &p, 1, 0) > 0;
}
static int enabled(int i) {
  struct th *t = &T[i];
  switch (t->state) {
  case T_RUN: return 1;
  case T_JOIN: return T[t->jt].state == T_DEAD;
  case T_FD: return fd_ready(t->fd);
  default: return 0;
  }
}
static int earliest(void) {
  int best = -1;
  for (int i = 0; i < NT; i++) {
    struct th *t = &T[i];
    if ((t->state == T_SLEEP || t->state == T_FUTEX || t->state == T_FD) && t->deadline != NONE && !enabled(i))
      if (best < 0 || t->deadline < T[best].deadline || (t->deadline == T[best].deadline && t->seq < T[best].seq)) best = i;
  }
  return best;
}
static void fire(int i) {
  if ((uint64_t)T[i].deadline > now_ns) now_ns = (uint64_t)T[i].deadline;
  T[i].timedout = 1;
  T[i].state = T_RUN;
  T[i].deadline = NONE;
  ev(E_WAKE, i, 0, 0, 0);
}
static void deliver(void) {
  sig_left--;
  ev(E_SIGNAL, sig_left, 0, 0, 0);
  busy++;
  if (sig_act.sa_flags & SA_SIGINFO) {
    siginfo_t si;
    memset(&si, 0, sizeof si);
    si.si_signo = SIGINT;
    if (sig_act.sa_sigaction) sig_act.sa_sigaction(SIGINT, &si, 0);
  } else if (sig_act.sa_handler == SIG_DFL)
    die(130);
  else if (sig_act.sa_handler != SIG_IGN)
    sig_act.sa_handler(SIGINT);
  busy--;
}

/* pick the next thread and hand over; returns when this thread is scheduled again (unless dead) */
static void dispatch(int yield) {
  int me = my_tid, list[MAXT], n, cur;
  struct am_cfg *c = &S->cfg;
  for (;;) {
    n = 0;
    cur = 0;
    if (yield == 0 && enabled(me)) {
      list[n++] = me;
      cur = 1;
    }
    if (yield == 1) {
      for (int k = 1; k <= NT; k++) {
        int i = (me + k) % NT;
        if (enabled(i)) list[n++] = i;
      }
    } else
      for (int i = 0; i < NT; i++)
        if (!(cur && i == me) && enabled(i)) list[n++] = i;
    if (c->sig_at > 0 && nreq >= c->sig_at && sig_left > 0 && sig_seen) {
      deliver();
      continue;
    }
    int te = earliest();
    int sigok = (c->feat & F_SIGNAL) && sig_left > 0 && sig_seen;
    if (n == 0) {
      if (te >= 0) {
        fire(te);
        continue;
      }
      if (sigok) {
        deliver();
        continue;
      }
      stop(E_DEADLOCK, 77);
    }
    int env = 0, o_t = -1, o_s = -1;
    if ((c->feat & F_TIMERENV) && te >= 0) o_t = n + env++;
    if (sigok) o_s = n + env++;
    int k = choose(K_SCHED, n + env, cur ? 1 : (yield ? 1 : n));
    if (k == o_t && o_t >= 0) {
      fire(te);
      continue;
    }
    if (k == o_s && o_s >= 0) {
      deliver();
      continue;
    }
    int nx = list[k];
    if (nx == me) {
      T[me].state = T_RUN;
      return;
    }
    int dead = T[me].state == T_DEAD;
    T[nx].state = T_RUN;
    if (!dead) __atomic_store_n(&T[me].go, 0, __ATOMIC_RELEASE);
    fset(&T[nx].go);
    if (!dead) {
      fwait(&T[me].go, 0);
      T[me].state = T_RUN;
    }
    return;
  }
}
static int fixed_rng;
/* from now on all random numbers follow from the seed, also outside runs */
EXPORT void am_reseed(uint64_t seed) {
  fixed_rng = 1;
  rng = seed * 0x9E3779B97F4A7C15ull + 1;
  if (!rng) rng = 1;
}
static int on(void) { return MODE != M_OFF && !busy; }
static int sch(void) { return MODE == M_SCHED && !busy && my_tid >= 0; }

static void point(uint32_t kind) {
  if (!sch()) return;
  S->tr.npoint++;
  if (!(S->cfg.sched_kinds & kind)) return;
  int e = errno;
  dispatch(0);
  errno = e;
}
/* block the calling thread in a state already written to T[my_tid] */
static void block(void) {
  T[my_tid].seq = ++seqno;
  T[my_tid].timedout = 0;
  dispatch(2);
}
static int64_t add_ns(uint64_t a, int64_t b) {
  if (b == NONE || b < 0) return NONE;
  if (a > (uint64_t)(INT64_MAX - b)) return NONE;
  return (int64_t)(a + (uint64_t)b);
}
static void vsleep_until(int64_t d) {
  if (MODE == M_SCHED && my_tid >= 0) {
    if (d != NONE && (uint64_t)d <= now_ns) return;
    T[my_tid].state = d == NONE ? T_NEVER : T_SLEEP;
    T[my_tid].deadline = d;
    block();
  } else if (d != NONE) {
    if ((uint64_t)d > now_ns) now_ns = (uint64_t)d;
  } else
    S->tr.status = 81; /* would block for ever */
}

/* ------------------------------------------------------------------ begin / end */
static void reset(void) {
  struct am_cfg *c = &S->cfg;
  struct am_trace *t = &S->tr;
  t->nchoice = t->nev = t->arena = t->status = 0;
  t->natomic = t->nthread = t->npoint = 0;
  memset(t->rule_uses, 0, sizeof t->rule_uses);
  now_ns = c->mono0;
  wall_off = 0;
  rng = c->seed * 0x9E3779B97F4A7C15ull + 0x1234567;
  sig_left = c->sig_max;
  nreq = 0;
  sig_seen = 0;
  eof_reads = 0;
  stdin_pos = 0;
  nfile = nconn = 0;
  sent_total = 0;
  for (int i = 0; i < topfd; i++) {
    if (V[i].used) {
      free(V[i].sent);
      free(V[i].resp);
    }
    if (V[i].used || V[i].sent) memset(&V[i], 0, sizeof V[i]);
    fdfile[i] = 0;
  }
  topfd = 0;
}
static void usefd(int fd) {
  if (fd >= topfd) topfd = fd + 1;
}
EXPORT void am_layout(uint64_t *o, int n) {
  uint64_t v[12] = {sizeof(struct am_shm), sizeof(struct am_cfg), sizeof(struct am_trace), offsetof(struct am_cfg, prefix), offsetof(struct am_cfg, rule),
                    offsetof(struct am_cfg, host), offsetof(struct am_cfg, blob), offsetof(struct am_trace, choice), offsetof(struct am_trace, ev),
                    offsetof(struct am_trace, data), offsetof(struct am_cfg, cut), sizeof(struct am_event)};
  for (int i = 0; i < n && i < 12; i++) o[i] = v[i];
}
EXPORT void am_attach(struct am_shm *s) { S = s; }
EXPORT void am_begin(void) {
  reset();
  MODE = (int)S->cfg.mode;
}
EXPORT void am_end(void) { MODE = M_OFF; }
EXPORT void am_set_server(am_server_cb cb) { server_cb = cb; }

static void thread_end(void *p) {
  (void)p;
  if (MODE != M_SCHED || my_tid < 0) return;
  ev(E_TEND, my_tid, 0, 0, 0);
  T[my_tid].state = T_DEAD;
  dispatch(2);
  my_tid = -1;
}

__attribute__((constructor)) static void init(void) {
  const char *s = getenv("AMRT_SHM");
  if (!s || !*s) return;
  int fd = open(s, O_RDWR | O_CLOEXEC);
  if (fd < 0) _exit(90);
  void *p = mmap(0, sizeof(struct am_shm), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (p == MAP_FAILED) _exit(91);
  close(fd);
  S = p;
  for (;;) {
    char c;
    long r = RAW(SYS_read, 198, &c, 1);
    if (r != 1) _exit(0);
    pid_t pid = fork();
    if (pid < 0) _exit(92);
    if (pid == 0) {
      RAW(SYS_close, 198);
      RAW(SYS_close, 199);
      reset();
      pthread_key_create(&end_key, thread_end);
      have_key = 1;
      NT = 1;
      T[0].state = T_RUN;
      T[0].go = 1;
      T[0].deadline = NONE;
      my_tid = 0;
      MODE = (int)S->cfg.mode;
      return;
    }
    int32_t w = pid;
    RAW(SYS_write, 199, &w, 4);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    w = st;
    RAW(SYS_write, 199, &w, 4);
  }
}

/* ------------------------------------------------------------------ threads */
struct boot {
  void *(*f)(void *);
  void *arg;
  int tid;
};
static void *boot(void *p) {
  struct boot b = *(struct boot *)p;
  free(p);
  my_tid = b.tid;
  fwait(&T[b.tid].go, 0);
  T[b.tid].state = T_RUN;
  pthread_setspecific(end_key, (void *)1);
  return b.f(b.arg);
}
#define REAL(name) \
  static __typeof__(&name) real; \
  if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name);

EXPORT int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
  REAL(pthread_create);
  if (!sch()) return real(t, a, f, arg);
  if (NT >= MAXT) {
    stop(E_HORIZON, 78);
  }
  struct boot *b = malloc(sizeof *b);
  int id = NT;
  b->f = f;
  b->arg = arg;
  b->tid = id;
  memset(&T[id], 0, sizeof T[id]);
  T[id].state = T_RUN;
  T[id].deadline = NONE;
  NT++;
  S->tr.nthread++;
  int r = real(t, a, boot, b);
  if (r) {
    NT--;
    free(b);
    return r;
  }
  T[id].pt = *t;
  ev(E_TSTART, id, 0, 0, 0);
  point(P_THREAD);
  return 0;
}
EXPORT int pthread_join(pthread_t t, void **rv) {
  REAL(pthread_join);
  if (!sch()) return real(t, rv);
  for (int i = 0; i < NT; i++)
    if (i != my_tid && T[i].pt == t && !T[i].detached) {
      point(P_THREAD);
      if (T[i].state != T_DEAD) {
        T[my_tid].state = T_JOIN;
        T[my_tid].jt = i;
        T[my_tid].deadline = NONE;
        block();
      }
      T[i].detached = 1;
      break;
    }
  return real(t, rv);
}
EXPORT int pthread_detach(pthread_t t) {
  REAL(pthread_detach);
  if (sch())
    for (int i = 0; i < NT; i++)
      if (T[i].pt == t) T[i].detached = 1;
  return real(t);
}
EXPORT int sched_yield(void) {
  if (sch()) {
    dispatch(1);
    return 0;
  }
  return (int)ret(RAW(SYS_sched_yield));
}

static long vfutex(uint32_t *a, int op, uint32_t val, const struct timespec *ts, uint32_t bits) {
  int cmd = op & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    point(P_FUTEX);
    if (__atomic_load_n(a, __ATOMIC_SEQ_CST) != val) return -EAGAIN;
    int64_t d = NONE;
    if (ts) {
      if (ts->tv_sec < 4000000000ll) {
        int64_t n = (int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec;
        if (cmd == FUTEX_WAIT)
          d = add_ns(now_ns, n);
        else if (op & FUTEX_CLOCK_REALTIME)
          d = n - (int64_t)(S->cfg.wall0 - S->cfg.mono0) - wall_off;
        else
          d = n;
      }
    }
    /* even a wait that is over at once takes some time */
    if (d != NONE && (uint64_t)d <= now_ns) now_ns++;
    struct th *t = &T[my_tid];
    t->state = T_FUTEX;
    t->faddr = a;
    t->fbits = cmd == FUTEX_WAIT ? 0xffffffffu : bits;
    t->deadline = d;
    block();
    t->deadline = NONE;
    return t->timedout ? -ETIMEDOUT : 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    point(P_FUTEX);
    int n = 0;
    while (n < (int)val) {
      int best = -1;
      for (int i = 0; i < NT; i++)
        if (T[i].state == T_FUTEX && T[i].faddr == a && (cmd == FUTEX_WAKE || (T[i].fbits & bits)) && (best < 0 || T[i].seq < T[best].seq)) best = i;
      if (best < 0) break;
      T[best].state = T_RUN;
      T[best].timedout = 0;
      n++;
    }
    /* the one that was woken may be faster than the one that wakes */
    if (n) point(P_FUTEX);
    return n;
  }
  return raw6(SYS_futex, (long)a, op, val, (long)ts, 0, bits);
}

static void wake_addr(void *a, int n) {
  while (n-- > 0) {
    int best = -1;
    for (int i = 0; i < NT; i++)
      if (T[i].state == T_FUTEX && T[i].faddr == (uint32_t *)a && (best < 0 || T[i].seq < T[best].seq)) best = i;
    if (best < 0) return;
    T[best].state = T_RUN;
    T[best].timedout = 0;
  }
}
EXPORT int sem_post(sem_t *s) {
  REAL(sem_post);
  if (sch()) point(P_FUTEX);
  int r = real(s);
  if (MODE == M_SCHED) wake_addr(s, 1);
  if (sch()) point(P_FUTEX);
  return r;
}
EXPORT int sem_wait(sem_t *s) {
  REAL(sem_wait);
  if (!sch()) return real(s);
  point(P_FUTEX);
  while (sem_trywait(s) != 0) {
    T[my_tid].state = T_FUTEX;
    T[my_tid].faddr = (uint32_t *)s;
    T[my_tid].fbits = 0xffffffffu;
    T[my_tid].deadline = NONE;
    block();
  }
  return 0;
}
/* locks of the C library, should something use them: waiting threads give way */
EXPORT int pthread_mutex_lock(pthread_mutex_t *m) {
  REAL(pthread_mutex_lock);
  if (!sch()) return real(m);
  while (pthread_mutex_trylock(m) == EBUSY) {
    T[my_tid].state = T_FUTEX;
    T[my_tid].faddr = (uint32_t *)m;
    T[my_tid].fbits = 0xffffffffu;
    T[my_tid].deadline = NONE;
    block();
  }
  return 0;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t *m) {
  REAL(pthread_mutex_unlock);
  int r = real(m);
  if (MODE == M_SCHED) wake_addr(m, MAXT);
  return r;
}

EXPORT long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && sch()) return ret(vfutex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t)f));
  if (n == SYS_getrandom && (MODE != M_OFF || fixed_rng)) return getrandom((void *)a, (size_t)b, (unsigned)c);
  return ret(raw6(n, a, b, c, d, e, f));
}

/* ------------------------------------------------------------------ time and randomness */
static int64_t ts_ns(const struct timespec *t) {
  if (t->tv_sec >= 9000000000ll) return NONE;
  return (int64_t)t->tv_sec * 1000000000ll + t->tv_nsec;
}
EXPORT int nanosleep(const struct timespec *t, struct timespec *rem) {
  (void)rem;
  if (!on()) return (int)ret(RAW(SYS_nanosleep, t, rem));
  int64_t n = ts_ns(t);
  ev(E_SLEEP, (int)(n == NONE), n, 0, 0);
  point(P_THREAD);
  vsleep_until(n == NONE ? NONE : add_ns(now_ns, n));
  return 0;
}
EXPORT int clock_nanosleep(clockid_t id, int flags, const struct timespec *t, struct timespec *rem) {
  if (!on()) {
    long r = RAW(SYS_clock_nanosleep, id, flags, t, rem);
    return (int)-r;
  }
  int64_t n = ts_ns(t);
  point(P_THREAD);
  if (flags & TIMER_ABSTIME) {
    if (n != NONE && id == CLOCK_REALTIME) n -= (int64_t)(S->cfg.wall0 - S->cfg.mono0) + wall_off;
    ev(E_SLEEP, (int)(n == NONE), n == NONE ? n : n - (int64_t)now_ns, 0, 0);
    vsleep_until(n);
  } else {
    ev(E_SLEEP, (int)(n == NONE), n, 0, 0);
    vsleep_until(n == NONE ? NONE : add_ns(now_ns, n));
  }
  return 0;
}
EXPORT int clock_gettime(clockid_t id, struct timespec *t) {
  if (!on() || (id != CLOCK_MONOTONIC && id != CLOCK_REALTIME && id != CLOCK_MONOTONIC_RAW && id != CLOCK_BOOTTIME && id != CLOCK_REALTIME_COARSE && id != CLOCK_MONOTONIC_COARSE))
    return (int)ret(RAW(SYS_clock_gettime, id, t));
  struct am_cfg *c = &S->cfg;
  if (c->feat & F_CLOCK) {
    int k = choose(K_CLOCK, c->clock_nopt, 1);
    now_ns += c->clock_opt[k];
  }
  int wall = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE;
  if (wall && (c->feat & F_WALLBACK)) {
    int k = choose(K_WALL, 3, 1);
    if (k == 1) wall_off -= 3600ll * 1000000000ll;
    if (k == 2) wall_off = -(int64_t)(c->wall0 + now_ns - c->mono0) - 10000000000ll; /* before 1970 */
  }
  int64_t v = (int64_t)now_ns + (wall ? (int64_t)(c->wall0 - c->mono0) + wall_off : 0);
  ev(E_TOK, wall, v, 0, 0);
  int64_t s = v / 1000000000ll, r = v % 1000000000ll;
  if (r < 0) {
    r += 1000000000ll;
    s--;
  }
  t->tv_sec = s;
  t->tv_nsec = r;
  return 0;
}
EXPORT ssize_t getrandom(void *buf, size_t len, unsigned fl) {
  if (MODE == M_OFF && !fixed_rng) return ret(RAW(SYS_getrandom, buf, len, fl));
  uint8_t *p = buf;
  for (size_t i = 0; i < len; i++) {
    rng ^= rng << 13;
    rng ^= rng >> 7;
    rng ^= rng << 17;
    p[i] = (uint8_t)(rng >> 24);
  }
  return (ssize_t)len;
}

/* ------------------------------------------------------------------ network */
static struct vsock *vs(int fd) { return fd >= 0 && fd < MAXFD && V[fd].used ? &V[fd] : 0; }

EXPORT int socket(int d, int t, int p) {
  int fd = (int)ret(RAW(SYS_socket, d, t, p));
  if (on() && fd >= 0 && fd < MAXFD && (d == AF_INET || d == AF_INET6)) {
    memset(&V[fd], 0, sizeof V[fd]);
    V[fd].used = 1;
    usefd(fd);
    V[fd].fam = d;
    V[fd].conn = -1;
    V[fd].rcvtimeo = NONE;
    V[fd].nonblock = (t & SOCK_NONBLOCK) != 0;
  }
  return fd;
}
EXPORT int close(int fd) {
  if (on()) {
    struct vsock *v = vs(fd);
    if (v) {
      if (v->cid > 0) ev(E_CLOSE, v->cid - 1, v->pos, 0, 0);
      free(v->sent);
      free(v->resp);
      memset(v, 0, sizeof *v);
    }
    if (fd >= 0 && fd < MAXFD && fdfile[fd]) {
      ev(E_PTCLOSE, fdfile[fd] - 1, 0, 0, 0);
      fdfile[fd] = 0;
    }
  }
  return (int)ret(RAW(SYS_close, fd));
}
static int addr_text(const struct sockaddr *sa, char *out, uint8_t *ip, int *port) {
  if (sa->sa_family == AF_INET) {
    const struct sockaddr_in *s = (const void *)sa;
    memcpy(ip, &s->sin_addr, 4);
    *port = ntohs(s->sin_port);
    sprintf(out, "%d.%d.%d.%d:%d", ip[0], ip[1], ip[2], ip[3], *port);
    return 4;
  }
  const struct sockaddr_in6 *s = (const void *)sa;
  memcpy(ip, &s->sin6_addr, 16);
  *port = ntohs(s->sin6_port);
  char *o = out;
  o += sprintf(o, "[");
  for (int i = 0; i < 16; i += 2) o += sprintf(o, "%s%x", i ? ":" : "", ip[i] * 256 + ip[i + 1]);
  sprintf(o, "]:%d", *port);
  return 6;
}
static struct am_addr *find_addr(int fam, const uint8_t *ip) {
  struct am_cfg *c = &S->cfg;
  for (uint32_t h = 0; h < c->nhost; h++)
    for (uint32_t i = 0; i < c->host[h].naddr; i++) {
      struct am_addr *a = &c->host[h].addr[i];
      if (a->fam == fam && !memcmp(a->ip, ip, fam == 4 ? 4 : 16)) return a;
    }
  return 0;
}
EXPORT int connect(int fd, const struct sockaddr *sa, socklen_t sl) {
  struct vsock *v = on() ? vs(fd) : 0;
  if (!v) return (int)ret(RAW(SYS_connect, fd, sa, sl));
  char txt[80];
  uint8_t ip[16];
  int port;
  int fam = addr_text(sa, txt, ip, &port);
  struct am_cfg *c = &S->cfg;
  struct am_addr *a = find_addr(fam, ip);
  point(P_NET);
  int id = nconn++;
  v->cid = id + 1;
  ev(E_CONNECT, id, -1, txt, (uint32_t)strlen(txt));
  int err = a ? a->err : c->default_open ? 0 : ECONNREFUSED;
  int hang = a ? a->hang : 0;
  uint64_t delay = a ? a->delay_ns : c->connect_delay_ns;
  if (c->feat & F_NETFAIL) {
    static const int errs[] = {0, ECONNREFUSED, ETIMEDOUT, ENETUNREACH};
    int k = choose(K_NETFAIL, 4, 1);
    if (k) err = errs[k];
  }
  v->fail_after = -1;
  if (v->nonblock) {
    v->pending = 1;
    v->conn = id;
    v->pend_at = hang ? NONE : add_ns(now_ns, (int64_t)delay);
    v->soerr = err;
    errno = EINPROGRESS;
    return -1;
  }
  if (hang)
    vsleep_until(NONE);
  else if (delay)
    vsleep_until(add_ns(now_ns, (int64_t)delay));
  if (S->tr.status == 81) err = ETIMEDOUT;
  ev(E_CONNECT, id, err, txt, (uint32_t)strlen(txt));
  if (err) {
    errno = err;
    return -1;
  }
  v->conn = id;
  return 0;
}
EXPORT int poll(struct pollfd *p, nfds_t n, int tmo) {
  struct vsock *v = on() && n == 1 ? vs(p[0].fd) : 0;
  if (!v) return (int)ret(RAW(SYS_poll, p, n, tmo));
  point(P_NET);
  int64_t lim = tmo < 0 ? NONE : add_ns(now_ns, (int64_t)tmo * 1000000ll);
  p[0].revents = 0;
  if (v->pending && v->pend_at <= lim && v->pend_at != NONE) {
    vsleep_until(v->pend_at);
    v->pending = 0;
    ev(E_CONNECT, v->conn, v->soerr, 0, 0);
    p[0].revents = v->soerr ? POLLOUT | POLLERR | POLLHUP : POLLOUT;
    return 1;
  }
  if (v->pending) {
    vsleep_until(lim);
    return 0;
  }
  p[0].revents = p[0].events;
  return 1;
}
EXPORT int getsockopt(int fd, int l, int o, void *val, socklen_t *len) {
  struct vsock *v = on() ? vs(fd) : 0;
  if (v && l == SOL_SOCKET && o == SO_ERROR) {
    *(int *)val = v->soerr;
    v->soerr = 0;
    *len = sizeof(int);
    return 0;
  }
  return (int)ret(RAW(SYS_getsockopt, fd, l, o, val, len));
}
EXPORT int setsockopt(int fd, int l, int o, const void *val, socklen_t len) {
  struct vsock *v = on() ? vs(fd) : 0;
  if (v && l == SOL_SOCKET && o == SO_RCVTIMEO && len >= sizeof(struct timeval)) {
    const struct timeval *tv = val;
    int64_t n = (int64_t)tv->tv_sec * 1000000000ll + tv->tv_usec * 1000ll;
    v->rcvtimeo = n > 0 ? n : NONE;
  }
  return (int)ret(RAW(SYS_setsockopt, fd, l, o, val, len));
}
EXPORT int ioctl(int fd, unsigned long req, ...) {
  va_list ap;
  va_start(ap, req);
  long a = va_arg(ap, long);
  va_end(ap);
  struct vsock *v = on() ? vs(fd) : 0;
  if (v && req == FIONBIO) v->nonblock = *(int *)a != 0;
  return (int)ret(RAW(SYS_ioctl, fd, req, a));
}
static int neterr(void) {
  static const int errs[] = {0, ECONNRESET, EPIPE, ETIMEDOUT};
  if (!(S->cfg.feat & F_NETFAIL)) return 0;
  return errs[choose(K_NETFAIL, 4, 1)];
}
static ssize_t vsend(struct vsock *v, const void *buf, size_t len) {
  struct am_cfg *c = &S->cfg;
  point(P_NET);
  if (v->conn < 0) {
    errno = ENOTCONN;
    return -1;
  }
  if (v->dead) {
    errno = v->dead;
    return -1;
  }
  int e = neterr();
  if (e) {
    v->dead = e;
    ev(E_SEND, v->conn, -e, 0, 0);
    errno = e;
    return -1;
  }
  if (c->feat & F_EINTR && choose(K_EINTR, 2, 1)) {
    errno = EINTR;
    return -1;
  }
  size_t n = len;
  if (v->seintr_pending) {
    v->seintr_pending = 0;
    errno = EINTR;
    return -1;
  }
  if (c->sfail_after >= 0) {
    if (v->stot >= (uint32_t)c->sfail_after && n) {
      v->dead = c->sfail_errno;
      ev(E_SEND, v->conn, -c->sfail_errno, 0, 0);
      errno = c->sfail_errno;
      return -1;
    }
    if (v->stot + n > (uint32_t)c->sfail_after) n = (uint32_t)c->sfail_after - v->stot;
  }
  for (uint32_t i = 0; i < c->nscut; i++)
    if (c->scut[i] > v->stot && c->scut[i] < v->stot + n) {
      n = c->scut[i] - v->stot;
      v->seintr_pending = c->cut_eintr;
      break;
    }
  if ((c->feat & F_SHORTSEND) && n > 1) {
    int k = choose(K_SEND, n > 3 ? 4 : 2, 1);
    if (k == 1) n = 1;
    if (k == 2) n = n / 2;
    if (k == 3) n = n - 1;
  }
  if (v->nsent + n > v->csent) {
    v->csent = (uint32_t)((v->nsent + n) * 2);
    v->sent = realloc(v->sent, v->csent);
  }
  memcpy(v->sent + v->nsent, buf, n);
  v->nsent += (uint32_t)n;
  v->stot += (uint32_t)n;
  ev(E_SEND, v->conn, (int64_t)len, buf, (uint32_t)n);
  if (c->send_delay_ns) vsleep_until(add_ns(now_ns, (int64_t)c->send_delay_ns));
  return (ssize_t)n;
}
static void answer(struct vsock *v) {
  struct am_cfg *c = &S->cfg;
  v->answered = 1;
  nreq++;
  ev(E_REQ, v->conn, v->nsent, v->sent, v->nsent);
  v->fail_after = -1;
  for (uint32_t i = 0; i < c->nrule; i++) {
    struct am_rule *r = &c->rule[i];
    if (r->max_uses && S->tr.rule_uses[i] >= (uint32_t)r->max_uses) continue;
    if (r->key_len && (!v->sent || !memmem(v->sent, v->nsent, c->blob + r->key_off, r->key_len))) continue;
    S->tr.rule_uses[i]++;
    v->nresp = r->resp_len;
    v->resp = malloc(r->resp_len + 1);
    memcpy(v->resp, c->blob + r->resp_off, r->resp_len);
    v->hang = r->hang;
    v->fail_after = r->fail_after;
    v->fail_errno = r->fail_errno;
    v->seg = r->seg;
    v->split = r->split;
    v->body_delay = r->body_delay_ns;
    v->ready_at = add_ns(now_ns, (int64_t)r->delay_ns);
    return;
  }
  v->ready_at = (int64_t)now_ns;
}
static ssize_t vrecv(struct vsock *v, void *buf, size_t len, int peek) {
  struct am_cfg *c = &S->cfg;
  point(P_NET);
  if (v->conn < 0) {
    errno = ENOTCONN;
    return -1;
  }
  if (v->dead) {
    errno = v->dead;
    return -1;
  }
  if (v->trunc) return 0;
  if (len == 0) return 0;
  if (server_cb) {
    v->fail_after = -1;
    if (v->pos >= v->nresp) {
      static uint8_t tmp[1 << 18];
      int eof = 0;
      busy++;
      int n = server_cb(v->conn, v->sent, v->nsent, tmp, sizeof tmp, &eof);
      busy--;
      v->nsent = 0;
      if (n > 0) {
        v->resp = realloc(v->resp, v->nresp + (uint32_t)n);
        memcpy(v->resp + v->nresp, tmp, (size_t)n);
        v->nresp += (uint32_t)n;
      } else if (eof < 0) {
        v->dead = -eof;
        errno = -eof;
        return -1;
      } else
        return 0;
    }
  } else if (!v->answered)
    answer(v);
  int64_t ready = v->ready_at;
  if (v->split && v->pos >= v->split) {
    if (!v->split_at) v->split_at = add_ns(now_ns > (uint64_t)v->ready_at ? now_ns : (uint64_t)v->ready_at, (int64_t)v->body_delay);
    ready = v->split_at;
  }
  if (v->hang) ready = NONE;
  if (!server_cb && (ready == NONE || (uint64_t)ready > now_ns)) {
    int64_t lim = v->rcvtimeo == NONE ? NONE : add_ns(now_ns, v->rcvtimeo);
    if (lim != NONE && (ready == NONE || lim < ready)) {
      vsleep_until(lim);
      errno = EAGAIN;
      return -1;
    }
    vsleep_until(ready);
    if (S->tr.status == 81) {
      errno = ETIMEDOUT;
      return -1;
    }
  }
  int e = neterr();
  if (e) {
    v->dead = e;
    ev(E_RECV, v->conn, -e, 0, 0);
    errno = e;
    return -1;
  }
  if ((c->feat & F_EINTR) && choose(K_EINTR, 2, 1)) {
    errno = EINTR;
    return -1;
  }
  if ((c->feat & F_TRUNC) && v->pos < v->nresp && choose(K_TRUNC, 2, 1)) {
    v->trunc = 1;
    ev(E_RECV, v->conn, 0, 0, 0);
    return 0;
  }
  if (v->fail_after >= 0 && v->pos >= (uint32_t)v->fail_after) {
    v->dead = v->fail_errno;
    ev(E_RECV, v->conn, -v->fail_errno, 0, 0);
    errno = v->fail_errno;
    return -1;
  }
  if (v->eintr_pending) {
    v->eintr_pending = 0;
    errno = EINTR;
    return -1;
  }
  size_t n = v->nresp - v->pos;
  if (n > len) n = len;
  if (v->seg > 0 && n > (size_t)v->seg) n = (size_t)v->seg;
  if (v->fail_after >= 0 && v->pos + n > (size_t)v->fail_after) n = (size_t)v->fail_after - v->pos;
  if (v->split && v->pos < v->split && v->pos + n > v->split) n = v->split - v->pos;
  for (uint32_t i = 0; i < c->ncut; i++)
    if (c->cut[i] > v->pos && c->cut[i] < v->pos + n) {
      n = c->cut[i] - v->pos;
      break;
    }
  for (uint32_t i = 0; i < c->ncut; i++)
    if (c->cut_eintr && c->cut[i] == v->pos + n && n) v->eintr_pending = 1;
  if ((c->feat & F_SHORTREAD) && n > 1) {
    int k = choose(K_READ, n > 3 ? 4 : 2, 1);
    if (k == 1) n = 1;
    if (k == 2) n = n / 2;
    if (k == 3) n = n - 1;
  }
  memcpy(buf, v->resp + v->pos, n);
  if (peek) return (ssize_t)n;
  v->pos += (uint32_t)n;
  ev(E_RECV, v->conn, (int64_t)n, 0, 0);
  return (ssize_t)n;
}
EXPORT ssize_t send(int fd, const void *b, size_t n, int fl) {
  struct vsock *v = on() ? vs(fd) : 0;
  if (v) return vsend(v, b, n);
  return ret(RAW(SYS_sendto, fd, b, n, fl, 0, 0));
}
EXPORT ssize_t recv(int fd, void *b, size_t n, int fl) {
  struct vsock *v = on() ? vs(fd) : 0;
  if (v) {
    return vrecv(v, b, n, fl & MSG_PEEK);
  }
  return ret(RAW(SYS_recvfrom, fd, b, n, fl, 0, 0));
}
EXPORT int shutdown(int fd, int how) {
  struct vsock *v = on() ? vs(fd) : 0;
  if (v) {
    point(P_NET);
    return 0;
  }
  return (int)ret(RAW(SYS_shutdown, fd, how));
}
EXPORT int getpeername(int fd, struct sockaddr *sa, socklen_t *l) {
  struct vsock *v = on() ? vs(fd) : 0;
  if (v && v->conn >= 0) {
    memset(sa, 0, *l);
    sa->sa_family = (sa_family_t)v->fam;
    *l = v->fam == AF_INET ? sizeof(struct sockaddr_in) : sizeof(struct sockaddr_in6);
    return 0;
  }
  return (int)ret(RAW(SYS_getpeername, fd, sa, l));
}
EXPORT int getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res) {
  REAL(getaddrinfo);
  if (!on()) return real(node, service, hints, res);
  struct am_cfg *c = &S->cfg;
  point(P_NET);
  uint32_t nl = node ? (uint32_t)strlen(node) : 0;
  for (uint32_t h = 0; h < c->nhost; h++) {
    struct am_host *H = &c->host[h];
    if (H->name_len && (H->name_len != nl || memcmp(c->blob + H->name_off, node, nl))) continue;
    if (H->delay_ns) vsleep_until(add_ns(now_ns, (int64_t)H->delay_ns));
    ev(E_RESOLVE, H->eai ? H->eai : (int)H->naddr, 0, node, nl);
    if (H->eai) return H->eai;
    struct addrinfo *first = 0, **tail = &first;
    for (uint32_t i = 0; i < H->naddr; i++) {
      struct addrinfo *ai = calloc(1, sizeof *ai + sizeof(struct sockaddr_in6));
      ai->ai_socktype = SOCK_STREAM;
      ai->ai_protocol = IPPROTO_TCP;
      ai->ai_addr = (void *)(ai + 1);
      if (H->addr[i].fam == 4) {
        struct sockaddr_in *s = (void *)ai->ai_addr;
        s->sin_family = AF_INET;
        memcpy(&s->sin_addr, H->addr[i].ip, 4);
        ai->ai_family = AF_INET;
        ai->ai_addrlen = sizeof *s;
      } else {
        struct sockaddr_in6 *s = (void *)ai->ai_addr;
        s->sin6_family = AF_INET6;
        memcpy(&s->sin6_addr, H->addr[i].ip, 16);
        ai->ai_family = AF_INET6;
        ai->ai_addrlen = sizeof *s;
      }
      if (service) ((struct sockaddr_in *)ai->ai_addr)->sin_port = htons((uint16_t)atoi(service));
      *tail = ai;
      tail = &ai->ai_next;
    }
    *res = first;
    return 0;
  }
  ev(E_RESOLVE, EAI_NONAME, 0, node, nl);
  return EAI_NONAME;
}
EXPORT void freeaddrinfo(struct addrinfo *a) {
  REAL(freeaddrinfo);
  if (!on()) {
    real(a);
    return;
  }
  while (a) {
    struct addrinfo *n = a->ai_next;
    free(a);
    a = n;
  }
}

/* ------------------------------------------------------------------ files and standard streams */
static int rec_path(const char *p, int fl) {
  size_t n = strlen(S->cfg.filedir);
  return n && (fl & (O_WRONLY | O_RDWR)) && !strncmp(p, S->cfg.filedir, n);
}
static int vopen(int dir, const char *p, int fl, mode_t m) {
  if (on() && rec_path(p, fl)) {
    point(P_FILE);
    int fd = (int)ret(RAW(SYS_openat, dir, p, fl, m));
    ev(E_OPEN, fd < 0 ? -1 : nfile, fl, p, (uint32_t)strlen(p));
    if (fd >= 0 && fd < MAXFD) {
      fdfile[fd] = ++nfile;
      usefd(fd);
    }
    return fd;
  }
  return (int)ret(RAW(SYS_openat, dir, p, fl, m));
}
#define OPENBODY(dir) \
  va_list ap; \
  va_start(ap, fl); \
  mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; \
  va_end(ap); \
  return vopen(dir, p, fl, m);
EXPORT int open(const char *p, int fl, ...) { OPENBODY(AT_FDCWD) }
EXPORT int open64(const char *p, int fl, ...) { OPENBODY(AT_FDCWD) }
EXPORT int openat(int d, const char *p, int fl, ...) { OPENBODY(d) }
EXPORT int openat64(int d, const char *p, int fl, ...) { OPENBODY(d) }

static ssize_t vwrite_std(int fd, const void *b, size_t n) {
  struct am_cfg *c = &S->cfg;
  point(P_OUT);
  size_t m = n;
  if (fd == 1 && (c->feat & F_OUTFAULT) && n > 0) {
    int k = choose(K_OUT, n > 3 ? 4 : n > 1 ? 3 : 2, 1);
    if (k == 1) {
      errno = EINTR;
      return -1;
    }
    if (k == 2) m = 1;
    if (k == 3) m = n / 2;
  }
  ev(fd == 1 ? E_OUT : E_ERR, 0, (int64_t)n, b, (uint32_t)m);
  return (ssize_t)m;
}
static ssize_t vwrite_file(int fd, const void *b, size_t n) {
  struct am_cfg *c = &S->cfg;
  point(P_FILE);
  size_t m = n;
  if ((c->feat & F_FILEFAULT) && n > 0) {
    int k = choose(K_FILE, n > 3 ? 5 : n > 1 ? 3 : 2, 1);
    if (k == 1) {
      errno = EINTR;
      return -1;
    }
    if (k == 2) m = 1;
    if (k == 3) m = n / 2;
    if (k == 4) m = n - 1;
  }
  ev(E_FILE, fdfile[fd] - 1, (int64_t)n, b, (uint32_t)m);
  if (c->record_pass) RAW(SYS_write, fd, b, m);
  return (ssize_t)m;
}
EXPORT ssize_t write(int fd, const void *b, size_t n) {
  if (on()) {
    struct vsock *v = vs(fd);
    if (v) return vsend(v, b, n);
    if (fd == 1 || fd == 2) return vwrite_std(fd, b, n);
    if (fd >= 0 && fd < MAXFD && fdfile[fd]) return vwrite_file(fd, b, n);
  }
  return ret(RAW(SYS_write, fd, b, n));
}
EXPORT ssize_t writev(int fd, const struct iovec *iov, int cnt) {
  if (on()) {
    int ours = vs(fd) || fd == 1 || fd == 2 || (fd >= 0 && fd < MAXFD && fdfile[fd]);
    if (ours) {
      size_t tot = 0;
      for (int i = 0; i < cnt; i++) tot += iov[i].iov_len;
      uint8_t *tmp = malloc(tot + 1);
      size_t o = 0;
      for (int i = 0; i < cnt; i++) {
        memcpy(tmp + o, iov[i].iov_base, iov[i].iov_len);
        o += iov[i].iov_len;
      }
      ssize_t r = write(fd, tmp, tot);
      int e = errno;
      free(tmp);
      errno = e;
      return r;
    }
  }
  return ret(RAW(SYS_writev, fd, iov, cnt));
}
static ssize_t vstdin(void *b, size_t n) {
  struct am_cfg *c = &S->cfg;
  point(P_MISC);
  size_t left = c->stdin_len - stdin_pos;
  if (n > left) n = left;
  if (n == 0) {
    ev(E_STDIN, 0, 0, 0, 0);
    if (++eof_reads > 200) stop(E_EOFSPIN, 79);
    return 0;
  }
  for (uint32_t i = 0; i < c->ncut; i++)
    if (c->cut[i] > stdin_pos && c->cut[i] < stdin_pos + n) {
      n = c->cut[i] - stdin_pos;
      break;
    }
  if ((c->feat & F_STDINCUT) && n > 1) {
    int k = choose(K_STDIN, 3, 1);
    if (k == 1) n = 1;
    if (k == 2) n = n / 2;
  }
  memcpy(b, c->blob + c->stdin_off + stdin_pos, n);
  stdin_pos += (uint32_t)n;
  ev(E_STDIN, 0, (int64_t)n, 0, 0);
  return (ssize_t)n;
}
EXPORT ssize_t read(int fd, void *b, size_t n) {
  if (on()) {
    struct vsock *v = vs(fd);
    if (v) return vrecv(v, b, n, 0);
    if (fd == 0 && MODE == M_SCHED) return vstdin(b, n);
    if (sch() && !fd_ready(fd)) {
      T[my_tid].state = T_FD;
      T[my_tid].fd = fd;
      T[my_tid].deadline = NONE;
      block();
    }
  }
  return ret(RAW(SYS_read, fd, b, n));
}
EXPORT ssize_t readv(int fd, const struct iovec *iov, int cnt) {
  if (on() && cnt > 0) {
    struct vsock *v = vs(fd);
    if (v) return vrecv(v, iov[0].iov_base, iov[0].iov_len, 0);
  }
  return ret(RAW(SYS_readv, fd, iov, cnt));
}
/* directories: listed in the order the configuration asks for */
struct vdir {
  DIR *d;
  int n, i;
  struct dirent64 *e;
};
static struct vdir D[64];
static int by_name(const void *a, const void *b) { return strcmp(((const struct dirent64 *)a)->d_name, ((const struct dirent64 *)b)->d_name); }
EXPORT struct dirent64 *readdir64(DIR *d) {
  REAL(readdir64);
  if (!on() || !S->cfg.dirperm) return real(d);
  struct vdir *v = 0;
  for (int i = 0; i < 64; i++)
    if (D[i].d == d) v = &D[i];
  if (!v) {
    for (int i = 0; i < 64 && !v; i++)
      if (!D[i].d) v = &D[i];
    if (!v) return real(d);
    memset(v, 0, sizeof *v);
    v->d = d;
    struct dirent64 *e;
    while ((e = real(d))) {
      v->e = realloc(v->e, (size_t)(v->n + 1) * sizeof *e);
      memset(&v->e[v->n], 0, sizeof *e);
      memcpy(&v->e[v->n++], e, e->d_reclen < sizeof *e ? e->d_reclen : sizeof *e);
    }
    qsort(v->e, (size_t)v->n, sizeof *v->e, by_name);
    uint32_t k = S->cfg.dirperm - 1;
    for (int i = 0; i < v->n; i++) { /* the k-th permutation */
      uint32_t m = (uint32_t)(v->n - i), j = k % m;
      k /= m;
      struct dirent64 t = v->e[i + (int)j];
      memmove(&v->e[i + 1], &v->e[i], j * sizeof t);
      v->e[i] = t;
    }
  }
  return v->i < v->n ? &v->e[v->i++] : 0;
}
EXPORT struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
EXPORT int closedir(DIR *d) {
  REAL(closedir);
  for (int i = 0; i < 64; i++)
    if (D[i].d == d && d) {
      free(D[i].e);
      memset(&D[i], 0, sizeof D[i]);
    }
  return real(d);
}
EXPORT off_t lseek(int fd, off_t o, int w) {
  if (on() && fd >= 0 && fd < MAXFD && fdfile[fd] && !(o == 0 && w == SEEK_CUR)) ev(E_SEEK, fdfile[fd] - 1, o, 0, 0);
  return (off_t)ret(RAW(SYS_lseek, fd, o, w));
}
EXPORT off_t lseek64(int fd, off_t o, int w) { return lseek(fd, o, w); }
EXPORT int ftruncate64(int fd, off_t o) {
  if (on() && fd >= 0 && fd < MAXFD && fdfile[fd]) ev(E_TRUNCATE, fdfile[fd] - 1, o, 0, 0);
  return (int)ret(RAW(SYS_ftruncate, fd, o));
}
EXPORT int fsync(int fd) {
  if (on() && fd >= 0 && fd < MAXFD && fdfile[fd]) {
    point(P_FILE);
    ev(E_FSYNC, fdfile[fd] - 1, 0, 0, 0);
  }
  return (int)ret(RAW(SYS_fsync, fd));
}
EXPORT int sigaction(int sig, const struct sigaction *a, struct sigaction *o) {
  REAL(sigaction);
  if (on() && sig == SIGINT && a && my_tid >= 0) {
    sig_act = *a;
    sig_seen = a->sa_handler != SIG_DFL;
    ev(E_HANDLER, sig, 0, 0, 0);
  }
  return real(sig, a, o);
}

/* ------------------------------------------------------------------ atomics of instrumented crates */
static inline void apoint(void) {
  if (MODE != M_SCHED || busy || my_tid < 0) return;
  S->tr.natomic++;
  if (S->cfg.feat & F_ATOMICS) point(P_ATOMIC);
}
/* called by the stubs that bin/build puts in front of the functions of std that print */
EXPORT void amrt_print_point(void) {
  if (MODE != M_SCHED || busy || my_tid < 0) return;
  point(P_PRINT);
}
EXPORT void __tsan_init(void) {}
EXPORT void __tsan_func_entry(void *p) { (void)p; }
EXPORT void __tsan_func_exit(void) {}
EXPORT void __tsan_atomic_thread_fence(int m) {
  (void)m;
  __atomic_thread_fence(__ATOMIC_SEQ_CST);
}
EXPORT void __tsan_atomic_signal_fence(int m) { (void)m; }
#define ATOM(N, TY) \
  EXPORT TY __tsan_atomic##N##_load(const volatile TY *a, int m) { (void)m; apoint(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  EXPORT void __tsan_atomic##N##_store(volatile TY *a, TY v, int m) { (void)m; apoint(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT TY __tsan_atomic##N##_exchange(volatile TY *a, TY v, int m) { (void)m; apoint(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT TY __tsan_atomic##N##_fetch_add(volatile TY *a, TY v, int m) { (void)m; apoint(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT TY __tsan_atomic##N##_fetch_sub(volatile TY *a, TY v, int m) { (void)m; apoint(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT TY __tsan_atomic##N##_fetch_and(volatile TY *a, TY v, int m) { (void)m; apoint(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT TY __tsan_atomic##N##_fetch_or(volatile TY *a, TY v, int m) { (void)m; apoint(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT TY __tsan_atomic##N##_fetch_xor(volatile TY *a, TY v, int m) { (void)m; apoint(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT TY __tsan_atomic##N##_fetch_nand(volatile TY *a, TY v, int m) { (void)m; apoint(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  EXPORT TY __tsan_atomic##N##_compare_exchange_val(volatile TY *a, TY c, TY v, int m, int f) { (void)m; (void)f; apoint(); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; } \
  EXPORT int __tsan_atomic##N##_compare_exchange_strong(volatile TY *a, TY *c, TY v, int m, int f) { (void)m; (void)f; apoint(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  EXPORT int __tsan_atomic##N##_compare_exchange_weak(volatile TY *a, TY *c, TY v, int m, int f) { (void)m; (void)f; apoint(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
ATOM(8, uint8_t)
ATOM(16, uint16_t)
ATOM(32, uint32_t)
ATOM(64, uint64_t)
