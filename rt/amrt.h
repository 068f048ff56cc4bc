/* amrt: interposition runtime. It owns the nondeterminism of a process that runs the code under
 * test: thread schedule, clocks, randomness, network, standard input/output, record files, signals.
 * Layout shared with the Rust driver (mc/src/rt.rs mirrors it). */
#ifndef AMRT_H
#define AMRT_H
#include <stdint.h>

#define AM_MAXCHOICE 16384
#define AM_MAXPREFIX 16384
#define AM_MAXEV 262144
#define AM_ARENA (96u << 20)
#define AM_MAXRULE 32
#define AM_MAXADDR 16
#define AM_MAXHOST 8
#define AM_BLOB (40u << 20)

enum { M_OFF = 0, M_SEQ = 1, M_SCHED = 2 };

/* features */
#define F_ATOMICS 1u     /* scheduling point before every atomic access of instrumented crates */
#define F_TIMERENV 2u    /* environment choice: the earliest timer fires now */
#define F_SIGNAL 4u      /* environment choice: SIGINT arrives now (once) */
#define F_SHORTREAD 8u   /* choice at every recv: how many bytes */
#define F_SHORTSEND 16u  /* choice at every send: how many bytes */
#define F_EINTR 32u      /* choice at recv/send/write: interrupted */
#define F_OUTFAULT 64u   /* choice at every write to stdout: short or interrupted */
#define F_FILEFAULT 128u /* choice at every write to a record file: short or interrupted */
#define F_CLOCK 256u     /* choice at every clock reading: how much time has passed */
#define F_NETFAIL 512u   /* choice at every network operation: fail with an error */
#define F_STDINCUT 1024u /* choice at every read of stdin: how many bytes */
#define F_NOTHREADPT 2048u /* no scheduling points at plain I/O (only at blocking operations) */
#define F_TRUNC 4096u    /* choice at every recv: the peer closes here */
#define F_WALLBACK 8192u /* choice at every wall clock reading: set back */

/* choice kinds */
enum { K_SCHED = 1, K_READ, K_SEND, K_EINTR, K_OUT, K_FILE, K_CLOCK, K_NETFAIL, K_STDIN, K_TRUNC, K_WALL };

/* events */
enum {
  E_CONNECT = 1, /* a=conn id, b=result errno, data=ip:port text */
  E_SEND,        /* a=conn, data=bytes accepted */
  E_RECV,        /* a=conn, b=bytes returned or -errno */
  E_REQ,         /* a=conn, data=all bytes sent until the first recv */
  E_OUT,         /* data=bytes written to stdout */
  E_ERR,         /* data=bytes written to stderr */
  E_FILE,        /* a=file id, data=bytes written */
  E_OPEN,        /* a=file id, b=flags, data=path */
  E_TSTART,      /* a=new tid */
  E_TEND,        /* tid ended */
  E_SLEEP,       /* a=ns low, b=ns (int64) */
  E_WAKE,        /* timer fired: a=tid */
  E_SIGNAL,      /* SIGINT delivered */
  E_DEADLOCK, E_HORIZON, E_RESOLVE, /* data=host, a=n or -err */
  E_STDIN,       /* b=bytes */
  E_CLOSE,       /* a=conn */
  E_EOFSPIN, E_HANDLER, /* handler installed */
  E_DIVERGE,     /* the prefix asked for an option that does not exist */
  E_TOK,         /* a=token: clock read etc. (b=value) */
  E_PTCLOSE,     /* a=file id closed */
  E_FSYNC, E_SEEK, E_TRUNCATE, E_UNLINK, E_RENAME, E_KILL
};

struct am_choice {
  uint8_t kind;
  uint8_t chosen;
  uint8_t n;       /* all options */
  uint8_t nfree;   /* options [0,nfree) cost nothing, the rest cost one deviation */
  uint32_t ev;     /* number of events logged before this choice */
};

struct am_event {
  uint16_t type;
  uint16_t tid;
  int32_t a;
  int64_t b;
  uint32_t off, len;
  uint64_t t; /* virtual monotonic ns */
};

struct am_rule {
  uint32_t key_off, key_len;   /* substring of the request (0 length: any) */
  uint32_t resp_off, resp_len;
  uint64_t delay_ns;           /* before the first byte */
  int32_t fail_after;          /* >=0: after this many response bytes recv fails with fail_errno */
  int32_t fail_errno;
  int32_t seg;                 /* >0: at most this many bytes per recv */
  int32_t hang;                /* never answers, never closes */
  uint64_t body_delay_ns;      /* delay before the bytes after split */
  uint32_t split;              /* position of the second delivery */
  int32_t max_uses;            /* 0 = unlimited */
};

struct am_addr {
  uint8_t fam;  /* 4 or 6 */
  uint8_t pad[3];
  uint8_t ip[16];
  int32_t err;      /* 0 accept, else errno */
  int32_t hang;     /* never completes */
  uint64_t delay_ns;
};

struct am_host {
  uint32_t name_off, name_len; /* 0 length: any name */
  int32_t eai;                 /* getaddrinfo error */
  uint32_t naddr;
  uint64_t delay_ns;
  struct am_addr addr[AM_MAXADDR];
};

struct am_cfg {
  uint32_t mode, feat;
  uint32_t nprefix;
  uint32_t horizon;
  uint64_t seed;
  uint64_t mono0, wall0;
  uint32_t nrule, nhost;
  uint32_t stdin_off, stdin_len;
  uint64_t connect_delay_ns; /* for literal addresses */
  uint64_t send_delay_ns;
  int32_t  sig_max;      /* number of SIGINT deliveries */
  int32_t  record_pass;  /* 1: record-file writes also reach the real file */
  uint64_t env_from_ev;
  int32_t  out_pass;     /* 1: stdout writes also reach fd 1 */
  int32_t  resolve_real; /* unused */
  int32_t  short_mode;   /* 0: {all,1}; 1: {all,1,half,n-1} */
  int32_t  clock_nopt;
  uint64_t clock_opt[6];
  int32_t  sig_at;       /* if > 0: a signal is delivered as soon as this many requests have been sent */
  int32_t  default_open; /* 1: addresses without host entry accept */
  uint32_t nblob;
  uint32_t ncut, nscut;  /* explicit delivery cuts: absolute positions in the response / request stream */
  uint32_t cut[64], scut[64];
  int32_t cut_eintr;     /* deliver one EINTR before continuing after each cut */
  int32_t sfail_after;   /* >=0: after this many request bytes send fails with sfail_errno */
  int32_t sfail_errno;
  uint32_t dirperm;      /* >0: directories list in this permutation (1 = sorted) */
  uint32_t sched_kinds;  /* bit mask of P_* kinds that are scheduling points */
  char filedir[256];     /* files below this directory are record files */
  uint16_t prefix[AM_MAXPREFIX];
  struct am_rule rule[AM_MAXRULE];
  struct am_host host[AM_MAXHOST];
  uint8_t blob[AM_BLOB];
};

/* scheduling point classes */
#define P_NET 1u
#define P_OUT 2u
#define P_FILE 4u
#define P_ATOMIC 8u
#define P_FUTEX 16u
#define P_THREAD 32u
#define P_MISC 64u
#define P_PRINT 128u

struct am_trace {
  uint32_t nchoice, nev, arena, status;
  uint32_t rule_uses[AM_MAXRULE];
  uint32_t natomic, nthread, npoint, pad;
  struct am_choice choice[AM_MAXCHOICE];
  struct am_event ev[AM_MAXEV];
  uint8_t data[AM_ARENA];
};

struct am_shm {
  struct am_cfg cfg;
  struct am_trace tr;
};

/* in-process use */
typedef int (*am_server_cb)(int conn, const uint8_t *sent, uint32_t nsent, uint8_t *out, uint32_t cap, int *eof);
void am_attach(struct am_shm *s);
void am_begin(void);
void am_end(void);
void am_reseed(uint64_t seed);
void am_set_server(am_server_cb cb);
#endif
