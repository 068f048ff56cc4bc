//! Mirror of rt/amrt.h.
#![allow(dead_code)]
pub const MAXCHOICE: usize = 16384;
pub const MAXPREFIX: usize = 16384;
pub const MAXEV: usize = 262144;
pub const ARENA: usize = 96 << 20;
pub const MAXRULE: usize = 32;
pub const MAXADDR: usize = 16;
pub const MAXHOST: usize = 8;
pub const BLOB: usize = 40 << 20;

pub const M_OFF: u32 = 0;
pub const M_SEQ: u32 = 1;
pub const M_SCHED: u32 = 2;

pub const F_ATOMICS: u32 = 1;
pub const F_TIMERENV: u32 = 2;
pub const F_SIGNAL: u32 = 4;
pub const F_SHORTREAD: u32 = 8;
pub const F_SHORTSEND: u32 = 16;
pub const F_EINTR: u32 = 32;
pub const F_OUTFAULT: u32 = 64;
pub const F_FILEFAULT: u32 = 128;
pub const F_CLOCK: u32 = 256;
pub const F_NETFAIL: u32 = 512;
pub const F_STDINCUT: u32 = 1024;
pub const F_TRUNC: u32 = 4096;
pub const F_WALLBACK: u32 = 8192;
pub const F_DIRORDER: u32 = 16384;

pub const K_SCHED: u8 = 1;
pub const K_READ: u8 = 2;
pub const K_SEND: u8 = 3;
pub const K_EINTR: u8 = 4;
pub const K_OUT: u8 = 5;
pub const K_FILE: u8 = 6;
pub const K_CLOCK: u8 = 7;
pub const K_NETFAIL: u8 = 8;
pub const K_STDIN: u8 = 9;
pub const K_TRUNC: u8 = 10;
pub const K_WALL: u8 = 11;
pub const K_DIR: u8 = 12;

pub const E_CONNECT: u16 = 1;
pub const E_SEND: u16 = 2;
pub const E_RECV: u16 = 3;
pub const E_REQ: u16 = 4;
pub const E_OUT: u16 = 5;
pub const E_ERR: u16 = 6;
pub const E_FILE: u16 = 7;
pub const E_OPEN: u16 = 8;
pub const E_TSTART: u16 = 9;
pub const E_TEND: u16 = 10;
pub const E_SLEEP: u16 = 11;
pub const E_WAKE: u16 = 12;
pub const E_SIGNAL: u16 = 13;
pub const E_DEADLOCK: u16 = 14;
pub const E_HORIZON: u16 = 15;
pub const E_RESOLVE: u16 = 16;
pub const E_STDIN: u16 = 17;
pub const E_CLOSE: u16 = 18;
pub const E_EOFSPIN: u16 = 19;
pub const E_HANDLER: u16 = 20;
pub const E_DIVERGE: u16 = 21;
pub const E_TOK: u16 = 22;
pub const E_PTCLOSE: u16 = 23;
pub const E_FSYNC: u16 = 24;
pub const E_SEEK: u16 = 25;
pub const E_TRUNCATE: u16 = 26;
pub const E_UNLINK: u16 = 27;
pub const E_RENAME: u16 = 28;
pub const E_KILL: u16 = 29;

pub const P_NET: u32 = 1;
pub const P_OUT: u32 = 2;
pub const P_FILE: u32 = 4;
pub const P_ATOMIC: u32 = 8;
pub const P_FUTEX: u32 = 16;
pub const P_THREAD: u32 = 32;
pub const P_MISC: u32 = 64;
pub const P_ALL: u32 = 127;
/// before every use of standard output (or error); not among P_ALL
pub const P_PRINT: u32 = 128;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Choice {
    pub kind: u8,
    pub chosen: u8,
    pub n: u8,
    pub nfree: u8,
    pub ev: u32,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Event {
    pub typ: u16,
    pub tid: u16,
    pub a: i32,
    pub b: i64,
    pub off: u32,
    pub len: u32,
    pub t: u64,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Rule {
    pub key_off: u32,
    pub key_len: u32,
    pub resp_off: u32,
    pub resp_len: u32,
    pub delay_ns: u64,
    pub fail_after: i32,
    pub fail_errno: i32,
    pub seg: i32,
    pub hang: i32,
    pub body_delay_ns: u64,
    pub split: u32,
    pub max_uses: i32,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Addr {
    pub fam: u8,
    pub pad: [u8; 3],
    pub ip: [u8; 16],
    pub err: i32,
    pub hang: i32,
    pub delay_ns: u64,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Host {
    pub name_off: u32,
    pub name_len: u32,
    pub eai: i32,
    pub naddr: u32,
    pub delay_ns: u64,
    pub addr: [Addr; MAXADDR],
}
#[repr(C)]
pub struct Cfg {
    pub mode: u32,
    pub feat: u32,
    pub nprefix: u32,
    pub horizon: u32,
    pub seed: u64,
    pub mono0: u64,
    pub wall0: u64,
    pub nrule: u32,
    pub nhost: u32,
    pub stdin_off: u32,
    pub stdin_len: u32,
    pub connect_delay_ns: u64,
    pub send_delay_ns: u64,
    pub sig_max: i32,
    pub record_pass: i32,
    pub env_from_ev: u64,
    pub out_pass: i32,
    pub resolve_real: i32,
    pub short_mode: i32,
    pub clock_nopt: i32,
    pub clock_opt: [u64; 6],
    pub sig_at: i32,
    pub default_open: i32,
    pub nblob: u32,
    pub ncut: u32,
    pub nscut: u32,
    pub cut: [u32; 64],
    pub scut: [u32; 64],
    pub cut_eintr: i32,
    pub sfail_after: i32,
    pub sfail_errno: i32,
    pub dirperm: u32,
    pub sched_kinds: u32,
    pub filedir: [u8; 256],
    pub prefix: [u16; MAXPREFIX],
    pub rule: [Rule; MAXRULE],
    pub host: [Host; MAXHOST],
    pub blob: [u8; BLOB],
}
#[repr(C)]
pub struct Trace {
    pub nchoice: u32,
    pub nev: u32,
    pub arena: u32,
    pub status: u32,
    pub rule_uses: [u32; MAXRULE],
    pub natomic: u32,
    pub nthread: u32,
    pub npoint: u32,
    pub pad: u32,
    pub choice: [Choice; MAXCHOICE],
    pub ev: [Event; MAXEV],
    pub data: [u8; ARENA],
}
#[repr(C)]
pub struct Shm {
    pub cfg: Cfg,
    pub tr: Trace,
}

pub type ServerCb = extern "C" fn(i32, *const u8, u32, *mut u8, u32, *mut i32) -> i32;
extern "C" {
    pub fn am_attach(s: *mut Shm);
    pub fn am_begin();
    pub fn am_end();
    pub fn am_reseed(seed: u64);
    pub fn am_set_server(cb: Option<ServerCb>);
    pub fn am_layout(out: *mut u64, n: i32);
}

/// Compares this mirror with the C layout.
pub fn check_layout() {
    let mut v = [0u64; 12];
    unsafe { am_layout(v.as_mut_ptr(), 12) };
    use std::mem::{offset_of, size_of};
    let mine = [
        size_of::<Shm>() as u64,
        size_of::<Cfg>() as u64,
        size_of::<Trace>() as u64,
        offset_of!(Cfg, prefix) as u64,
        offset_of!(Cfg, rule) as u64,
        offset_of!(Cfg, host) as u64,
        offset_of!(Cfg, blob) as u64,
        offset_of!(Trace, choice) as u64,
        offset_of!(Trace, ev) as u64,
        offset_of!(Trace, data) as u64,
        offset_of!(Cfg, cut) as u64,
        size_of::<Event>() as u64,
    ];
    assert_eq!(v, mine, "layout of amrt.h and rt.rs differ");
}

pub fn map_shared(size: usize) -> *mut u8 {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            size,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "mmap");
        p as *mut u8
    }
}

impl Shm {
    /// A private anonymous one for in-process use.
    pub fn alloc() -> &'static mut Shm {
        unsafe {
            let p = map_shared(std::mem::size_of::<Shm>()) as *mut Shm;
            (*p).cfg.clear();
            &mut *p
        }
    }
}
impl Cfg {
    pub fn clear(&mut self) {
        self.mode = M_SEQ;
        self.feat = 0;
        self.nprefix = 0;
        self.horizon = 0;
        self.seed = 1;
        self.mono0 = 1_000_000_000_000;
        self.wall0 = 1_700_000_000_000_000_000;
        self.nrule = 0;
        self.nhost = 0;
        self.stdin_off = 0;
        self.stdin_len = 0;
        self.connect_delay_ns = 0;
        self.send_delay_ns = 0;
        self.sig_max = 0;
        self.sig_at = 0;
        self.record_pass = 0;
        self.env_from_ev = 0;
        self.out_pass = 0;
        self.short_mode = 0;
        self.clock_nopt = 0;
        self.clock_opt = [0; 6];
        self.default_open = 0;
        self.nblob = 0;
        self.ncut = 0;
        self.nscut = 0;
        self.cut_eintr = 0;
        self.sfail_after = -1;
        self.sched_kinds = P_ALL;
        self.filedir = [0; 256];
        self.dirperm = 0;
        self.sfail_errno = 0;
    }
    pub fn put(&mut self, b: &[u8]) -> (u32, u32) {
        let o = self.nblob as usize;
        assert!(o + b.len() <= BLOB, "blob full");
        self.blob[o..o + b.len()].copy_from_slice(b);
        self.nblob += b.len() as u32;
        (o as u32, b.len() as u32)
    }
    pub fn stdin(&mut self, b: &[u8]) {
        let (o, l) = self.put(b);
        self.stdin_off = o;
        self.stdin_len = l;
    }
    pub fn add_rule(&mut self, key: &[u8], resp: &[u8]) -> &mut Rule {
        let (ko, kl) = self.put(key);
        let (ro, rl) = self.put(resp);
        let i = self.nrule as usize;
        assert!(i < MAXRULE);
        self.rule[i] = Rule {
            key_off: ko,
            key_len: kl,
            resp_off: ro,
            resp_len: rl,
            delay_ns: 0,
            fail_after: -1,
            fail_errno: 0,
            seg: 0,
            hang: 0,
            body_delay_ns: 0,
            split: 0,
            max_uses: 0,
        };
        self.nrule += 1;
        &mut self.rule[i]
    }
    pub fn add_host(&mut self, name: &str, addrs: &[Addr]) -> &mut Host {
        let (o, l) = self.put(name.as_bytes());
        let i = self.nhost as usize;
        assert!(i < MAXHOST && addrs.len() <= MAXADDR);
        let none = Addr { fam: 0, pad: [0; 3], ip: [0; 16], err: 0, hang: 0, delay_ns: 0 };
        let mut h = Host { name_off: o, name_len: l, eai: 0, naddr: addrs.len() as u32, delay_ns: 0, addr: [none; MAXADDR] };
        h.addr[..addrs.len()].copy_from_slice(addrs);
        self.host[i] = h;
        self.nhost += 1;
        &mut self.host[i]
    }
    pub fn set_filedir(&mut self, d: &str) {
        self.filedir = [0; 256];
        self.filedir[..d.len()].copy_from_slice(d.as_bytes());
    }
}
pub fn v4(a: u8, b: u8, c: u8, d: u8) -> Addr {
    let mut ip = [0; 16];
    ip[..4].copy_from_slice(&[a, b, c, d]);
    Addr { fam: 4, pad: [0; 3], ip, err: 0, hang: 0, delay_ns: 0 }
}
pub fn v6(last: u8) -> Addr {
    let mut ip = [0; 16];
    ip[0] = 0x20;
    ip[1] = 0x01;
    ip[15] = last;
    Addr { fam: 6, pad: [0; 3], ip, err: 0, hang: 0, delay_ns: 0 }
}
impl Trace {
    pub fn events(&self) -> &[Event] {
        &self.ev[..(self.nev as usize).min(MAXEV)]
    }
    pub fn choices(&self) -> &[Choice] {
        &self.choice[..(self.nchoice as usize).min(MAXCHOICE)]
    }
    pub fn data(&self, e: &Event) -> &[u8] {
        &self.data[e.off as usize..(e.off + e.len) as usize]
    }
    pub fn out(&self) -> Vec<u8> {
        self.cat(E_OUT)
    }
    pub fn cat(&self, typ: u16) -> Vec<u8> {
        let mut v = Vec::new();
        for e in self.events() {
            if e.typ == typ {
                v.extend_from_slice(self.data(e));
            }
        }
        v
    }
    /// Bytes sent on a connection.
    pub fn sent(&self, conn: i32) -> Vec<u8> {
        let mut v = Vec::new();
        for e in self.events() {
            if e.typ == E_SEND && e.a == conn && e.b >= 0 {
                v.extend_from_slice(self.data(e));
            }
        }
        v
    }
}
