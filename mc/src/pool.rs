//! Sharded exhaustive enumeration: forked workers, each executing its share of one deterministic
//! sequence of cases, with shared progress so that a crash or a hang is attributed to its case.
use crate::rt::{map_shared, Shm};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

const TEXT: usize = 1 << 17;
const NSAMPLE: usize = 6;
const SAMPLE: usize = 700;

#[repr(C)]
struct Slot {
    state: AtomicU32, // 0 between cases, 1 in a case, 2 done, 3 violation, 4 harness error
    nsample: AtomicU32,
    beat: AtomicU64,
    index: AtomicU64,
    limit_ms: AtomicU64,
    dlen: AtomicU64,
    mlen: AtomicU64,
    clen: AtomicU64,
    slen: [AtomicU64; NSAMPLE],
    desc: [u8; TEXT],
    msg: [u8; TEXT],
    counts: [u8; TEXT],
    sample: [[u8; SAMPLE]; NSAMPLE],
}
#[repr(C)]
struct Global {
    stop_at: AtomicU64,
    nstate: AtomicU64,
    full: AtomicU64,
}
const SETSIZE: usize = 1 << 26;
const SETMAX: u64 = (SETSIZE as u64) * 7 / 10;

pub struct Cx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub shard: u64,
    pub nshards: u64,
    pub shm: &'static mut Shm,
    pub rng: u64,
    /// of the description of the running case
    pub case_hash: u64,
    pub scratch: String,
    pub transitions: u64,
    pub traces: u64,
    pub deepest: u64,
    only: Option<u64>,
    idx: u64,
    slot: *mut Slot,
    glob: *mut Global,
    set: *mut u64,
    counts: BTreeMap<String, u64>,
    limit_ms: u64,
    nsample: usize,
    next_sample: u64,
    pub exhaustive: bool,
}

pub fn hash(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for &c in b {
        h ^= c as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^= h >> 29;
    h = h.wrapping_mul(0xbf58476d1ce4e5b9);
    h ^= h >> 32;
    h | 1
}

impl Cx {
    pub fn count(&mut self, name: &str, n: u64) {
        match self.counts.get_mut(name) {
            Some(v) => *v += n,
            None => {
                self.counts.insert(name.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, name: &str, n: u64) {
        let name = format!("max_{name}");
        let v = self.counts.entry(name).or_insert(0);
        *v = (*v).max(n);
    }
    /// Records a state (its canonical form); returns whether it is new.
    pub fn state(&mut self, canon: &[u8]) -> bool {
        let h = hash(canon);
        unsafe {
            let g = &*self.glob;
            let mut i = (h as usize) & (SETSIZE - 1);
            loop {
                let c = &*(self.set.add(i) as *const AtomicU64);
                let v = c.load(SeqCst);
                if v == h {
                    return false;
                }
                if v == 0 {
                    if g.nstate.load(SeqCst) >= SETMAX {
                        g.full.store(1, SeqCst);
                        return true;
                    }
                    match c.compare_exchange(0, h, SeqCst, SeqCst) {
                        Ok(_) => {
                            g.nstate.fetch_add(1, SeqCst);
                            return true;
                        }
                        Err(o) if o == h => return false,
                        Err(_) => {}
                    }
                }
                i = (i + 1) & (SETSIZE - 1);
            }
        }
    }
    /// Wall time after which a case counts as not terminating.
    pub fn case_limit(&mut self, ms: u64) {
        self.limit_ms = ms;
    }
    /// Whether the next case belongs to this shard (lets generators skip work).
    pub fn mine(&self) -> bool {
        match self.only {
            Some(o) => self.idx == o,
            None => self.idx % self.nshards == self.shard,
        }
    }
    /// Whether this worker is the one for a piece of work with this hash.
    pub fn owns(&self, h: u64) -> bool {
        (h >> 8) % self.nshards == self.shard
    }
    pub fn skip(&mut self) {
        self.idx += 1;
    }
    pub fn index(&self) -> u64 {
        self.idx
    }
    /// Runs `f` as the next case if it belongs to this shard. Err: the property is violated.
    pub fn case(&mut self, desc: &[u8], f: impl FnOnce(&mut Cx) -> Result<(), String>) {
        if !self.mine() {
            self.idx += 1;
            return;
        }
        self.forced(desc, f);
        self.idx += 1;
    }
    /// Runs `f` as the next case in every worker (`f` divides the work).
    pub fn all(&mut self, desc: &[u8], f: impl FnOnce(&mut Cx) -> Result<(), String>) {
        if self.only.map_or(true, |o| o == self.idx) {
            self.forced(desc, f);
        }
        self.idx += 1;
    }
    /// Runs `f` in every shard (the caller divides the work).
    pub fn forced(&mut self, desc: &[u8], f: impl FnOnce(&mut Cx) -> Result<(), String>) {
        let idx = self.idx;
        self.case_hash = hash(desc);
        unsafe {
            if idx > (*self.glob).stop_at.load(SeqCst) {
                self.finish(2);
            }
            let s = &mut *self.slot;
            let n = desc.len().min(TEXT);
            s.desc[..n].copy_from_slice(&desc[..n]);
            s.dlen.store(n as u64, SeqCst);
            s.index.store(idx, SeqCst);
            s.limit_ms.store(self.limit_ms, SeqCst);
            s.beat.fetch_add(1, SeqCst);
            s.state.store(1, SeqCst);
            if self.shard == 0 && idx >= self.next_sample && self.nsample < NSAMPLE {
                let k = n.min(SAMPLE);
                s.sample[self.nsample][..k].copy_from_slice(&desc[..k]);
                s.slen[self.nsample].store(k as u64, SeqCst);
                self.nsample += 1;
                s.nsample.store(self.nsample as u32, SeqCst);
                self.next_sample = (idx + 1) * 6;
            }
        }
        let r = f(self);
        self.count("evaluations", 1);
        unsafe {
            (*self.slot).beat.fetch_add(1, SeqCst);
            (*self.slot).state.store(0, SeqCst);
        }
        if let Err(m) = r {
            self.violate(&m);
        }
    }
    /// Overwrites the description of the running case (for cases that enumerate inside).
    pub fn redescribe(&mut self, desc: &[u8]) {
        unsafe {
            let s = &mut *self.slot;
            let n = desc.len().min(TEXT);
            s.desc[..n].copy_from_slice(&desc[..n]);
            s.dlen.store(n as u64, SeqCst);
            s.beat.fetch_add(1, SeqCst);
        }
    }
    pub fn violate(&mut self, m: &str) -> ! {
        unsafe {
            let s = &mut *self.slot;
            let n = m.len().min(TEXT);
            s.msg[..n].copy_from_slice(&m.as_bytes()[..n]);
            s.mlen.store(n as u64, SeqCst);
            (*self.glob).stop_at.fetch_min(s.index.load(SeqCst), SeqCst);
        }
        self.finish(3)
    }
    /// The harness itself cannot go on (never a verdict).
    pub fn broken(&mut self, m: &str) -> ! {
        unsafe {
            let s = &mut *self.slot;
            let n = m.len().min(TEXT);
            s.msg[..n].copy_from_slice(&m.as_bytes()[..n]);
            s.mlen.store(n as u64, SeqCst);
        }
        self.finish(4)
    }
    fn finish(&mut self, code: u32) -> ! {
        self.count("transitions", 0);
        let t = self.transitions;
        self.count("transitions", t);
        let t = self.traces;
        self.count("traces", t);
        let t = self.deepest;
        self.max("depth", t);
        let mut text = String::new();
        for (k, v) in &self.counts {
            text.push_str(&format!("{k}\t{v}\n"));
        }
        unsafe {
            let s = &mut *self.slot;
            let n = text.len().min(TEXT);
            s.counts[..n].copy_from_slice(&text.as_bytes()[..n]);
            s.clen.store(n as u64, SeqCst);
            s.state.store(code, SeqCst);
            libc::_exit(0)
        }
    }
    /// deterministic pseudo random numbers, only for choosing samples and seeds
    pub fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }
}

pub struct Report {
    pub violation: Option<(u64, String, String)>, // index, description, message
    pub error: Option<String>,
    pub states: u64,
    pub states_capped: bool,
    pub counts: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub total_cases: u64,
}

fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

pub fn run(prop: &str, thorough: bool, seed: u64, only: Option<u64>, scratch: &str, body: fn(&mut Cx)) -> Report {
    let nshards: usize = if only.is_some() {
        1
    } else {
        std::env::var("AMC_SHARDS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16))
    };
    let glob = map_shared(std::mem::size_of::<Global>()) as *mut Global;
    unsafe { (*glob).stop_at.store(u64::MAX, SeqCst) };
    let set = map_shared(SETSIZE * 8) as *mut u64;
    let slots = map_shared(std::mem::size_of::<Slot>() * nshards) as *mut Slot;
    let mut pids = Vec::new();
    for i in 0..nshards {
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            unsafe {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            }
            let dir = format!("{scratch}/{i}");
            let _ = std::fs::create_dir_all(&dir);
            let mut cx = Cx {
                prop: prop.to_string(),
                thorough,
                seed,
                shard: i as u64,
                nshards: nshards as u64,
                shm: Shm::alloc(),
                case_hash: 1,
                rng: (seed + 1).wrapping_mul(0x9E3779B97F4A7C15) | 1,
                scratch: dir,
                transitions: 0,
                traces: 0,
                deepest: 0,
                only,
                idx: 0,
                slot: unsafe { slots.add(i) },
                glob,
                set,
                counts: BTreeMap::new(),
                limit_ms: 20_000,
                nsample: 0,
                next_sample: 0,
                exhaustive: true,
            };
            crate::sut::init(cx.shm);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body(&mut cx)));
            let msg = crate::sut::last_panic();
            match r {
                Ok(()) => {
                    let n = cx.idx;
                    cx.max("cases", n);
                    cx.finish(2)
                }
                Err(_) => cx.broken(&format!("the harness panicked: {msg}")),
            }
        }
        pids.push(pid);
    }
    let mut done = vec![false; nshards];
    // beat, moment of the beat, processor time at the beat
    let mut beat = vec![(0u64, Instant::now(), 0u64); nshards];
    let mut viol: Option<(u64, String, String)> = None;
    let mut error = None;
    let slot = |i: usize| unsafe { &mut *slots.add(i) };
    let desc = |i: usize| lossy(&slot(i).desc[..slot(i).dlen.load(SeqCst) as usize]);
    let mut note = |v: (u64, String, String)| {
        unsafe { (*glob).stop_at.fetch_min(v.0, SeqCst) };
        if viol.as_ref().map_or(true, |o| v.0 < o.0) {
            viol = Some(v)
        }
    };
    while done.iter().any(|d| !d) {
        for i in 0..nshards {
            if done[i] {
                continue;
            }
            let mut st = 0;
            let r = unsafe { libc::waitpid(pids[i], &mut st, libc::WNOHANG) };
            let s = slot(i);
            if r == pids[i] {
                done[i] = true;
                let state = s.state.load(SeqCst);
                let idx = s.index.load(SeqCst);
                match state {
                    2 => {}
                    3 => note((idx, desc(i), lossy(&s.msg[..s.mlen.load(SeqCst) as usize]))),
                    4 => error = Some(lossy(&s.msg[..s.mlen.load(SeqCst) as usize])),
                    1 => {
                        let how = if libc::WIFSIGNALED(st) { format!("killed by signal {}", libc::WTERMSIG(st)) } else { format!("exit status {}", libc::WEXITSTATUS(st)) };
                        if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGKILL {
                            error = Some(format!("a worker was killed in case {idx} (out of memory?)"));
                        } else {
                            note((idx, desc(i), format!("the process died in this case ({how})")))
                        }
                    }
                    _ => error = Some(format!("a worker died outside a case (wait status {st})")),
                }
                continue;
            }
            let b = s.beat.load(SeqCst);
            if b != beat[i].0 || s.state.load(SeqCst) != 1 {
                beat[i] = (b, Instant::now(), 0);
            } else if over(&mut beat[i], pids[i], s.limit_ms.load(SeqCst).max(1000)) {
                unsafe { libc::kill(pids[i], libc::SIGKILL) };
                let mut st = 0;
                unsafe { libc::waitpid(pids[i], &mut st, 0) };
                done[i] = true;
                note((s.index.load(SeqCst), desc(i), format!("no answer within {} ms: the case does not terminate", s.limit_ms.load(SeqCst))));
            }
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    let mut counts = BTreeMap::new();
    let mut samples = Vec::new();
    for i in 0..nshards {
        let s = slot(i);
        for l in lossy(&s.counts[..s.clen.load(SeqCst) as usize]).lines() {
            if let Some((k, v)) = l.split_once('\t') {
                let v: u64 = v.parse().unwrap_or(0);
                let e = counts.entry(k.to_string()).or_insert(0u64);
                if k.starts_with("max_") {
                    *e = (*e).max(v)
                } else {
                    *e += v
                }
            }
        }
        for k in 0..s.nsample.load(SeqCst) as usize {
            samples.push(lossy(&s.sample[k][..s.slen[k].load(SeqCst) as usize]));
        }
    }
    Report {
        violation: viol,
        error,
        states: unsafe { (*glob).nstate.load(SeqCst) },
        states_capped: unsafe { (*glob).full.load(SeqCst) != 0 },
        total_cases: counts.get("max_cases").copied().unwrap_or(0),
        counts,
        samples,
    }
}
/// A case gets its limit of processor time, and several times that of the clock, which other work slows down.
fn over(beat: &mut (u64, Instant, u64), pid: i32, limit: u64) -> bool {
    let wall = beat.1.elapsed().as_millis() as u64;
    if beat.2 == 0 {
        if wall > 1000 {
            beat.2 = crate::e2::cpu_ms(pid).max(1);
        }
        return false;
    }
    wall > limit && crate::e2::cpu_ms(pid).saturating_sub(beat.2) > limit || wall > 10 * limit
}
