//! Runs of the real program under a controlled environment: a fork server inside the process
//! (rt/amrt.c) starts every execution from the same image; the runtime answers its system calls and
//! decides which thread runs. Executions are enumerated by depth first search over the decisions.
use crate::pool::{hash, Cx};
use crate::rt::*;
use std::ffi::CString;
use std::os::unix::ffi::OsStrExt;

#[derive(Clone, PartialEq, Debug)]
pub enum Fin {
    Exit(i32),
    Signal(i32),
    Hang,     // no answer in real time
    Deadlock, // nothing can happen any more
    Horizon,
    Spin, // reads the end of its input again and again
    Diverge,
}
struct Server {
    pid: i32,
    cmd: i32,
    st: i32,
    key: Vec<String>,
}
pub struct Proc {
    pub shm: &'static mut Shm,
    path: String,
    pub dir: String,
    server: Option<Server>,
    pub env: Vec<(String, String)>,
    pub limit_ms: i32,
}
impl Drop for Proc {
    fn drop(&mut self) {
        self.stop();
    }
}
impl Proc {
    pub fn new(cx: &Cx) -> Proc {
        let path = format!("{}/shm", cx.scratch);
        let size = std::mem::size_of::<Shm>();
        let c = CString::new(path.clone()).unwrap();
        let shm = unsafe {
            let fd = libc::open(c.as_ptr(), libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC | libc::O_CLOEXEC, 0o600);
            assert!(fd >= 0 && libc::ftruncate(fd, size as i64) == 0, "shared memory file");
            let p = libc::mmap(std::ptr::null_mut(), size, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
            assert!(p != libc::MAP_FAILED);
            libc::close(fd);
            &mut *(p as *mut Shm)
        };
        shm.cfg.clear();
        // one thread runs at a time: on one processor the hand over is cheap
        unsafe {
            let mut have: libc::cpu_set_t = std::mem::zeroed();
            let size = std::mem::size_of::<libc::cpu_set_t>();
            if libc::sched_getaffinity(0, size, &mut have) == 0 {
                let cpus: Vec<usize> = (0..1024).filter(|c| libc::CPU_ISSET(*c, &have)).collect();
                if cpus.len() as u64 >= cx.nshards {
                    let mut set: libc::cpu_set_t = std::mem::zeroed();
                    libc::CPU_SET(cpus[cx.shard as usize % cpus.len()], &mut set);
                    libc::sched_setaffinity(0, size, &set);
                }
            }
        }
        let dir = format!("{}/work", cx.scratch);
        std::fs::create_dir_all(&dir).unwrap();
        Proc { shm, path, dir, server: None, env: vec![], limit_ms: 15_000 }
    }
    pub fn stop(&mut self) {
        if let Some(s) = self.server.take() {
            unsafe {
                libc::close(s.cmd);
                libc::close(s.st);
                let mut st = 0;
                libc::waitpid(s.pid, &mut st, 0);
            }
        }
    }
    /// Prepares a world for the next runs: sequential defaults, all scheduling points.
    pub fn world(&mut self) -> &mut Cfg {
        let c = &mut self.shm.cfg;
        c.clear();
        c.mode = M_SCHED;
        c.default_open = 1;
        c.seed = 1;
        c.set_filedir(&format!("{}/rec", self.dir));
        c
    }
    pub fn file(&self, name: &str, text: &str) {
        let p = format!("{}/{name}", self.dir);
        if let Some(d) = std::path::Path::new(&p).parent() {
            std::fs::create_dir_all(d).unwrap();
        }
        std::fs::write(p, text).unwrap();
    }
    pub fn recdir(&self) {
        std::fs::create_dir_all(format!("{}/rec", self.dir)).unwrap();
    }
    fn start(&mut self, args: &[&str]) {
        let mut key: Vec<String> = args.iter().map(|s| s.to_string()).collect();
        for (k, v) in &self.env {
            key.push(format!("\0{k}={v}"));
        }
        if self.server.as_ref().map_or(false, |s| s.key == key) {
            return;
        }
        self.stop();
        let root = crate::report::root();
        let exe = CString::new(format!("{root}/build/bin/release/basjoofan")).unwrap();
        let mut argv: Vec<CString> = vec![CString::new("basjoofan").unwrap()];
        for a in args {
            argv.push(CString::new(std::ffi::OsStr::new(a).as_bytes()).expect("argument"));
        }
        let mut env = vec![
            CString::new(format!("AMRT_SHM={}", self.path)).unwrap(),
            CString::new(format!("LD_PRELOAD={root}/build/libamrt.so")).unwrap(),
            CString::new(format!("SSL_CERT_FILE={root}/certs/ca.pem")).unwrap(),
            CString::new("PATH=/usr/bin:/bin").unwrap(),
            CString::new("NO_COLOR=1").unwrap(),
            CString::new("MALLOC_ARENA_MAX=1").unwrap(),
            CString::new("MALLOC_TOP_PAD_=1048576").unwrap(),
        ];
        for (k, v) in &self.env {
            env.push(CString::new(format!("{k}={v}")).unwrap());
        }
        let dir = CString::new(self.dir.clone()).unwrap();
        let pa: Vec<*const libc::c_char> = argv.iter().map(|c| c.as_ptr()).chain([std::ptr::null()]).collect();
        let pe: Vec<*const libc::c_char> = env.iter().map(|c| c.as_ptr()).chain([std::ptr::null()]).collect();
        let null = CString::new("/dev/null").unwrap();
        unsafe {
            let (mut a, mut b) = ([0i32; 2], [0i32; 2]);
            assert!(libc::pipe2(a.as_mut_ptr(), libc::O_CLOEXEC) == 0 && libc::pipe2(b.as_mut_ptr(), libc::O_CLOEXEC) == 0, "pipe");
            let pid = libc::fork();
            assert!(pid >= 0, "fork");
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::personality(0x0040000); // no address randomisation
                let n = libc::open(null.as_ptr(), libc::O_RDWR);
                for i in 0..3 {
                    libc::dup2(n, i);
                }
                libc::dup2(a[0], 198);
                libc::dup2(b[1], 199);
                if libc::chdir(dir.as_ptr()) != 0 {
                    libc::_exit(95);
                }
                libc::execve(exe.as_ptr(), pa.as_ptr(), pe.as_ptr());
                libc::_exit(94);
            }
            libc::close(a[0]);
            libc::close(b[1]);
            self.server = Some(Server { pid, cmd: a[1], st: b[0], key });
        }
    }
    /// The end of a run: it gets `limit_ms` of processor time, not of a clock that other work slows down; one that
    /// uses none for some seconds is stuck.
    fn patient(&self, pid: i32) -> Option<i32> {
        let t0 = std::time::Instant::now();
        let mut last = (0, t0);
        loop {
            if let Some(s) = self.get(1000) {
                return Some(s);
            }
            let (cpu, limit) = (cpu_ms(pid), self.limit_ms as u64);
            if cpu != last.0 || !asleep(pid) {
                last = (cpu, std::time::Instant::now());
            }
            let wall = t0.elapsed().as_millis() as u64;
            if wall > limit && (cpu > limit || last.1.elapsed().as_secs() > 8) || wall > 8 * limit {
                return None;
            }
        }
    }
    fn get(&self, ms: i32) -> Option<i32> {
        let s = self.server.as_ref().unwrap();
        let mut b = [0u8; 4];
        let mut n = 0;
        while n < 4 {
            unsafe {
                let mut p = libc::pollfd { fd: s.st, events: libc::POLLIN, revents: 0 };
                let r = libc::poll(&mut p, 1, ms);
                if r <= 0 {
                    return None;
                }
                let k = libc::read(s.st, b[n..].as_mut_ptr() as *mut _, 4 - n);
                if k <= 0 {
                    return Some(i32::MIN);
                }
                n += k as usize;
            }
        }
        Some(i32::from_ne_bytes(b))
    }
    /// One execution of `args` following `prefix`, then the first option everywhere.
    pub fn run(&mut self, args: &[&str], prefix: &[u16]) -> Result<Fin, String> {
        self.start(args);
        if prefix.len() > MAXPREFIX {
            return Ok(Fin::Horizon);
        }
        let c = &mut self.shm.cfg;
        c.nprefix = prefix.len() as u32;
        c.prefix[..prefix.len()].copy_from_slice(prefix);
        unsafe {
            let s = self.server.as_ref().unwrap();
            if libc::write(s.cmd, b"r".as_ptr() as *const _, 1) != 1 {
                return Err("the fork server is gone".into());
            }
        }
        let pid = match self.get(8 * self.limit_ms) {
            Some(p) if p > 0 => p,
            _ => return Err("the fork server does not answer".into()),
        };
        let st = match self.patient(pid) {
            Some(i32::MIN) => return Err("the fork server died".into()),
            Some(s) => s,
            None => {
                unsafe { libc::kill(pid, libc::SIGKILL) };
                if self.get(60_000).is_none() {
                    return Err("a run cannot be stopped".into());
                }
                return Ok(Fin::Hang);
            }
        };
        Ok(match self.shm.tr.status {
            77 => Fin::Deadlock,
            78 => Fin::Horizon,
            79 => Fin::Spin,
            80 => Fin::Diverge,
            _ if libc::WIFSIGNALED(st) => Fin::Signal(libc::WTERMSIG(st)),
            _ => Fin::Exit(libc::WEXITSTATUS(st)),
        })
    }
}

/// Whether every thread of a process sleeps: none runs, waits for a processor or for a disk.
fn asleep(pid: i32) -> bool {
    let Ok(tasks) = std::fs::read_dir(format!("/proc/{pid}/task")) else { return true };
    tasks.flatten().all(|t| match std::fs::read_to_string(t.path().join("stat")) {
        Ok(s) => !matches!(s.rsplit(") ").next().and_then(|r| r.chars().next()), Some('R' | 'D')),
        Err(_) => true,
    })
}
/// Processor time of a process so far.
pub fn cpu_ms(pid: i32) -> u64 {
    unsafe {
        let mut c = 0;
        let mut t: libc::timespec = std::mem::zeroed();
        if libc::clock_getcpuclockid(pid, &mut c) != 0 || libc::clock_gettime(c, &mut t) != 0 {
            return 0;
        }
        t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000
    }
}
pub fn text(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}
/// The events of a run, for people.
pub fn story(t: &Trace) -> String {
    let mut s = String::new();
    for e in t.events().iter().take(400) {
        let d = text(&t.data(e)[..(e.len as usize).min(120)]);
        let name = match e.typ {
            E_CONNECT => "connect",
            E_SEND => "send",
            E_RECV => "recv",
            E_REQ => "request",
            E_OUT => "stdout",
            E_ERR => "stderr",
            E_FILE => "file",
            E_OPEN => "open",
            E_TSTART => "thread",
            E_TEND => "end",
            E_SLEEP => "sleep",
            E_WAKE => "wake",
            E_SIGNAL => "SIGINT",
            E_DEADLOCK => "deadlock",
            E_RESOLVE => "resolve",
            E_STDIN => "stdin",
            E_CLOSE => "close",
            E_HANDLER => "handler",
            E_TOK => continue,
            _ => "event",
        };
        s.push_str(&format!("{:>9.3}ms t{} {name} {} {} {:?}\n", (e.t as f64 - 1e12) / 1e6, e.tid, e.a, e.b, d));
    }
    s
}
/// Depth first search over all decisions with at most `dev` deviations from the first options.
/// `judge` sees every execution once (over all workers).
pub struct Search<'a> {
    pub args: &'a [&'a str],
    pub dev: usize,
    /// executions after which the deviation bound is not raised further
    pub budget: u64,
    /// all workers run this search together (else: this worker alone)
    pub split: bool,
}
pub fn search(cx: &mut Cx, p: &mut Proc, s: &Search, desc: &str, judge: &mut dyn FnMut(&mut Cx, &Trace, &Fin) -> Result<(), String>) {
    // what the undisturbed execution offers decides how many deviations fit the budget
    let mut alts = 0u64;
    match p.run(s.args, &[]) {
        Ok(_) => {
            for c in p.shm.tr.choices() {
                alts += c.n as u64 - 1;
            }
        }
        Err(e) => cx.broken(&format!("{desc}: {e}")),
    }
    let mut dev = 0;
    let mut size = 1f64;
    let mut total = 1f64;
    while dev < s.dev {
        size = size * (alts as f64) / (dev as f64 + 1.0);
        total += size;
        if total > s.budget as f64 && dev > 0 {
            break;
        }
        dev += 1;
    }
    if !s.split || cx.shard == 0 {
        cx.count(&format!("scenarios_with_up_to_{dev}_deviations"), 1);
    }
    cx.max("decision_points", p.shm.tr.choices().len() as u64);
    let mut stack: Vec<(Vec<u16>, usize)> = vec![(vec![], 0)];
    while let Some((prefix, used)) = stack.pop() {
        let mut key = desc.as_bytes().to_vec();
        for c in &prefix {
            key.extend_from_slice(&c.to_le_bytes());
        }
        let own = !s.split || cx.owns(hash(&key));
        if used >= 2 && !own {
            // a subtree is explored by the worker that owns its first two deviations
            if used == 2 {
                continue;
            }
        }
        if used == dev && used < 2 && !own {
            continue;
        }
        let fin = match p.run(s.args, &prefix) {
            Ok(f) => f,
            Err(e) => cx.broken(&format!("{desc}: {e}")),
        };
        if fin == Fin::Diverge {
            cx.broken(&format!("{desc}: replay of {prefix:?} diverged"));
        }
        if used >= 2 || own {
            cx.traces += 1;
            cx.transitions += p.shm.tr.nev as u64;
            cx.count("executions", 1);
            cx.deepest = cx.deepest.max(p.shm.tr.nchoice as u64);
            if cx.traces % 64 == 0 {
                cx.redescribe(format!("{desc}\ndecisions {prefix:?}").as_bytes());
            }
            let mut h = Vec::new();
            for e in p.shm.tr.events() {
                h.extend_from_slice(&e.typ.to_le_bytes());
                h.extend_from_slice(&e.tid.to_le_bytes());
                h.extend_from_slice(&e.a.to_le_bytes());
            }
            h.extend_from_slice(desc.as_bytes());
            cx.state(&h);
            if let Err(m) = judge(cx, &p.shm.tr, &fin) {
                cx.redescribe(format!("{desc}\ndecisions {prefix:?}").as_bytes());
                cx.violate(&format!("{m}\n\narguments {:?}\nend {fin:?}\n{}", s.args, story(&p.shm.tr)));
            }
        }
        if used < dev {
            let ch: Vec<Choice> = p.shm.tr.choices().to_vec();
            let chosen: Vec<u16> = ch.iter().map(|c| c.chosen as u16).collect();
            for i in prefix.len()..ch.len() {
                for alt in 1..ch[i].n as u16 {
                    let mut q = chosen[..i].to_vec();
                    q.push(alt);
                    stack.push((q, used + 1));
                }
            }
        }
    }
}
