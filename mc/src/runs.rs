//! C21 to C27, C29: runs of the real program with controlled threads, time, signals and network.
//! A scenario is a set of tests in a small statement language; `model` says what one thread of it does.
use crate::avro;
use crate::lang::{self, V};
use crate::e2::{search, story, text, Fin, Proc, Search};
use crate::pool::Cx;
use crate::rt::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};

const MS: u64 = 1_000_000;
const SEC: u64 = 1_000_000_000;

#[derive(Clone, Debug, PartialEq)]
pub enum St {
    Call(&'static str),
    /// inside another expression, twice
    Twice(&'static str),
    /// as an argument of something that fails afterwards
    Arg(&'static str),
    Let(&'static str, i64),
    Inc(&'static str),
    Print(&'static str),
    Fail,
    FailAt(&'static str, i64),
    CallAt(&'static str, i64, &'static str),
    Skip(&'static str),
    /// fails after the call when the server answered 500
    Check(&'static str),
    /// prints a variable
    Show(&'static str),
}
use St::*;
impl St {
    fn src(&self) -> String {
        match self {
            Call(r) => format!("{r}();"),
            Twice(r) => format!("let z = [{r}(), {r}()];"),
            Arg(r) => format!("length({r}().status);"),
            Let(v, n) => format!("let {v} = {n};"),
            Inc(v) => format!("let {v} = {v} + 1;"),
            Print(t) => format!("println(\"{t}\");"),
            Fail => "1 + \"a\";".into(),
            FailAt(v, n) => format!("if ({v} == {n}) {{ 1 + \"a\"; }}"),
            CallAt(v, n, r) => format!("if ({v} == {n}) {{ {r}(); }}"),
            Skip(r) => format!("if (false) {{ {r}(); }} else {{ 1; }}"),
            Check(r) => format!("let z = {r}(); if (z.status == 500) {{ 1 + \"a\"; }}"),
            Show(v) => format!("println(\"pv{{x}}\", {v});"),
        }
    }
}
fn src(b: &[St]) -> String {
    b.iter().map(|s| s.src()).collect::<Vec<_>>().join(" ")
}
pub type Env = BTreeMap<&'static str, i64>;
#[derive(Clone, Debug, PartialEq)]
pub struct Called {
    pub name: &'static str,
    pub target: String,
    pub status: i64,
    pub body: String,
    pub pass: bool,
    pub error: bool,
}
#[derive(Clone, Debug, Default)]
pub struct Iter {
    pub calls: Vec<Called>,
    pub prints: Vec<String>,
    pub failed: bool,
}
/// How the server answers a target.
#[derive(Clone, Debug)]
pub struct Answer {
    pub key: String,
    pub status: i64,
    pub body: String,
    pub delay: u64,
    pub reset: bool,
    pub uses: i32,
}
pub fn answer(key: &str, status: i64, body: &str, delay: u64) -> Answer {
    Answer { key: key.into(), status, body: body.into(), delay, reset: false, uses: 0 }
}
#[derive(Clone, Debug)]
pub struct Scenario {
    pub top: Vec<St>,
    pub tests: Vec<(&'static str, Vec<St>)>,
    pub answers: Vec<Answer>,
    pub name: Option<&'static str>,
    pub threads: u32,
    pub number: u32,
    pub duration: Option<u32>,
    pub record: bool,
    pub stat: bool,
    pub feat: u32,
    pub kinds: u32,
    pub signals: i32,
    /// deliver the signal as soon as this many requests have been sent
    pub at: i32,
    pub seed: u64,
}
/// The requests every scenario may call: name, expected status of its first assertion.
/// Further ones are called q0, q1, ...
const REQS: [(&str, i64); 4] = [("a", 200), ("b", 201), ("c", 200), ("dd", 200)];
/// Names that are nearly the same.
const NEAR: [&str; 23] = [
    "a", "A", "aa", "aA", "_a", "a_", "a1", "a01", "a10", "b", "B1", "b1", "status", "Status", "statu", "request_1", "requests", "x_y", "xy", "x__y", "total", "count", "avg",
];
fn want_status(name: &str) -> Option<i64> {
    match REQS.iter().find(|r| r.0 == name) {
        Some(r) => Some(r.1),
        None if NEAR.contains(&name) => Some(200),
        None => name.strip_prefix('q')?.parse::<u32>().ok().map(|_| 200),
    }
}
fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

impl Scenario {
    /// An estimate of how long it takes, from below.
    fn planned(&self) -> u64 {
        let slow = self.answers.iter().map(|a| a.delay).max().unwrap_or(0);
        let run = slow.saturating_mul((self.number / self.threads.max(1)) as u64);
        run.max(self.duration.map_or(0, |d| d as u64 * SEC))
    }
    pub fn new(tests: &[(&'static str, Vec<St>)]) -> Scenario {
        Scenario {
            top: vec![],
            tests: tests.to_vec(),
            answers: vec![],
            name: None,
            threads: 1,
            number: 1,
            duration: None,
            record: false,
            stat: false,
            feat: 0,
            kinds: P_ALL,
            signals: 0,
            at: 0,
            seed: 1,
        }
    }
    pub fn named(mut self, name: &'static str, threads: u32, number: u32) -> Self {
        self.name = Some(name);
        self.threads = threads;
        self.number = number;
        self
    }
    pub fn source(&self) -> String {
        let mut s = String::new();
        let mut more: BTreeSet<&str> = BTreeSet::new();
        for b in self.tests.iter().map(|t| &t.1).chain([&self.top]) {
            for st in b {
                match st {
                    Call(r) | Twice(r) | Arg(r) | CallAt(_, _, r) | Skip(r) | Check(r) if !REQS.iter().any(|q| q.0 == *r) => {
                        more.insert(r);
                    }
                    _ => {}
                }
            }
        }
        for (n, st) in REQS.into_iter().chain(more.into_iter().map(|r| (r, 200))) {
            s.push_str(&format!("request {n}`GET http://h/{n}?v={{v}}&w={{w}}.`[status == {st}, body != \"-\"]\n"));
        }
        s.push_str(&src(&self.top));
        for (n, b) in &self.tests {
            s.push_str(&format!("\ntest {n} {{ {} }}", src(b)));
        }
        s.push('\n');
        s
    }
    pub fn args(&self) -> Vec<String> {
        let mut v = vec!["test".to_string()];
        if let Some(n) = self.name {
            v.push(n.into());
            if self.threads != 1 {
                v.extend(["--threads".into(), self.threads.to_string()]);
            }
            if self.number != 1 {
                v.extend(["--number".into(), self.number.to_string()]);
            }
        }
        if let Some(d) = self.duration {
            v.extend(["--duration".into(), format!("{d}s")]);
        }
        v.extend(["--path".into(), "a.fan".into()]);
        if self.record {
            v.extend(["--record".into(), "rec".into()]);
        }
        if self.stat {
            v.push("--stat".into());
        }
        v
    }
    pub fn setup(&self, p: &mut Proc) {
        p.file("a.fan", &self.source());
        if self.record {
            p.recdir();
        }
        let dir = p.dir.clone();
        let c = p.world();
        c.seed = self.seed;
        c.feat = self.feat;
        c.sched_kinds = self.kinds;
        c.sig_max = self.signals;
        c.sig_at = self.at;
        c.set_filedir("rec");
        let _ = dir;
        c.add_host("", &[v4(10, 0, 0, 1)]);
        for a in &self.answers {
            let r = c.add_rule(a.key.as_bytes(), format!("HTTP/1.1 {} X\r\n\r\n{}", a.status, a.body).as_bytes());
            r.delay_ns = a.delay;
            r.max_uses = a.uses;
            if a.reset {
                r.fail_after = 0;
                r.fail_errno = libc::ECONNRESET;
            }
        }
        c.add_rule(b"", b"HTTP/1.1 200 X\r\n\r\nd");
    }
    fn called(&self, name: &'static str, env: &Env) -> Called {
        let t = |v| env.get(v).map_or("null".to_string(), |i: &i64| i.to_string());
        let target = format!("/{name}?v={}&w={}.", t("v"), t("w"));
        let (mut status, mut body, mut error) = (200, "d".to_string(), false);
        for a in &self.answers {
            if target.contains(&a.key) {
                if a.reset {
                    (status, body, error) = (0, String::new(), true);
                } else {
                    (status, body) = (a.status, a.body.clone());
                }
                break;
            }
        }
        let want = want_status(name).unwrap();
        Called { name, target, status, pass: status == want && body != "-", body, error }
    }
    pub fn exec(&self, body: &[St], env: &mut Env) -> Iter {
        let mut it = Iter::default();
        for s in body {
            match s {
                Call(r) => it.calls.push(self.called(r, env)),
                Twice(r) => {
                    it.calls.push(self.called(r, env));
                    it.calls.push(self.called(r, env));
                }
                Arg(r) => {
                    it.calls.push(self.called(r, env));
                    it.failed = true;
                }
                Let(v, n) => {
                    env.insert(v, *n);
                }
                Inc(v) => match env.get_mut(v) {
                    Some(n) => *n += 1,
                    None => it.failed = true,
                },
                Print(t) => it.prints.push(t.to_string()),
                Show(v) => match env.get(v) {
                    Some(i) => it.prints.push(format!("pv{i}")),
                    None => it.failed = true,
                },
                Fail => it.failed = true,
                FailAt(v, n) => it.failed = env.get(v).map_or(true, |x| x == n),
                CallAt(v, n, r) => match env.get(v) {
                    Some(x) if x == n => it.calls.push(self.called(r, env)),
                    Some(_) => {}
                    None => it.failed = true,
                },
                Skip(_) => {}
                Check(r) => {
                    let c = self.called(r, env);
                    it.failed = c.status == 500;
                    it.calls.push(c);
                }
            }
            if it.failed {
                break;
            }
        }
        it
    }
    /// The top-level run: its effects, and the variables it leaves.
    pub fn model_top(&self) -> (Iter, Env) {
        let mut env = Env::new();
        let it = self.exec(&self.top, &mut env);
        (it, env)
    }
    pub fn model(&self, test: &str, env: &Env, n: u32) -> Vec<Iter> {
        let body = &self.tests.iter().find(|t| t.0 == test).unwrap().1;
        let mut env = env.clone();
        let mut v = Vec::new();
        for _ in 0..n {
            let it = self.exec(body, &mut env);
            let f = it.failed;
            v.push(it);
            if f {
                break;
            }
        }
        v
    }
    /// What every thread does when nothing stops the run.
    pub fn threads_model(&self) -> Vec<(&'static str, Vec<Iter>)> {
        let (top, env) = self.model_top();
        if top.failed {
            return vec![];
        }
        match self.name {
            None => self.tests.iter().map(|(n, _)| (*n, self.model(n, &env, 1))).collect(),
            Some(n) if self.tests.iter().any(|t| t.0 == n) => {
                (0..self.threads).map(|t| (n, self.model(n, &env, self.number / self.threads + u32::from(t < self.number % self.threads)))).collect()
            }
            Some(_) => vec![],
        }
    }
    pub fn text(&self) -> String {
        format!("{}\n{:?} feat {} kinds {} seed {} answers {:?}", self.source(), self.args(), self.feat, self.kinds, self.seed, self.answers)
    }
}
// ------------------------------------------------------------------ observations
#[derive(Clone, Debug, PartialEq)]
pub struct Block {
    pub name: String,
    pub pass: bool,
    /// status and body shown by the assertion lines
    pub status: i64,
    pub body: String,
    pub total: u64,
}
#[derive(Default, Debug)]
pub struct Out {
    pub blocks: Vec<Block>,
    pub prints: Vec<String>,
    pub errors: Vec<String>,
    pub stats: BTreeMap<String, [u128; 5]>,
    pub stat_lines: usize,
    /// nothing but statistics after the first statistics line
    pub stats_last: bool,
}
fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
/// "(1.5ms)" in nanoseconds
pub fn duration(s: &str) -> Option<u64> {
    let s = s.strip_prefix('(')?.strip_suffix(')')?;
    let k = s.find(|c: char| !(c.is_ascii_digit() || c == '.'))?;
    let (n, u) = s.split_at(k);
    let unit: u64 = match u {
        "s" => SEC,
        "ms" => MS,
        "µs" => 1000,
        "ns" => 1,
        _ => return None,
    };
    let (a, b) = n.split_once('.').unwrap_or((n, ""));
    let mut v = a.parse::<u64>().ok()? * unit;
    let mut u = unit;
    for d in b.chars() {
        u /= 10;
        v += d.to_digit(10)? as u64 * u;
    }
    Some(v)
}
fn stat_line(l: &str) -> Option<(String, [u128; 5])> {
    let mut w = l.split_whitespace();
    let name = w.next()?.to_string();
    let mut v = [0; 5];
    for (i, k) in ["count=", "sum=", "avg=", "max=", "min="].iter().enumerate() {
        v[i] = w.next()?.strip_prefix(k)?.parse().ok()?;
    }
    if w.next().is_some() {
        return None;
    }
    Some((name, v))
}
/// Takes the standard output apart; an error says which line is out of place.
pub fn stdout(tr: &Trace) -> Result<Out, String> {
    let all = String::from_utf8(tr.out()).map_err(|_| "the output is no text".to_string())?;
    if !all.is_empty() && !all.ends_with('\n') {
        return Err(format!("the output ends inside a line: {all:?}"));
    }
    let mut o = Out { stats_last: true, ..Out::default() };
    let lines: Vec<&str> = all.lines().collect();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if let Some(n) = l.strip_prefix("=== TEST  ") {
            let bad = |m: &str, j: usize| format!("the report of {n} is not in one piece ({m}): {:?}", &lines[i..(j + 1).min(lines.len())]);
            let want = want_status(n).ok_or_else(|| format!("a report of an unknown request {n:?}"))?;
            let a = lines.get(i + 1).map(|l| squeeze(l)).unwrap_or_default();
            let rest = a.strip_prefix(&format!("status=={want}=>")).ok_or_else(|| bad("first assertion", i + 1))?;
            let (s, r1) = rest.split_once(&format!("=={want}=>")).ok_or_else(|| bad("first assertion", i + 1))?;
            let b = lines.get(i + 2).map(|l| squeeze(l)).unwrap_or_default();
            let rest = b.strip_prefix("body!=\"-\"=>").ok_or_else(|| bad("second assertion", i + 2))?;
            let (body, r2) = rest.split_once("!=-=>").ok_or_else(|| bad("second assertion", i + 2))?;
            let v = lines.get(i + 3).copied().unwrap_or("");
            let (pass, rest) = match (v.strip_prefix("--- PASS  "), v.strip_prefix("--- FAIL  ")) {
                (Some(r), _) => (true, r),
                (_, Some(r)) => (false, r),
                _ => return Err(bad("verdict", i + 3)),
            };
            let d = rest.strip_prefix(n).and_then(|r| r.strip_prefix(' ')).ok_or_else(|| bad("verdict", i + 3))?;
            if pass != (r1 == "true" && r2 == "true") {
                return Err(format!("the verdict of {n} is not that of its assertions: {:?}", &lines[i..i + 4]));
            }
            let total = duration(d).ok_or_else(|| bad("time", i + 3))?;
            o.blocks.push(Block { name: n.into(), pass, status: s.parse().map_err(|_| bad("status", i + 1))?, body: body.into(), total });
            o.stats_last &= o.stat_lines == 0;
            i += 4;
            continue;
        }
        if let Some((n, v)) = stat_line(l) {
            o.stat_lines += 1;
            o.stats.insert(n, v);
        } else {
            o.stats_last &= o.stat_lines == 0;
            if l.starts_with('p') {
                o.prints.push(l.into());
            } else {
                o.errors.push(l.into());
            }
        }
        i += 1;
    }
    Ok(o)
}
/// Whether `got` is a shuffle of the sequences.
pub fn shuffle<T: PartialEq + Clone>(got: &[T], seqs: &[Vec<T>]) -> bool {
    if got.len() != seqs.iter().map(|s| s.len()).sum::<usize>() {
        return false;
    }
    // sequences that repeat one and the same element: their interleavings are the one long sequence
    let mut merged: Vec<Vec<T>> = Vec::new();
    for s in seqs.iter().filter(|s| !s.is_empty()) {
        let plain = s.iter().all(|x| *x == s[0]);
        match merged.iter_mut().find(|m| plain && m.iter().all(|x| *x == s[0])) {
            Some(m) => m.extend(s.iter().cloned()),
            None => merged.push(s.clone()),
        }
    }
    let seqs = &merged[..];
    // equal sequences are interchangeable: the positions in them are kept in order
    let mut group = vec![0usize; seqs.len()];
    for i in 0..seqs.len() {
        group[i] = (0..i).find(|j| seqs[*j] == seqs[i]).unwrap_or(i);
    }
    let mut members: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    for (i, g) in group.iter().enumerate() {
        members.entry(*g).or_default().push(i);
    }
    let mut cur: HashSet<Vec<u32>> = HashSet::from([vec![0u32; seqs.len()]]);
    for g in got {
        let mut next = HashSet::new();
        for c in &cur {
            for (i, s) in seqs.iter().enumerate() {
                if s.get(c[i] as usize) == Some(g) {
                    let mut d = c.clone();
                    d[i] += 1;
                    let m = &members[&group[i]];
                    let mut at: Vec<u32> = m.iter().map(|k| d[*k]).collect();
                    at.sort();
                    for (k, x) in m.iter().zip(at) {
                        d[*k] = x;
                    }
                    next.insert(d);
                }
            }
        }
        if next.is_empty() {
            return false;
        }
        cur = next;
    }
    true
}
/// Requests sent: thread, time, event number, target.
pub fn requests(tr: &Trace) -> Vec<(u16, u64, usize, String)> {
    tr.events()
        .iter()
        .enumerate()
        .filter(|(_, e)| e.typ == E_REQ)
        .map(|(i, e)| {
            let d = text(tr.data(e));
            let line = d.lines().next().unwrap_or("");
            (e.tid, e.t, i, line.split(' ').nth(1).unwrap_or("").to_string())
        })
        .collect()
}
pub fn by_thread(tr: &Trace) -> BTreeMap<u16, Vec<String>> {
    let mut m: BTreeMap<u16, Vec<String>> = BTreeMap::new();
    for (t, _, _, s) in requests(tr) {
        m.entry(t).or_default().push(s);
    }
    m
}
/// The requests of the top-level code come first; the rest is, thread by thread, what `want` says.
fn same_requests(tr: &Trace, sc: &Scenario, want: &[Vec<String>]) -> Result<(), String> {
    let top: Vec<String> = sc.model_top().0.calls.iter().map(|c| c.target.clone()).collect();
    let mut rest: BTreeMap<u16, Vec<String>> = BTreeMap::new();
    for (i, (t, _, _, s)) in requests(tr).into_iter().enumerate() {
        if i < top.len() {
            if s != top[i] {
                return Err(format!("request {i} is {s:?}, the top-level code makes {top:?}"));
            }
        } else {
            rest.entry(t).or_default().push(s);
        }
    }
    let mut got: Vec<Vec<String>> = rest.into_values().collect();
    let mut want: Vec<Vec<String>> = want.iter().filter(|w| !w.is_empty()).cloned().collect();
    got.sort();
    want.sort();
    if got != want {
        return Err(format!("requests thread by thread:\n made     {got:?}\n expected {want:?}"));
    }
    Ok(())
}
fn targets(its: &[Iter]) -> Vec<String> {
    its.iter().flat_map(|i| i.calls.iter().map(|c| c.target.clone())).collect()
}
pub struct RecFile {
    pub path: String,
    pub bytes: Vec<u8>,
    pub writers: BTreeSet<u16>,
}
pub fn files(tr: &Trace) -> BTreeMap<i32, RecFile> {
    let mut m: BTreeMap<i32, RecFile> = BTreeMap::new();
    for e in tr.events() {
        match e.typ {
            E_OPEN if e.a >= 0 => {
                m.insert(e.a, RecFile { path: text(tr.data(e)), bytes: vec![], writers: BTreeSet::new() });
            }
            E_FILE => {
                if let Some(f) = m.get_mut(&e.a) {
                    f.bytes.extend_from_slice(tr.data(e));
                    f.writers.insert(e.tid);
                }
            }
            _ => {}
        }
    }
    m
}
fn ended(fin: &Fin) -> Result<(), String> {
    match fin {
        Fin::Exit(0) => Ok(()),
        f => Err(format!("the run did not end normally: {f:?}")),
    }
}
/// A run that only sleeps, in pieces too short for the trace to hold them all, and has not come to the moment at which it
/// should be over: it was followed up to here, and is judged no further.
pub fn unfinished(tr: &Trace, fin: &Fin, planned: u64) -> bool {
    let evs = tr.events();
    let last = &evs[evs.len().saturating_sub(1000)..];
    *fin == Fin::Horizon
        && last.len() == 1000
        && last.iter().all(|e| matches!(e.typ, E_SLEEP | E_WAKE | E_TOK | E_HORIZON))
        && last[0].t < last[900].t
        && last[900].t < 1_000_000_000_000u64.saturating_add(planned)
}
fn no_stderr(tr: &Trace) -> Result<(), String> {
    let e = text(&tr.cat(E_ERR));
    if e.is_empty() {
        Ok(())
    } else {
        Err(format!("unexpected output on standard error: {e:?}"))
    }
}
fn of_call(c: &Called) -> (String, bool, i64, String) {
    (c.name.to_string(), c.pass, c.status, c.body.clone())
}
fn of_block(b: &Block) -> (String, bool, i64, String) {
    (b.name.clone(), b.pass, b.status, b.body.clone())
}
/// Reports on standard output: exactly the calls of the threads.
fn same_blocks(o: &Out, threads: &[(&str, Vec<Iter>)]) -> Result<(), String> {
    let want: Vec<Vec<_>> = threads.iter().map(|(_, its)| its.iter().flat_map(|i| i.calls.iter().map(of_call)).collect()).collect();
    let got: Vec<_> = o.blocks.iter().map(of_block).collect();
    if !shuffle(&got, &want) {
        return Err(format!("reports on standard output:\n printed  {got:?}\n expected an interleaving of {want:?}"));
    }
    Ok(())
}
fn same_prints(o: &Out, sc: &Scenario, threads: &[(&str, Vec<Iter>)]) -> Result<(), String> {
    let top = sc.model_top().0.prints;
    if o.prints.len() < top.len() || o.prints[..top.len()] != top[..] {
        return Err(format!("printed {:?}, the top-level code prints {top:?} first", o.prints));
    }
    let want: Vec<Vec<String>> = threads.iter().map(|(_, its)| its.iter().flat_map(|i| i.prints.clone()).collect()).collect();
    if !shuffle(&o.prints[top.len()..], &want) {
        return Err(format!("printed {:?}, expected an interleaving of {want:?}", o.prints));
    }
    Ok(())
}
/// Error lines: one per failing iteration.
fn same_errors(o: &Out, sc: &Scenario, threads: &[(&str, Vec<Iter>)]) -> Result<(), String> {
    let want = usize::from(sc.model_top().0.failed) + threads.iter().flat_map(|t| &t.1).filter(|i| i.failed).count();
    if o.errors.len() != want {
        return Err(format!("{} error lines {:?}, {want} iterations fail", o.errors.len(), o.errors));
    }
    // the text of an error and its line break are printed as one
    if o.errors.iter().any(|e| e.is_empty()) {
        return Err(format!("the lines of errors are not whole: {:?}", o.errors));
    }
    Ok(())
}
/// Decodes the record files and compares them with the threads; `whole`: nothing was cut off.
fn same_records(tr: &Trace, threads: &[(&str, Vec<Iter>)]) -> Result<Vec<avro::Rec>, String> {
    let fs = files(tr);
    let mut got: Vec<Vec<(String, i64, i64, String, String, i64, String, bool, bool)>> = Vec::new();
    let mut all = Vec::new();
    let mut ids = BTreeSet::new();
    for f in fs.values() {
        let rs = avro::recs(&f.bytes).map_err(|e| format!("{}: {e}", f.path))?;
        let name = f.path.rsplit('/').next().unwrap_or("");
        let id: i64 = name.parse().map_err(|_| format!("record file {:?}", f.path))?;
        if !ids.insert(id) {
            return Err(format!("record file {name} is opened twice"));
        }
        for r in &rs {
            if r.thread != id {
                return Err(format!("file {name} has a record of thread {}", r.thread));
            }
        }
        got.push(
            rs.iter()
                .map(|r| {
                    let target = r.url.strip_prefix("http://h").unwrap_or(&r.url).to_string();
                    (r.test.clone(), r.number, r.order, r.name.clone(), target, r.status, r.rbody.clone(), r.asserts.iter().all(|a| a.4) && r.asserts.len() == 2, !r.error.is_empty())
                })
                .collect(),
        );
        all.extend(rs);
    }
    if ids.len() != threads.len() || ids.iter().enumerate().any(|(i, id)| i as i64 != *id) {
        return Err(format!("record files {ids:?} for {} threads", threads.len()));
    }
    let mut want: Vec<Vec<_>> = threads
        .iter()
        .map(|(test, its)| {
            its.iter()
                .enumerate()
                .flat_map(|(n, i)| {
                    i.calls
                        .iter()
                        .enumerate()
                        .map(move |(k, c)| (test.to_string(), n as i64, k as i64, c.name.to_string(), c.target.clone(), c.status, c.body.clone(), c.pass, c.error))
                })
                .collect()
        })
        .collect();
    got.sort();
    want.sort();
    if got != want {
        return Err(format!("records, file by file:\n decoded  {got:?}\n expected {want:?}"));
    }
    Ok(all)
}
/// The times in the reports are those of the records.
fn same_times(o: &Out, rs: &[avro::Rec]) -> Result<(), String> {
    let mut a: Vec<(String, u64)> = o.blocks.iter().map(|b| (b.name.clone(), b.total)).collect();
    let mut b: Vec<(String, u64)> = rs.iter().map(|r| (r.name.clone(), r.total as u64)).collect();
    a.sort();
    b.sort();
    if a != b {
        return Err(format!("times reported {a:?}, recorded {b:?}"));
    }
    Ok(())
}
fn refs(v: &[String]) -> Vec<&str> {
    v.iter().map(|s| s.as_str()).collect()
}
/// One scenario under the undisturbed schedule.
fn once(cx: &mut Cx, p: &mut Option<Proc>, sc: &Scenario, judge: &dyn Fn(&mut Cx, &Scenario, &Trace, &Fin) -> Result<(), String>) {
    let d = sc.text();
    cx.case(d.as_bytes(), |cx| {
        let p = p.get_or_insert_with(|| Proc::new(cx));
        sc.setup(p);
        let args = sc.args();
        let fin = match p.run(&refs(&args), &[]) {
            Ok(f) => f,
            Err(e) => cx.broken(&e),
        };
        cx.traces += 1;
        cx.transitions += p.shm.tr.nev as u64;
        cx.count("executions", 1);
        cx.state(d.as_bytes());
        if unfinished(&p.shm.tr, &fin, sc.planned()) {
            cx.count("unfinished", 1);
            return Ok(());
        }
        judge(cx, sc, &p.shm.tr, &fin).map_err(|m| format!("{m}\n\nend {fin:?}\n{}\n{}", story(&p.shm.tr), text(&p.shm.tr.out())))
    });
}
/// One scenario under every schedule and fault within the bounds, by all workers together.
fn explore(cx: &mut Cx, p: &mut Option<Proc>, sc: &Scenario, dev: usize, budget: u64, judge: &dyn Fn(&mut Cx, &Scenario, &Trace, &Fin) -> Result<(), String>) {
    let d = sc.text();
    cx.all(d.as_bytes(), |cx| {
        let p = p.get_or_insert_with(|| Proc::new(cx));
        sc.setup(p);
        let args = sc.args();
        let s = Search { args: &refs(&args), dev, budget, split: true };
        search(cx, p, &s, &d, &mut |cx, tr, fin| if unfinished(tr, fin, sc.planned()) { Ok(()) } else { judge(cx, sc, tr, fin) });
        Ok(())
    });
    // what the threads share is guarded by atomic accesses: switches before each of these, too
    if sc.feat & F_ATOMICS == 0 && sc.kinds == P_ALL {
        let mut sc = sc.clone();
        sc.feat |= F_ATOMICS;
        let d = sc.text();
        cx.all(d.as_bytes(), |cx| {
            let p = p.get_or_insert_with(|| Proc::new(cx));
            sc.setup(p);
            let args = sc.args();
            let s = Search { args: &refs(&args), dev: dev.min(2), budget: budget / 2, split: true };
            search(cx, p, &s, &d, &mut |cx, tr, fin| judge(cx, &sc, tr, fin));
            Ok(())
        });
    }
}
fn answers() -> Vec<Answer> {
    let mut v = Vec::new();
    for (r, _) in REQS {
        for k in 0..4 {
            v.push(answer(&format!("/{r}?v={k}"), if r == "b" && k % 2 == 0 { 201 } else { 200 }, &format!("{r}{k}"), 0));
        }
    }
    v.push(Answer { key: "/c?v=null".into(), status: 0, body: String::new(), delay: 0, reset: true, uses: 0 });
    v
}
fn delays(mut v: Vec<Answer>, f: impl Fn(usize) -> u64) -> Vec<Answer> {
    for (i, a) in v.iter_mut().enumerate() {
        a.delay = f(i);
    }
    v
}

/// Scenarios every judge of whole runs sees: names and texts of every length, what the top-level code may do, and
/// how many calls and prints there are, in full runs and in runs of a named test, with and without records and statistics.
fn family(thorough: bool) -> Vec<Scenario> {
    let mut v: Vec<Scenario> = Vec::new();
    let mut add = |tests: &[(&'static str, Vec<St>)], top: Vec<St>, ans: Vec<Answer>| {
        for (k, (threads, number)) in [(0u32, 0u32), (1, 2), (2, 3), (3, 3)].into_iter().enumerate() {
            // long equal sequences make comparing the interleavings expensive
            if threads > 1 && tests.iter().any(|t| t.1.len() > 40) {
                continue;
            }
            let mut sc = Scenario::new(tests);
            if threads > 0 {
                sc = sc.named(tests[0].0, threads, number);
            }
            sc.top = top.clone();
            sc.answers = ans.clone();
            sc.kinds = 0;
            sc.record = k % 2 == 0 || v.len() % 3 == 0;
            sc.stat = k % 3 == 0 || v.len() % 5 == 0;
            v.push(sc);
        }
    };
    let body = |r: &'static str| vec![Inc("v"), Call(r), Print("p1"), Call("b"), FailAt("v", 2), Call(r)];
    // names of every length
    let mut lens: Vec<usize> = vec![1, 2, 3, 7, 8, 9, 12, 15, 16, 17, 20, 23, 24, 25, 31, 32, 33, 39, 40, 41, 47, 48, 49, 63, 64, 65, 79, 80, 81, 100, 127, 128, 129, 200, 255, 256, 257, 300, 1000, 1025, 4097];
    if thorough {
        lens.extend(1..300);
    }
    for n in lens {
        let t = leak(format!("t{}", "x".repeat(n - 1)));
        let u = leak(format!("u{}", "_9".repeat(n)[..n - 1].to_string()));
        let r = leak(format!("q{}", "0".repeat(n)));
        add(&[(t, body(r)), (u, body("a"))], vec![Let("v", 0)], answers());
        add(&[("t", body("a")), (u, body(r))], vec![Call(r), Let("v", 0)], answers());
    }
    for names in [["_", "__"], ["T", "t"], ["test1", "tests1"], ["a", "b"], ["v", "w"], ["status", "println"], ["GET", "letx"], ["x1", "x10"], ["iff", "elsewhere"], ["requests", "tests"]] {
        add(&[(names[0], body("a")), (names[1], body("c"))], vec![Let("v", 0)], answers());
        add(&[(names[1], body("a")), (names[0], body("c"))], vec![Let("v", 1), Call("b")], answers());
    }
    // what the top-level code does before
    let tops = [Call("a"), Call("b"), Call("c"), Twice("c"), Check("a"), Skip("b"), Print("p0"), Let("v", 1), Inc("v"), Show("v")];
    for n in 1..=if thorough { 3 } else { 2 } {
        crate::lang_checks::sequences(tops.len(), n, |i| {
            let mut top: Vec<St> = vec![Let("v", 0)];
            top.extend(i.iter().map(|i| tops[*i].clone()));
            add(&[("t", body("a")), ("s", vec![Show("v"), Call("c")])], top, answers());
        });
    }
    // calls that fail on the network before the variable is there; failures of the top-level code
    for k in 0..tops.len() {
        for last in [Fail, Arg("a"), Arg("b"), Show("w"), Check("c")] {
            let mut top = vec![tops[k].clone(), Let("v", 0), last.clone()];
            add(&[("t", body("a")), ("s", body("b"))], top.clone(), answers());
            top.swap(0, 2);
            add(&[("t", body("a")), ("s", body("b"))], top, vec![answer("/c?v=null", 500, "x", 0)]);
        }
    }
    // texts of every length
    for n in [1usize, 10, 63, 64, 65, 100, 127, 128, 255, 256, 257, 400, 511, 512, 513, 900, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16_384, 20_000, 65_537] {
        add(&[("t", vec![Inc("v"), Call("a"), Call("b")]), ("s", vec![Call("c")])], vec![Let("v", 0)], vec![answer("/", 200, &"y".repeat(n), 0)]);
        add(&[("t", vec![Print(leak(format!("p{}", "z".repeat(n)))), Call("a"), Print("p1")]), ("s", vec![Call("c")])], vec![Let("v", 0), Print(leak(format!("p{}", "é".repeat(n))))], vec![answer("/", 200, "y", 0)]);
    }
    // many calls and prints in the top-level code and in one iteration
    for n in [5usize, 16, 17, 33, 64, 65, 100, 129, 257, 600] {
        add(&[("t", vec![Inc("v"), Call("a")]), ("s", vec![Call("c")])], [vec![Let("v", 0)], vec![Call("b"); n]].concat(), answers());
        add(&[("t", [vec![Let("v", 0)], vec![Twice("c"); n], vec![Call("b")]].concat())], vec![], answers());
        add(&[("t", [vec![Inc("v"), Call("b")], vec![Print("p1"); n], vec![Call("b")]].concat())], vec![Let("v", 1)], answers());
    }
    // one test after many definitions; equal bodies
    for n in [2usize, 5, 9, 17, 33] {
        let tests: Vec<(&'static str, Vec<St>)> = (0..n).map(|i| (leak(format!("t{i}")), vec![Inc("v"), Call("a"), Call("b"), Print("p1")])).collect();
        let last: Vec<(&'static str, Vec<St>)> = tests.iter().rev().cloned().collect();
        add(&tests[..n.min(5)], vec![Let("v", 0)], answers());
        add(&last[n.saturating_sub(5)..], vec![Let("v", 0), Call("a")], answers());
    }
    v
}
fn all_families(cx: &mut Cx, p: &mut Option<Proc>, change: &dyn Fn(&mut Scenario), judge: &dyn Fn(&mut Cx, &Scenario, &Trace, &Fin) -> Result<(), String>) {
    for mut sc in family(cx.thorough) {
        change(&mut sc);
        once(cx, p, &sc, judge);
    }
}

// ------------------------------------------------------------------ C21
fn judge21(_: &mut Cx, sc: &Scenario, tr: &Trace, fin: &Fin) -> Result<(), String> {
    ended(fin)?;
    no_stderr(tr)?;
    let o = stdout(tr)?;
    let th = sc.threads_model();
    same_requests(tr, sc, &th.iter().map(|t| targets(&t.1)).collect::<Vec<_>>())?;
    same_blocks(&o, &th)?;
    if sc.record {
        let rs = same_records(tr, &th)?;
        same_times(&o, &rs)?;
    }
    Ok(())
}
pub fn c21(cx: &mut Cx) {
    let mut p = None;
    let alpha = [Call("a"), Call("b"), Twice("c"), Arg("b"), Inc("v"), Let("v", 1), Fail, Skip("a"), FailAt("v", 1), Print("p1")];
    // every test body up to the bound, two iterations, with and without a defined variable
    let max = if cx.thorough { 5 } else { 3 };
    for n in 0..=max {
        crate::lang_checks::sequences(alpha.len(), n, |v| {
            // only bodies with a call
            if !v.iter().any(|i| *i < 4) {
                return;
            }
            let body: Vec<St> = v.iter().map(|i| alpha[*i].clone()).collect();
            for top in [vec![], vec![Let("v", 0)]] {
                if n == 5 && top.is_empty() {
                    continue;
                }
                let mut sc = Scenario::new(&[("t", body.clone())]).named("t", 1, 2);
                sc.top = top;
                sc.record = true;
                sc.kinds = 0;
                sc.answers = answers();
                once(cx, &mut p, &sc, &judge21);
            }
        });
    }
    // top-level calls belong to no test; full runs of several tests
    let bodies = [vec![], vec![Call("a")], vec![Call("c"), Fail, Call("a")], vec![Inc("v"), Call("a"), Inc("v"), Call("b")]];
    for (i, x) in bodies.iter().enumerate() {
        for y in &bodies[..=i] {
            for top in [vec![], vec![Let("v", 0)], vec![Call("a"), Let("v", 1), Call("b")]] {
                for seed in 1..4 {
                    let mut sc = Scenario::new(&[("s", x.clone()), ("t", y.clone())]);
                    sc.top = top.clone();
                    sc.record = true;
                    sc.kinds = 0;
                    sc.seed = seed;
                    sc.answers = answers();
                    once(cx, &mut p, &sc, &judge21);
                }
            }
        }
    }
    // many calls in one iteration, many iterations
    let mut sizes: Vec<usize> = vec![5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 130, 255, 256, 257, 300, 511, 512, 513, 600, 1000, 1024, 1025];
    if cx.thorough {
        sizes.extend([2048, 2049, 4096, 4097, 5000]);
        sizes.extend(34..63);
    }
    for n in &sizes {
        for (threads, number) in [(1, 1), (1, 2), (2, 2), (0, 0)] {
            let body: Vec<St> = (0..*n).flat_map(|i| [Inc("v"), Call(["a", "b", "c"][i % 3])]).chain([FailAt("v", *n as i64 + 2)]).collect();
            let mut sc = Scenario::new(&[("t", body)]);
            if threads > 0 {
                if *n > 600 && threads * number > 1 {
                    continue;
                }
                sc = sc.named("t", threads, number);
            }
            sc.top = vec![Let("v", 0)];
            sc.record = true;
            sc.stat = true;
            sc.kinds = 0;
            sc.answers = answers();
            once(cx, &mut p, &sc, &judge21);
        }
    }
    sizes.extend([2047, 2048, 2049, 3000]);
    for n in &sizes {
        for threads in 1..=2u32 {
            let n = *n as i64;
            let mut sc = Scenario::new(&[("t", vec![Inc("v"), Call("a"), CallAt("v", n, "b"), FailAt("v", n - 1)])]).named("t", threads, n as u32 * threads);
            if threads == 2 {
                sc.tests[0].1.pop();
            }
            sc.top = vec![Let("v", 0)];
            sc.record = true;
            sc.stat = true;
            sc.kinds = 0;
            sc.answers = answers();
            once(cx, &mut p, &sc, &judge21);
        }
    }
    // very many calls in one iteration, in two
    for (n, number) in [(2049, 1), (4097, 1), (5000, 2), (9000, 1)] {
        let mut sc = Scenario::new(&[("t", vec![Call("a"); n])]).named("t", 1, number);
        sc.record = true;
        sc.kinds = 0;
        once(cx, &mut p, &sc, &judge21);
    }
    all_families(cx, &mut p, &|sc| sc.record = true, &judge21);
    // iterations far apart
    for n in [8191i64, 8192, 8193, 65_535, 65_536, 65_537, 70_000] {
        let mut sc = Scenario::new(&[("t", vec![Inc("v"), CallAt("v", 1, "a"), CallAt("v", 64, "a"), CallAt("v", 256, "b"), CallAt("v", n - 1, "c"), CallAt("v", n, "a")])]).named("t", 1, n as u32);
        sc.top = vec![Let("v", 0)];
        sc.record = true;
        sc.stat = true;
        sc.kinds = 0;
        once(cx, &mut p, &sc, &judge21);
    }
    // the wall clock is set back at any reading
    for body in [vec![Call("a"), Call("b"), Call("c")], vec![Inc("v"), Call("b"), FailAt("v", 2), Call("a")]] {
        for (threads, number) in [(0u32, 0u32), (1, 2), (2, 3)] {
            let mut sc = Scenario::new(&[("t", body.clone()), ("s", vec![Call("a"), Call("dd"), Fail])]);
            if threads > 0 {
                sc = sc.named("t", threads, number);
            }
            sc.top = vec![Let("v", 0)];
            sc.record = true;
            sc.stat = true;
            sc.kinds = 0;
            sc.feat = F_WALLBACK;
            sc.answers = delays(answers(), |i| (i as u64 % 3) * MS);
            explore(cx, &mut p, &sc, if cx.thorough { 4 } else { 2 }, 4_000, &judge21);
        }
    }
    // schedules
    let b = if cx.thorough { 200_000 } else { 20_000 };
    let mut list = Vec::new();
    let mut sc = Scenario::new(&[("t", vec![Inc("v"), Call("a"), CallAt("v", 2, "b")])]).named("t", 2, 4);
    sc.top = vec![Let("v", 0)];
    list.push(sc);
    let mut sc = Scenario::new(&[("t", vec![Inc("v"), Call("b"), FailAt("v", 2), Call("a")])]).named("t", 3, 6);
    sc.top = vec![Let("v", 0)];
    list.push(sc);
    let mut sc = Scenario::new(&[("r", vec![Call("a"), Call("b")]), ("s", vec![Inc("v"), Call("a"), Fail]), ("t", vec![Call("c")])]);
    sc.top = vec![Let("v", 1)];
    list.push(sc);
    for mut sc in list {
        sc.record = true;
        sc.stat = true;
        sc.answers = delays(answers(), |i| (i as u64 % 3) * MS);
        explore(cx, &mut p, &sc, 4, b, &judge21);
    }
}
// ------------------------------------------------------------------ C22
fn judge22(_: &mut Cx, sc: &Scenario, tr: &Trace, fin: &Fin) -> Result<(), String> {
    ended(fin)?;
    no_stderr(tr)?;
    let o = stdout(tr)?;
    let name = sc.name.unwrap();
    if !sc.tests.iter().any(|t| t.0 == name) {
        if !requests(tr).is_empty() || o.errors.len() != 1 || !o.errors[0].contains(name) || !o.errors[0].to_lowercase().contains("not found") || !o.prints.is_empty() {
            return Err("an unknown test name is not reported as such".into());
        }
        return Ok(());
    }
    let (q, r) = (sc.number / sc.threads, sc.number % sc.threads);
    // the bodies make one call or print one line per iteration; v counts the iterations of the thread
    let body = &sc.tests.iter().find(|t| t.0 == name).unwrap().1;
    if body.iter().any(|s| matches!(s, Call(_) | Check(_))) {
        let m = by_thread(tr);
        let mut counts: Vec<u32> = Vec::new();
        for (t, v) in &m {
            for (i, s) in v.iter().enumerate() {
                if *s != format!("/a?v={}&w=null.", i + 1) {
                    return Err(format!("iterations of thread {t}: {v:?}"));
                }
            }
            counts.push(v.len() as u32);
        }
        counts.resize(counts.len().max(sc.threads as usize), 0);
        // the threads that got the failing answer stop there; the others do their share
        let failed = o.blocks.iter().filter(|b| b.status == 500).count();
        let uses = sc.answers.iter().filter(|a| a.status == 500).map(|a| a.uses).sum::<i32>() as usize;
        if o.errors.len() != failed || failed > uses || (failed < uses && sc.number >= sc.threads * 4) {
            return Err(format!("{failed} failing answers of {uses}, error lines {:?}", o.errors));
        }
        let all = counts.clone();
        for _ in 0..failed {
            let at = sc.answers.iter().find(|a| a.status == 500).unwrap().key.trim_start_matches("/a?v=").trim_end_matches('&').parse::<u32>().unwrap();
            match counts.iter().position(|c| *c == at) {
                Some(i) => counts.remove(i),
                None => return Err(format!("a failing iteration {at} did not stop its thread: {all:?}")),
            };
        }
        let many = counts.iter().filter(|c| **c == q + 1).count() as u32;
        let few = counts.iter().filter(|c| **c == q).count() as u32;
        if many + few != counts.len() as u32 || many > r || few > sc.threads - r {
            return Err(format!("iterations of the threads: {all:?} ({failed} failed), {} in total by {} were asked for", sc.number, sc.threads));
        }
    } else if o.prints.len() as u32 != sc.number {
        return Err(format!("{} iterations of {}", o.prints.len(), sc.number));
    }
    Ok(())
}
pub fn c22(cx: &mut Cx) {
    let mut p = None;
    let (nmax, tmax) = if cx.thorough { (40, 20) } else { (12, 6) };
    for threads in 1..=tmax {
        for number in 0..=nmax {
            for body in [vec![Inc("v"), Call("a")], vec![Print("p")]] {
                let mut sc = Scenario::new(&[("t", body), ("other", vec![Call("b")])]).named("t", threads, number);
                sc.top = vec![Let("v", 0)];
                sc.kinds = 0;
                once(cx, &mut p, &sc, &judge22);
            }
        }
    }
    for (threads, number) in [(40, 3), (40, 41), (1, 100), (3, 100), (7, 200), (63, 63), (64, 65), (65, 65), (70, 140), (100, 101), (128, 130), (200, 199), (257, 300), (1, 127), (1, 128), (1, 255), (1, 256), (1, 257), (2, 511), (2, 513), (3, 1000), (4, 1023), (5, 1025), (8, 2049), (16, 1000), (1, 3000), (7, 3001)] {
        let mut sc = Scenario::new(&[("t", vec![Inc("v"), Call("a")])]).named("t", threads, number);
        sc.top = vec![Let("v", 0)];
        sc.kinds = 0;
        once(cx, &mut p, &sc, &judge22);
    }
    // more iterations than fit small counters: the last one shows itself, one more would too
    for (threads, number) in [(1u32, 65_535u32), (1, 65_536), (1, 65_537), (2, 131_074), (3, 200_000), (2, 131_073)] {
        let at = (number / threads) as i64;
        let mut body = vec![Inc("v")];
        for d in -1..=2 {
            body.push(CallAt("v", at + d, "a"));
        }
        let mut sc = Scenario::new(&[("t", body)]).named("t", threads, number);
        sc.top = vec![Let("v", 0)];
        sc.kinds = 0;
        once(cx, &mut p, &sc, &judge21);
    }
    // and more than single precision counts
    for number in if cx.thorough { vec![16_777_217u32, 20_000_001] } else { vec![16_777_217] } {
        let d = format!("{number} iterations, of which the last one calls");
        let mut sc = Scenario::new(&[("t", vec![Inc("v"), CallAt("v", number as i64, "a")])]).named("t", 1, number);
        sc.top = vec![Let("v", 0)];
        sc.kinds = 0;
        let p = &mut p;
        cx.case_limit(200_000);
        cx.case(d.as_bytes(), |cx| {
            let p = p.get_or_insert_with(|| Proc::new(cx));
            sc.setup(p);
            let args = sc.args();
            let before = std::mem::replace(&mut p.limit_ms, 150_000);
            let fin = p.run(&refs(&args), &[]);
            p.limit_ms = before;
            let fin = match fin {
                Ok(f) => f,
                Err(e) => cx.broken(&e),
            };
            cx.traces += 1;
            cx.transitions += number as u64;
            cx.state(d.as_bytes());
            ended(&fin).and_then(|_| if requests(&p.shm.tr).len() == 1 { Ok(()) } else { Err(format!("the last iteration made {} calls, not one", requests(&p.shm.tr).len())) })
        });
        cx.case_limit(20_000);
    }
    for name in ["u", "te", "tt", "T"] {
        for threads in 1..3 {
            let mut sc = Scenario::new(&[("t", vec![Call("a")])]).named(name, threads, 3);
            sc.top = vec![Let("v", 0)];
            sc.kinds = 0;
            once(cx, &mut p, &sc, &judge22);
        }
    }
    // one or two failing iterations, at every iteration
    for threads in 1..=4 {
        for fails in 1..=2 {
            for at in 1..=4 {
                for number in [threads * 4, threads * 4 + 1, threads * 5 - 1] {
                    let mut sc = Scenario::new(&[("t", vec![Inc("v"), Check("a")])]).named("t", threads, number);
                    sc.top = vec![Let("v", 0)];
                    sc.answers = vec![Answer { uses: fails.min(threads as i32), ..answer(&format!("/a?v={at}&"), 500, "x", 0) }];
                    sc.kinds = 0;
                    once(cx, &mut p, &sc, &judge22);
                }
            }
        }
    }
    let b = if cx.thorough { 120_000 } else { 15_000 };
    for (threads, number) in [(1, 4), (2, 3), (2, 4), (3, 4), (3, 2)] {
        for d in [0, MS] {
            let mut sc = Scenario::new(&[("t", vec![Inc("v"), Call("a")])]).named("t", threads, number);
            sc.top = vec![Let("v", 0)];
            sc.feat = F_ATOMICS;
            sc.answers = vec![answer("/a", 200, "x", d)];
            explore(cx, &mut p, &sc, 4, b, &judge22);
        }
    }
    for at in 1..=3 {
        let mut sc = Scenario::new(&[("t", vec![Inc("v"), Check("a")])]).named("t", 2, 6);
        sc.top = vec![Let("v", 0)];
        sc.feat = F_ATOMICS;
        sc.answers = vec![Answer { uses: 1, ..answer(&format!("/a?v={at}&"), 500, "x", 0) }];
        explore(cx, &mut p, &sc, 4, b, &judge22);
    }
}
// ------------------------------------------------------------------ C23
/// Iterations of every thread as intervals of events: (thread, number of its iteration) per event.
fn judge23(_: &mut Cx, sc: &Scenario, tr: &Trace, fin: &Fin) -> Result<(), String> {
    ended(fin)?;
    no_stderr(tr)?;
    let evs = tr.events();
    let reqs = requests(tr);
    let t0 = 1_000_000_000_000u64;
    let delay = sc.answers[0].delay;
    let per = sc.tests[0].1.iter().filter(|s| matches!(s, Call(_))).count();
    // the moment from which the stop is known
    let mut stop: Option<usize> = None;
    let mut stop_time = u64::MAX;
    if let Some(d) = sc.duration {
        let d = d as u64 * SEC;
        let sleeper = evs.iter().find(|e| e.typ == E_SLEEP && e.b == d as i64).map(|e| (e.tid, e.t));
        let s = match sleeper {
            Some((t, _)) => evs.iter().position(|e| e.typ == E_TEND && e.tid == t),
            // no thread sleeps that long in one go: the first thread that makes no requests and ends
            // when the duration is over, or the moment itself where no timer can be late
            None => {
                let worker = |t: u16| t == 0 || reqs.iter().any(|r| r.0 == t);
                let end = evs.iter().position(|e| e.typ == E_TEND && e.t >= t0 + d && !worker(e.tid));
                let time = if sc.feat & F_TIMERENV == 0 { evs.iter().position(|e| e.t > t0 + d) } else { None };
                match (end, time) {
                    (Some(a), Some(b)) => Some(a.min(b)),
                    (a, b) => a.or(b),
                }
            }
        };
        stop = s;
        stop_time = t0 + d;
        // without a signal no thread stops earlier
        if sc.signals == 0 {
            for e in evs {
                if e.typ == E_TEND && e.t < t0 + d && reqs.iter().any(|r| r.0 == e.tid) {
                    return Err(format!("thread {} ended at {} ms, before the duration", e.tid, (e.t - t0) / MS));
                }
            }
        }
    }
    if let Some(i) = evs.iter().position(|e| e.typ == E_SIGNAL) {
        let t = evs[i].t;
        stop_time = stop_time.min(t);
        let s = evs.iter().position(|e| e.t > t);
        stop = match (stop, s) {
            (Some(a), Some(b)) => Some(a.min(b)),
            (a, b) => a.or(b),
        };
    }
    // what a thread does belongs to its iterations: count the requests
    let mut seen: BTreeMap<u16, Vec<usize>> = BTreeMap::new();
    for r in &reqs {
        seen.entry(r.0).or_default().push(r.2);
    }
    for (t, at) in &seen {
        // a request every `delay`, from the start of the run
        if sc.feat & F_TIMERENV == 0 {
            for (k, i) in at.iter().enumerate() {
                if evs[*i].t != t0 + k as u64 * delay {
                    return Err(format!("thread {t} pauses: request {k} is made at {} µs", (evs[*i].t - t0) / 1000));
                }
            }
        }
        if let Some(s) = stop {
            let iter_of = |i: usize| at.iter().filter(|r| **r <= i).count().saturating_sub(1) / per;
            let mut touched: BTreeSet<usize> = BTreeSet::new();
            for (i, e) in evs.iter().enumerate().skip(s + 1) {
                if e.tid == *t && matches!(e.typ, E_REQ | E_OUT | E_FILE) {
                    touched.insert(iter_of(i));
                }
            }
            if touched.len() > 1 {
                return Err(format!("thread {t} is in its iterations {touched:?} after the stop (event {s}, {} ms)", (evs[s].t - t0) / MS));
            }
        }
        if at.len() % per != 0 {
            return Err(format!("thread {t} made {} requests: its last iteration is not finished", at.len()));
        }
    }
    if seen.len() != sc.threads as usize && stop_time > t0 {
        return Err(format!("{} of {} threads made a request", seen.len(), sc.threads));
    }
    // everything done is reported, recorded and counted
    let (_, env) = sc.model_top();
    let th: Vec<(&str, Vec<Iter>)> = seen.values().map(|v| ("t", sc.model("t", &env, (v.len() / per) as u32))).collect();
    same_requests(tr, sc, &th.iter().map(|t| targets(&t.1)).collect::<Vec<_>>())?;
    let o = stdout(tr)?;
    same_blocks(&o, &th)?;
    if sc.record {
        let mut th = th.clone();
        while th.len() < sc.threads as usize {
            th.push(("t", vec![]));
        }
        same_records(tr, &th)?;
    }
    if sc.stat {
        stats(&o)?;
    }
    // and then the process ends
    let last = evs.iter().filter(|e| e.typ != E_ERR).map(|e| e.t).max().unwrap_or(t0);
    if sc.feat & F_TIMERENV == 0 && last > stop_time.saturating_add(per as u64 * delay) {
        return Err(format!("the run goes on until {} ms, the stop was at {} ms", (last - t0) / MS, (stop_time - t0) / MS));
    }
    Ok(())
}
pub fn c23(cx: &mut Cx) {
    let mut p = None;
    let base = |threads: u32, delay: u64| {
        let mut sc = Scenario::new(&[("t", vec![Inc("v"), Call("a")])]).named("t", threads, 1);
        sc.top = vec![Let("v", 0)];
        sc.answers = vec![answer("/", 200, "x", delay)];
        sc
    };
    // the timer against every length of an iteration
    let step = if cx.thorough { 5 } else { 25 };
    for threads in 1..=3 {
        for d in [1u32, 2] {
            for per in 1..=2usize {
                for ms in (20..=1500u64).step_by(step).chain([1, 2, 499, 500, 501, 999, 1000, 1001, 2000, 2500]) {
                    if ms < 10 && (threads > 1 || d > 1) {
                        continue;
                    }
                    let mut sc = base(threads, ms * MS);
                    if per == 2 {
                        sc.tests[0].1.push(Call("b"));
                    }
                    sc.duration = Some(d);
                    sc.record = true;
                    sc.stat = true;
                    sc.kinds = 0;
                    once(cx, &mut p, &sc, &judge23);
                }
            }
        }
    }
    // more threads, longer and shorter iterations, long runs
    for threads in [4u32, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64] {
        for (d, ms) in [(1u32, 100u64), (1, 333), (1, 1001), (2, 500), (3, 999)] {
            let mut sc = base(threads, ms * MS);
            sc.duration = Some(d);
            sc.record = threads < 20;
            sc.stat = true;
            sc.kinds = 0;
            once(cx, &mut p, &sc, &judge23);
        }
    }
    for (d, ms) in [(10u32, 20u64), (60, 100), (60, 55), (3600, 60_000), (3600, 3_600_001), (86_400, 1_000_000)] {
        let mut sc = base(2, ms * MS);
        sc.duration = Some(d);
        sc.stat = true;
        sc.kinds = 0;
        once(cx, &mut p, &sc, &judge23);
    }
    // every kind of duration: whole minutes and hours and what is left over
    let mut ds: Vec<u32> = (1..=if cx.thorough { 200 } else { 66 }).collect();
    ds.extend([75, 89, 90, 91, 100, 119, 120, 121, 150, 179, 181, 255, 256, 257, 300, 599, 600, 601, 1000, 1023, 1025, 3599, 3600, 3601, 3661, 4000, 4294, 4295, 5400, 7199, 7201, 7261, 65_535, 65_536, 86_399, 86_401, 90_061, 604_801]);
    for d in ds {
        for (threads, parts) in [(1u32, 7u64), (2, 16), (1, 33)] {
            let mut sc = base(threads, d as u64 * SEC / parts + 1);
            sc.duration = Some(d);
            sc.stat = parts == 7;
            sc.kinds = 0;
            once(cx, &mut p, &sc, &judge23);
        }
    }
    // the signal at every request of long runs, in iterations that succeed and that fail
    let many = if cx.thorough { 400 } else { 140 };
    for (threads, per) in [(1u32, 1usize), (1, 2), (2, 1), (3, 2)] {
        for k in 1..=many {
            if threads > 1 && k % 7 != 1 && !(k as u32).is_power_of_two() && !(k as u32 + 1).is_power_of_two() && !cx.thorough {
                continue;
            }
            for how in 0..4 {
                let mut sc = base(threads, 10 * MS);
                if per == 2 {
                    sc.tests[0].1.push(Call("b"));
                }
                if how == 1 {
                    sc.tests[0].1.push(Fail);
                }
                if how == 3 {
                    sc.tests[0].1.push(FailAt("v", 2));
                }
                if how == 2 {
                    sc.number = (k as u32 + 9) * threads;
                } else {
                    sc.duration = Some(60);
                }
                sc.stat = k % 2 == 0;
                sc.record = k % 3 == 0;
                sc.signals = 1;
                sc.at = k;
                sc.kinds = 0;
                once(cx, &mut p, &sc, &judge23);
            }
        }
    }
    // the signal at every moment, with and without a duration or a number
    let b = if cx.thorough { 150_000 } else { 12_000 };
    for (threads, per, signals) in [(1, 1, 1), (2, 1, 1), (2, 2, 1), (1, 2, 2), (3, 1, 1)] {
        for d in [300 * MS, 499 * MS] {
            let mut sc = base(threads, d);
            if per == 2 {
                sc.tests[0].1.push(Call("b"));
            }
            sc.duration = Some(if threads == 3 { 1 } else { 2 });
            sc.record = true;
            sc.stat = true;
            sc.feat = F_SIGNAL | F_ATOMICS;
            sc.signals = signals;
            explore(cx, &mut p, &sc, if cx.thorough { 3 } else { 2 }, b, &judge23);
        }
    }
    // the timer at every moment: it may fire before an iteration's answer arrives
    for (threads, per, ms) in [(1, 1, 400), (2, 1, 500), (2, 1, 700), (2, 2, 300), (3, 1, 600)] {
        let mut sc = base(threads, ms * MS);
        if per == 2 {
            sc.tests[0].1.push(Call("b"));
        }
        sc.duration = Some(1);
        sc.stat = true;
        sc.feat = F_ATOMICS | F_TIMERENV;
        explore(cx, &mut p, &sc, if cx.thorough { 4 } else { 2 }, b, &judge23);
        sc.feat = F_ATOMICS;
        explore(cx, &mut p, &sc, if cx.thorough { 4 } else { 2 }, b, &judge23);
    }
    // the signal before the first iteration: it counts from the first request on
    for threads in 1..=2 {
        let mut sc = base(threads, 100 * MS);
        sc.number = 6;
        sc.feat = F_SIGNAL;
        sc.signals = 1;
        explore(cx, &mut p, &sc, 2, b, &|cx, sc, tr, fin| {
            let evs = tr.events();
            let handler = evs.iter().position(|e| e.typ == E_HANDLER);
            let first = evs.iter().position(|e| e.typ == E_REQ);
            if first.is_some() && handler.map_or(true, |h| h > first.unwrap()) {
                return Err("the first request is sent before an interrupt can be handled".into());
            }
            let hit = evs.iter().any(|e| e.typ == E_SIGNAL);
            if hit {
                return judge23(cx, sc, tr, fin);
            }
            ended(fin)
        });
    }
}
// ------------------------------------------------------------------ whole programs
/// Runs `basjoofan test` on a program and compares what every thread does with the reference interpreter.
fn program(cx: &mut Cx, p: &mut Option<Proc>, top: &str, tests: &[(&str, String)], name: Option<&str>, threads: u32, number: u32) {
    let mut source = String::new();
    for (n, st) in REQS {
        source.push_str(&format!("request {n}`GET http://h/{n}?v={{v}}&w={{w}}.`[status == {st}, body != \"-\"]\n"));
    }
    source.push_str(top);
    for (n, b) in tests {
        source.push_str(&format!("\ntest {n} {{ {b} }}"));
    }
    let d = format!("{source}\n{name:?} threads {threads} number {number}");
    if !cx.mine() {
        cx.skip();
        return;
    }
    cx.case(d.as_bytes(), |cx| {
        // the reference
        let mut env = lang::Env::default();
        env.responder = Some(std::rc::Rc::new(|_, _, _| {
            let m = [("version", V::s("HTTP/1.1")), ("status", V::Int(200)), ("reason", V::s("X")), ("headers", V::Map(BTreeMap::new())), ("body", V::s("d")), ("json", V::Null)];
            Some(V::Map(m.into_iter().map(|(k, v)| (k.to_string(), v)).collect()))
        }));
        let head = &source[..source.find("\ntest ").unwrap_or(source.len())];
        lang::run(&mut env, head).map_err(|e| format!("the reference does not run the top-level code: {e}"))?;
        let top_calls = std::mem::take(&mut env.calls).len();
        let top_out = std::mem::take(&mut env.out);
        let mut want: Vec<(Vec<String>, Vec<String>)> = Vec::new();
        let mut errors = 0;
        let mut calls = 0;
        let which: Vec<(&String, u32)> = match name {
            None => tests.iter().map(|t| (&t.1, 1)).collect(),
            Some(n) => (0..threads).map(|t| (&tests.iter().find(|t| t.0 == n).unwrap().1, number / threads + u32::from(t < number % threads))).collect(),
        };
        for (body, n) in which {
            let mut e = env.clone();
            for _ in 0..n {
                if lang::run(&mut e, body).is_err() {
                    errors += 1;
                    break;
                }
            }
            calls += e.calls.len();
            want.push((e.calls.iter().map(|c| crate::http::message(&c.1).url.path.clone()).collect(), e.out.lines().map(String::from).collect()));
        }
        // the program
        let p = p.get_or_insert_with(|| Proc::new(cx));
        p.file("a.fan", &source);
        let c = p.world();
        c.sched_kinds = 0;
        c.add_host("", &[v4(10, 0, 0, 1)]);
        c.add_rule(b"", b"HTTP/1.1 200 X\r\n\r\nd");
        let mut args: Vec<String> = vec!["test".into()];
        if let Some(n) = name {
            args.extend([n.to_string(), "--threads".into(), threads.to_string(), "--number".into(), number.to_string()]);
        }
        args.extend(["--path".into(), "a.fan".into()]);
        let fin = match p.run(&refs(&args), &[]) {
            Ok(f) => f,
            Err(e) => cx.broken(&e),
        };
        cx.traces += 1;
        cx.transitions += p.shm.tr.nev as u64;
        cx.count("programs", 1);
        cx.state(d.as_bytes());
        let tr = &p.shm.tr;
        let check = || -> Result<(), String> {
            ended(&fin)?;
            let mut by: BTreeMap<u16, Vec<String>> = BTreeMap::new();
            for (t, _, _, s) in requests(tr).into_iter().skip(top_calls) {
                by.entry(t).or_default().push(s);
            }
            let mut got: Vec<Vec<String>> = by.into_values().collect();
            let mut made: Vec<Vec<String>> = want.iter().map(|w| w.0.clone()).filter(|w| !w.is_empty()).collect();
            got.sort();
            made.sort();
            if got != made {
                return Err(format!("requests thread by thread:\n made     {got:?}\n expected {made:?}"));
            }
            let o = stdout(tr)?;
            let lines: Vec<String> = top_out.lines().map(String::from).collect();
            if !o.prints.starts_with(&lines) || !shuffle(&o.prints[lines.len()..], &want.iter().map(|w| w.1.clone()).collect::<Vec<_>>()) {
                return Err(format!("printed {:?}, expected {lines:?} and an interleaving of {want:?}", o.prints));
            }
            if o.errors.len() != errors {
                return Err(format!("{errors} iterations fail, error lines {:?}", o.errors));
            }
            if o.blocks.len() != calls {
                return Err(format!("{} reports of {calls} calls", o.blocks.len()));
            }
            Ok(())
        };
        check().map_err(|m| format!("{m}\n\nend {fin:?}\n{}\n{}", story(tr), text(&tr.out())))
    });
}
/// Tests made of all short sequences of statements of every kind.
fn programs(cx: &mut Cx, p: &mut Option<Proc>, all: bool) {
    let top = "let v = 0; let x = []; let w = 9; let _n = 1; let A1 = 2; println(\"ptop\");";
    let st = [
        "let v = v + 1;",
        "let _n = if (false) { 1 };",
        "let _n = [_n, v];",
        "let A1 = {\"k\": v, \"l\": A1};",
        "a();",
        "let r = b(); println(\"p{x}\", r.status);",
        "println(\"p{x} {y}\", _n, A1);",
        "if (v == 2) { nope };",
        "let x = append(x, v); println(\"p{x}\", x);",
        "if (v > 1) { a(); c() } else { let w = v };",
        "let _ = format(\"{a}{b}\", w, v); println(\"p{s}\", _); let v = _;",
        "let z = let w = [a().status, b().body]; println(\"p{z}\", z);",
    ];
    let n = if cx.thorough { 4 } else { 3 };
    for k in 1..=n {
        crate::lang_checks::sequences(st.len(), k, |i| {
            let body: String = i.iter().map(|i| st[*i]).collect();
            if all {
                let other: String = i.iter().rev().map(|i| st[(*i * 5 + 3) % st.len()]).collect();
                program(cx, p, top, &[("t", body.clone()), ("s", other), ("u_1", "println(\"pu{x}\", v); a();".into())], None, 1, 1);
            } else {
                program(cx, p, top, &[("t", body.clone())], Some("t"), 1, 4);
                program(cx, p, top, &[("other", "a();".into()), ("t", body)], Some("t"), 2, 5);
            }
        });
    }
    for k in [13usize, 33, 64, 120] {
        for step in [1usize, 5, 7] {
            let body: String = (0..k).map(|i| st[(i * step + i / st.len()) % st.len()]).filter(|s| !s.contains("nope")).collect();
            if all {
                program(cx, p, top, &[("t", body.clone()), ("s", body)], None, 1, 1);
            } else {
                program(cx, p, top, &[("t", body)], Some("t"), 2, 6);
            }
        }
    }
}
// ------------------------------------------------------------------ C24
fn judge24(_: &mut Cx, sc: &Scenario, tr: &Trace, fin: &Fin) -> Result<(), String> {
    ended(fin)?;
    let th = sc.threads_model();
    same_requests(tr, sc, &th.iter().map(|t| targets(&t.1)).collect::<Vec<_>>())?;
    let o = stdout(tr)?;
    same_prints(&o, sc, &th)
}
pub fn c24(cx: &mut Cx) {
    let mut p = None;
    // every pair of tests and every thread count over assignments and uses of the same names
    let alpha = [Inc("v"), Let("v", 7), Let("w", 5), Inc("w"), Call("a"), Show("v"), FailAt("v", 2)];
    let max = if cx.thorough { 4 } else { 3 };
    for n in 1..=max {
        crate::lang_checks::sequences(alpha.len(), n, |v| {
            if !v.iter().any(|i| *i == 4 || *i == 5) {
                return;
            }
            let body: Vec<St> = v.iter().map(|i| alpha[*i].clone()).collect();
            for top in [vec![Let("v", 1)], vec![Let("v", 0), Let("w", 0)]] {
                let mut sc = Scenario::new(&[("t", body.clone())]).named("t", 2, 5);
                sc.top = top.clone();
                sc.kinds = 0;
                once(cx, &mut p, &sc, &judge24);
                let mut sc = Scenario::new(&[("t", body.clone()), ("s", vec![Call("a"), Inc("v"), Call("b"), Let("w", 3), Call("a")])]);
                sc.top = top;
                sc.kinds = 0;
                for seed in 1..3 {
                    sc.seed = seed;
                    once(cx, &mut p, &sc, &judge24);
                }
            }
        });
    }
    // variables of other names
    for x in ["_x", "_", "__", "X", "xX", "x_1", "tmp", "i", "id", "token", "user", "status", "body", "json", "headers", "shared", "global", "ctx", "t", "s", "a", "thread", "number"] {
        for (top, d) in [(vec![Let("v", 0)], 0), (vec![Let("v", 0)], MS), (vec![Let("v", 0), Let(x, 1)], MS)] {
            let mut sc = Scenario::new(&[("t", vec![Call("a"), Inc(x), Show(x)]), ("s", vec![Let(x, 5), Call("b"), Inc(x), Show(x)])]);
            sc.top = top.clone();
            sc.kinds = 0;
            sc.answers = vec![answer("/", 200, "x", d)];
            for seed in 1..4 {
                sc.seed = seed;
                once(cx, &mut p, &sc, &judge24);
            }
            let mut sc = Scenario::new(&[("t", vec![Inc("v"), Inc("v"), Inc("v"), CallAt("v", 3, "a"), FailAt("v", 6), Let(x, 5), Inc(x), Show(x)])]).named("t", 2, 4);
            sc.top = top;
            sc.kinds = 0;
            sc.answers = vec![answer("/", 200, "x", d)];
            once(cx, &mut p, &sc, &judge24);
        }
    }
    // many variables, many iterations
    for n in [8usize, 16, 17, 33, 64, 65, 100, 129, 257, 600] {
        let names: Vec<&'static str> = (0..n).map(|i| leak(format!("x{i}"))).collect();
        let top: Vec<St> = names.iter().enumerate().map(|(i, v)| Let(v, i as i64)).chain([Let("v", 0)]).collect();
        let body: Vec<St> = [vec![Inc("v"), Call("a")], names.iter().map(|v| Inc(v)).collect(), names.iter().map(|v| Show(v)).collect(), vec![Let("w", 1)]].concat();
        let mut sc = Scenario::new(&[("t", body.clone())]).named("t", 2, 4);
        sc.top = top.clone();
        sc.kinds = 0;
        once(cx, &mut p, &sc, &judge24);
        let mut sc = Scenario::new(&[("s", body.clone()), ("t", [vec![Show("v")], body].concat())]);
        sc.top = top;
        sc.kinds = 0;
        once(cx, &mut p, &sc, &judge24);
        let mut sc = Scenario::new(&[("t", vec![Inc("v"), Show("v"), Let("w", 0), Inc("w"), Show("w")])]).named("t", 2, 2 * n as u32);
        sc.top = vec![Let("v", 0)];
        sc.kinds = 0;
        once(cx, &mut p, &sc, &judge24);
    }
    all_families(cx, &mut p, &|_| (), &judge24);
    programs(cx, &mut p, false);
    let b = if cx.thorough { 200_000 } else { 20_000 };
    for (threads, number, d) in [(2, 4, 0), (2, 4, MS), (3, 6, 0)] {
        let mut sc = Scenario::new(&[("t", vec![Inc("v"), Call("a"), Let("w", 2), Inc("w"), Show("w")])]).named("t", threads, number);
        sc.top = vec![Let("v", 0)];
        sc.answers = vec![answer("/", 200, "x", d)];
        explore(cx, &mut p, &sc, 4, b, &judge24);
    }
    for d in [0, MS] {
        let mut sc = Scenario::new(&[("r", vec![Inc("v"), Call("a"), Inc("v"), Call("b")]), ("s", vec![Let("v", 5), Call("a"), Inc("w"), Call("a")]), ("t", vec![Call("a"), Call("b")])]);
        sc.top = vec![Let("v", 0), Let("w", 0)];
        sc.answers = vec![answer("/", 200, "x", d)];
        explore(cx, &mut p, &sc, 4, b, &judge24);
    }
}
// ------------------------------------------------------------------ C25
fn judge25(_: &mut Cx, sc: &Scenario, tr: &Trace, fin: &Fin) -> Result<(), String> {
    ended(fin)?;
    no_stderr(tr)?;
    let th = sc.threads_model();
    same_requests(tr, sc, &th.iter().map(|t| targets(&t.1)).collect::<Vec<_>>())?;
    let o = stdout(tr)?;
    same_prints(&o, sc, &th)?;
    same_blocks(&o, &th)?;
    let failed = usize::from(sc.model_top().0.failed) + th.iter().flat_map(|t| &t.1).filter(|i| i.failed).count();
    if o.errors.len() != failed {
        return Err(format!("{failed} errors, error lines {:?}", o.errors));
    }
    Ok(())
}
pub fn c25(cx: &mut Cx) {
    let mut p = None;
    programs(cx, &mut p, true);
    let bodies: Vec<Vec<St>> = vec![
        vec![],
        vec![Call("a")],
        vec![Print("p1")],
        vec![Fail, Call("a")],
        vec![Call("a"), Fail, Call("b")],
        vec![Call("b"), Call("c")],
        vec![Arg("a")],
        vec![Inc("v"), Call("b"), Print("p2"), Call("a")],
    ];
    let tops: Vec<Vec<St>> = vec![vec![], vec![Let("v", 0), Print("p0")], vec![Call("a"), Let("v", 1)], vec![Print("p0"), Call("b"), Fail], vec![Arg("a"), Print("p0")]];
    let names = ["t", "zeta", "a1", "b_", "x"];
    let max = if cx.thorough { 4 } else { 3 };
    for n in 0..=max {
        crate::lang_checks::sequences(bodies.len(), n, |v| {
            if v.windows(2).any(|w| w[0] > w[1]) {
                return;
            }
            let tests: Vec<(&'static str, Vec<St>)> = v.iter().enumerate().map(|(i, b)| (names[i], bodies[*b].clone())).collect();
            for top in &tops {
                let mut sc = Scenario::new(&tests);
                sc.top = top.clone();
                sc.answers = answers();
                sc.kinds = 0;
                once(cx, &mut p, &sc, &judge25);
            }
        });
    }
    // more tests than a few
    for n in [5usize, 8, 9, 16, 17, 31, 33, 64, 65, 100, 129, 200, 256, 257, 300, 513, 700] {
        let tests: Vec<(&'static str, Vec<St>)> = (0..n).map(|i| (&*Box::leak(format!("t{i}").into_boxed_str()), bodies[(i * 5 + n) % bodies.len()].clone())).collect();
        let mut sc = Scenario::new(&tests);
        sc.top = vec![Let("v", 0)];
        sc.answers = answers();
        sc.kinds = 0;
        once(cx, &mut p, &sc, &judge25);
        sc.stat = true;
        sc.record = n < 300;
        once(cx, &mut p, &sc, &judge25);
    }
    // each of many tests in turn takes longest
    for n in [3usize, 9, 17, 33, 70, 130] {
        for slow in (0..n).step_by(if cx.thorough { 1 } else { 1 + n / 40 }) {
            let names: Vec<&'static str> = (0..n).map(|i| &*Box::leak(format!("t{i}").into_boxed_str())).collect();
            let tests: Vec<(&'static str, Vec<St>)> = (0..n).map(|i| (names[i], if i == slow { vec![Call("a"), Print("p1"), Call("b")] } else { vec![Call("b")] })).collect();
            let mut sc = Scenario::new(&tests);
            sc.answers = vec![answer("/a", 200, "x", 3_000 * MS), answer("/", 200, "x", 0)];
            sc.kinds = 0;
            once(cx, &mut p, &sc, &judge25);
        }
    }
    all_families(cx, &mut p, &|_| (), &judge25);
    // a source that does not parse runs nothing
    for bad in ["test x { ", "let = 1", "request q", "test t { a() } }", "* 1", "test { }", "a(", "@"] {
        for at in 0..3 {
            let d = format!("not a program {bad:?} at {at}");
            let p = &mut p;
            cx.case(d.as_bytes(), |cx| {
                let p = p.get_or_insert_with(|| Proc::new(cx));
                let sc = Scenario::new(&[("t", vec![Call("a")])]);
                sc.setup(p);
                let s = sc.source();
                let good = "println(\"p0\"); a();\n";
                p.file("a.fan", &match at {
                    0 => format!("{bad}\n{good}{s}"),
                    1 => format!("{good}{bad}\n{s}"),
                    _ => format!("{good}{s}{bad}\n"),
                });
                let args = sc.args();
                let fin = match p.run(&refs(&args), &[]) {
                    Ok(f) => f,
                    Err(e) => cx.broken(&e),
                };
                cx.traces += 1;
                cx.transitions += p.shm.tr.nev as u64;
                let tr = &p.shm.tr;
                let out = text(&tr.out());
                let ok = fin == Fin::Exit(0) && requests(tr).is_empty() && !out.trim().is_empty() && !out.contains("p0\n");
                if ok {
                    Ok(())
                } else {
                    Err(format!("{fin:?}, output {out:?}, requests {:?}", requests(tr)))
                }
            });
        }
    }
    let b = if cx.thorough { 200_000 } else { 20_000 };
    for tests in [
        vec![("r", bodies[1].clone()), ("s", bodies[4].clone()), ("t", bodies[7].clone())],
        vec![("r", bodies[5].clone()), ("s", bodies[5].clone())],
        vec![("r", bodies[2].clone()), ("s", bodies[3].clone()), ("t", bodies[0].clone()), ("u", bodies[6].clone())],
    ] {
        for d in [0, MS] {
            let mut sc = Scenario::new(&tests);
            sc.top = vec![Let("v", 0)];
            sc.answers = delays(answers(), |i| d * (1 + i as u64 % 2));
            explore(cx, &mut p, &sc, 4, b, &judge25);
        }
    }
}
// ------------------------------------------------------------------ C26
/// The statistics are those of the printed reports.
fn stats(o: &Out) -> Result<(), String> {
    let mut want: BTreeMap<String, [u128; 5]> = BTreeMap::new();
    for b in &o.blocks {
        let ms = (b.total / MS) as u128;
        let e = want.entry(b.name.clone()).or_insert([0, 0, 0, 0, u128::MAX]);
        e[0] += 1;
        e[1] += ms;
        e[2] = e[1] / e[0];
        e[3] = e[3].max(ms);
        e[4] = e[4].min(ms);
    }
    if o.stats != want || o.stat_lines != want.len() {
        return Err(format!("statistics {:?} ({} lines), the reports give {want:?} (count, sum, average, maximum, minimum)", o.stats, o.stat_lines));
    }
    if !o.stats_last {
        return Err("something is printed after the statistics".into());
    }
    Ok(())
}
fn judge26(_: &mut Cx, sc: &Scenario, tr: &Trace, fin: &Fin) -> Result<(), String> {
    ended(fin)?;
    no_stderr(tr)?;
    let o = stdout(tr)?;
    let th = sc.threads_model();
    same_blocks(&o, &th)?;
    if sc.stat {
        stats(&o)
    } else if o.stat_lines > 0 {
        Err("statistics although none were asked for".into())
    } else {
        Ok(())
    }
}
pub fn c26(cx: &mut Cx) {
    let mut p = None;
    // every sequence of durations over two names
    let ds = [0, MS - 1, MS, 2 * MS + 999_999, 10 * MS, 3_600 * SEC + 5 * MS, 7 * MS];
    let nd = if cx.thorough { 8 } else { 6 }; // the last one is a call that fails
    let max = if cx.thorough { 5 } else { 4 };
    for n in 0..=max {
        crate::lang_checks::sequences(2 * nd, n, |v| {
            if n == max && v.iter().any(|x| x / 2 == 3) {
                cx.skip();
                return;
            }
            if !cx.mine() {
                cx.skip();
                return;
            }
            let mut body = Vec::new();
            let mut ans = Vec::new();
            for (i, x) in v.iter().enumerate() {
                body.push(Let("v", i as i64));
                body.push(Call(if x % 2 == 0 { "a" } else { "b" }));
                let failing = x / 2 == nd - 1;
                ans.push(Answer { reset: failing, ..answer(&format!("?v={i}&"), 200, if failing { "" } else { "x" }, if failing { 0 } else { ds[x / 2] }) });
            }
            let mut sc = Scenario::new(&[("t", body)]);
            sc.answers = ans;
            sc.stat = true;
            sc.kinds = 0;
            once(cx, &mut p, &sc, &judge26);
        });
    }
    // named and full runs, failures, more calls
    for threads in 1..=4 {
        for number in 0..=if cx.thorough { 40 } else { 10 } {
            for stat in [true, false] {
                let mut sc = Scenario::new(&[("t", vec![Inc("v"), Call("a"), CallAt("v", 2, "c"), CallAt("v", 3, "dd"), FailAt("v", 9)])]).named("t", threads, number);
                sc.top = vec![Let("v", 0), Call("b")];
                sc.answers = delays(answers(), |i| i as u64 * 700_000);
                sc.stat = stat;
                sc.kinds = 0;
                once(cx, &mut p, &sc, &judge26);
            }
        }
    }
    all_families(cx, &mut p, &|sc| sc.stat |= sc.record, &judge26);
    // names that are nearly the same are different names
    for (i, x) in NEAR.iter().enumerate() {
        for (j, y) in NEAR.iter().enumerate() {
            if i == j {
                continue;
            }
            let mut sc = Scenario::new(&[("t", vec![Let("v", 1), Call(x), Let("v", 2), Call(y), Let("v", 3), Call(x)])]);
            sc.answers = (1..=3).map(|i| answer(&format!("?v={i}&"), 200, "x", i as u64 * 3 * MS)).collect();
            sc.stat = true;
            sc.kinds = 0;
            once(cx, &mut p, &sc, &judge26);
        }
    }
    // many names; many calls
    for n in [5usize, 8, 9, 16, 17, 33, 65, 100, 129, 257, 400] {
        let q: Vec<St> = (0..n).flat_map(|i| [Let("v", (i * 7 % 13) as i64), Call(leak(format!("q{i}")))]).collect();
        let mut sc = Scenario::new(&[("s", [vec![Call("a")], q.clone(), vec![Call("a")]].concat()), ("t", [q[..n].to_vec(), q].concat())]);
        sc.answers = (0..13).map(|i| answer(&format!("?v={i}&"), 200, "x", (i as u64 * 977_123) % (9 * MS))).collect();
        sc.stat = true;
        sc.kinds = 0;
        once(cx, &mut p, &sc, &judge26);
    }
    for (n, ns) in [(257u32, MS), (1000, 3 * MS + 700_000), (3000, 4_000 * SEC), (4000, 999_999)] {
        let mut sc = Scenario::new(&[("t", vec![Inc("v"), Call("a"), CallAt("v", 3, "b")])]).named("t", 1, n);
        sc.top = vec![Let("v", 0)];
        sc.answers = vec![answer("/", 200, "x", ns)];
        sc.stat = true;
        sc.kinds = 0;
        once(cx, &mut p, &sc, &judge26);
    }
    for n in [50i64, 100, 200] {
        let mut body = vec![];
        for i in 0..n {
            body.push(Let("v", i % 13));
            body.push(Call(["a", "b", "c", "dd"][(i % 4) as usize]));
        }
        let mut sc = Scenario::new(&[("s", body.clone()), ("t", body)]);
        sc.answers = (0..13).map(|i| answer(&format!("?v={i}&"), 200, "x", (i as u64 * 977_123) % (9 * MS))).collect();
        sc.stat = true;
        sc.kinds = 0;
        once(cx, &mut p, &sc, &judge26);
    }
    // schedules
    let b = if cx.thorough { 200_000 } else { 20_000 };
    let mut list = Vec::new();
    let mut sc = Scenario::new(&[("t", vec![Inc("v"), Call("a"), CallAt("v", 2, "b")])]).named("t", 2, 4);
    sc.top = vec![Let("v", 0)];
    list.push(sc);
    let mut sc = Scenario::new(&[("t", vec![Inc("v"), Call("b"), FailAt("v", 2), Call("a")])]).named("t", 3, 6);
    sc.top = vec![Let("v", 0)];
    list.push(sc);
    let mut sc = Scenario::new(&[("r", vec![Call("a"), Call("b")]), ("s", vec![Inc("v"), Call("a"), Fail]), ("t", vec![Call("c")])]);
    sc.top = vec![Let("v", 1)];
    list.push(sc);
    list.push(Scenario::new(&[("r", vec![]), ("s", vec![Print("p")])]));
    for mut sc in list {
        sc.stat = true;
        sc.answers = delays(answers(), |i| (i as u64 % 4) * 1_700_000);
        explore(cx, &mut p, &sc, 4, b, &judge26);
    }
}
// ------------------------------------------------------------------ C27
fn judge27(_: &mut Cx, sc: &Scenario, tr: &Trace, fin: &Fin) -> Result<(), String> {
    ended(fin)?;
    let o = stdout(tr)?;
    let th = sc.threads_model();
    same_blocks(&o, &th)?;
    same_prints(&o, sc, &th)?;
    same_errors(&o, sc, &th)?;
    if sc.stat {
        stats(&o)?;
    }
    Ok(())
}
pub fn c27(cx: &mut Cx) {
    let mut p = None;
    let b = if cx.thorough { 250_000 } else { 9_000 };
    let mut list = Vec::new();
    let mut sc = Scenario::new(&[("t", vec![Inc("v"), Call("a"), Print("p1"), Call("b")])]).named("t", 2, 2);
    sc.top = vec![Let("v", 0)];
    list.push(sc);
    let mut sc = Scenario::new(&[("t", vec![Inc("v"), Print("p1"), Call("b"), FailAt("v", 2)])]).named("t", 3, 5);
    sc.top = vec![Let("v", 0)];
    list.push(sc);
    let mut sc = Scenario::new(&[("r", vec![Call("a"), Call("b")]), ("s", vec![Inc("v"), Call("a"), Fail]), ("t", vec![Call("c"), Print("p2"), Print("p3")])]);
    sc.top = vec![Let("v", 1), Print("p0")];
    list.push(sc);
    for sc in &list {
        for (feat, kinds) in [(F_OUTFAULT, P_OUT | P_FUTEX), (0, P_ALL), (F_OUTFAULT, 0), (0, P_OUT | P_FUTEX)] {
            let mut sc = sc.clone();
            sc.feat = feat;
            sc.kinds = kinds;
            sc.stat = true;
            sc.answers = answers();
            explore(cx, &mut p, &sc, 5, b, &judge27);
        }
    }
    all_families(cx, &mut p, &|_| (), &judge27);
    for n in [1000usize, 1025, 2000, 5000, 8193, 20_000] {
        let mut sc = Scenario::new(&[("t", vec![Inc("v"), Call("a"), Call("b")])]).named("t", 2, 3);
        sc.top = vec![Let("v", 1)];
        sc.answers = vec![answer("/", 200, &"y".repeat(n), 0)];
        sc.feat = F_OUTFAULT;
        sc.kinds = P_OUT | P_FUTEX;
        explore(cx, &mut p, &sc, if cx.thorough { 3 } else { 1 }, b, &judge27);
        // between two prints of one thread only contended locks are places to switch at
        sc.feat = 0;
        explore(cx, &mut p, &sc, 4, b / 2, &judge27);
    }
    // reports longer than the buffers of standard output
    for n in [500usize, 1000, 1021, 1022, 1023, 1024, 1025, 2000, 4094, 4096, 8190, 8191, 8192, 8193, 20_000] {
        let mut sc = Scenario::new(&[("r", vec![Call("a"), Call("a")]), ("s", vec![Call("b"), Call("c")])]);
        sc.top = vec![Let("v", 1)];
        sc.answers = vec![answer("/", 200, &"y".repeat(n), 0)];
        sc.feat = F_OUTFAULT;
        sc.kinds = P_OUT | P_FUTEX;
        explore(cx, &mut p, &sc, if cx.thorough { 3 } else { 1 }, b, &judge27);
        sc.feat = 0;
        explore(cx, &mut p, &sc, 4, b / 4, &judge27);
    }
    // the moment before every piece a thread prints, also one that stays in the buffer of standard output
    for n in [2usize, 60, 129, 257, 513, 900, 1022, 1025, 5000] {
        let long = leak(format!("p{}", "z".repeat(n - 1)));
        let bodies: [Vec<St>; 5] = [vec![Print(long)], vec![Print(long), Print("p1")], vec![Call("a"), Print(long)], vec![Inc("v"), Print(long), FailAt("v", 2)], vec![Fail]];
        for (i, one) in bodies.iter().enumerate() {
            for kinds in [P_PRINT | P_FUTEX, P_PRINT | P_OUT] {
                let mut sc = Scenario::new(&[("t", one.clone())]).named("t", 2, 2);
                sc.top = vec![Let("v", 0)];
                sc.answers = if i == 2 { vec![answer("/", 200, &"y".repeat(n), 0)] } else { answers() };
                sc.kinds = kinds;
                explore(cx, &mut p, &sc, 3, b / 20, &judge27);
                let mut sc = Scenario::new(&[("r", one.clone()), ("s", bodies[(i + 1) % 5].clone())]);
                sc.top = vec![Let("v", 1)];
                sc.answers = vec![answer("/", 200, &"y".repeat(n), 0)];
                sc.kinds = kinds;
                explore(cx, &mut p, &sc, 3, b / 20, &judge27);
            }
        }
    }
    // long prints and long errors
    for n in [900usize, 1025, 5000, 8193] {
        let mut sc = Scenario::new(&[("t", vec![Inc("v"), Print(leak(format!("p{}", "z".repeat(n)))), Call("a"), FailAt("v", 2)])]).named("t", 2, 4);
        sc.top = vec![Let("v", 0)];
        sc.answers = answers();
        sc.kinds = P_OUT | P_FUTEX;
        explore(cx, &mut p, &sc, 4, b / 4, &judge27);
    }
}
// ------------------------------------------------------------------ C29
fn judge29(cx: &mut Cx, sc: &Scenario, tr: &Trace, fin: &Fin) -> Result<(), String> {
    ended(fin)?;
    let th = sc.threads_model();
    // the whole file, every thread to its own
    same_records(tr, &th)?;
    let fs = files(tr);
    let evs = tr.events();
    let mut owner: BTreeMap<i32, u16> = BTreeMap::new();
    for f in fs.iter() {
        let w: BTreeSet<u16> = f.1.writers.iter().copied().filter(|t| *t != 0).collect();
        if w.len() > 1 {
            return Err(format!("threads {w:?} write to {}", f.1.path));
        }
        if let Some(t) = w.iter().next() {
            owner.insert(*f.0, *t);
        }
    }
    if owner.values().collect::<BTreeSet<_>>().len() != owner.len() {
        return Err("a thread writes to several files".into());
    }
    for e in evs {
        if matches!(e.typ, E_SEEK | E_TRUNCATE) && fs.contains_key(&e.a) {
            return Err("a record file is rewritten".into());
        }
    }
    // killed at any moment: all bytes so far decode, and the iterations over are in the file
    let per: BTreeMap<u16, Vec<usize>> = {
        let mut m: BTreeMap<u16, Vec<usize>> = BTreeMap::new();
        for r in requests(tr) {
            m.entry(r.0).or_default().push(r.2);
        }
        m
    };
    for (id, f) in &fs {
        let Some(t) = owner.get(id) else { continue };
        let its = &th.iter().find(|x| targets(&x.1) == per.get(t).map_or(vec![], |v| v.iter().map(|i| requests_target(tr, *i)).collect::<Vec<_>>())).ok_or("no such thread")?.1;
        // number of records complete at the first request of every iteration
        let mut need: Vec<(usize, usize)> = Vec::new();
        let mut calls = 0;
        for it in its {
            if !it.calls.is_empty() {
                need.push((per[t][calls], calls));
            }
            calls += it.calls.len();
        }
        // lengths of the file after every write
        let mut len = 0usize;
        let mut at: Vec<(usize, usize)> = vec![(0, 0)];
        for (i, e) in evs.iter().enumerate() {
            if e.typ == E_FILE && e.a == *id {
                len += e.len as usize;
                at.push((i, len));
            }
        }
        let whole = avro::recs(&f.bytes).map_err(|e| e.to_string())?.len();
        for (i, n) in need {
            let l = at.iter().rev().find(|x| x.0 <= i).map_or(0, |x| x.1);
            let k = decode(&f.bytes[..l])?;
            if k < n {
                return Err(format!("{}: {k} records in the file when an iteration starts after {n} calls", f.path));
            }
        }
        // every byte prefix is readable up to its last complete block
        let key = [b"prefix".as_slice(), &f.bytes].concat();
        if cx.state(&key) {
            let mut last = 0;
            let ends: Vec<usize> = avro::read(&f.bytes, true)?.ends.into_iter().chain(at.iter().map(|x| x.1)).collect();
            for l in 0..=f.bytes.len() {
                if whole > 50 && l % 1021 != 0 && l < f.bytes.len() || f.bytes.len() > 12_000 && l % 509 != 0 && !ends.iter().any(|e| e.abs_diff(l) < 30) {
                    continue;
                }
                let k = decode(&f.bytes[..l]).map_err(|e| format!("{} cut at byte {l}: {e}", f.path))?;
                if k < last {
                    return Err(format!("{} cut at byte {l} yields fewer records than a shorter one", f.path));
                }
                last = k;
            }
            if last != whole {
                return Err("the last block is not read".into());
            }
            cx.count("file_prefixes_decoded", f.bytes.len() as u64 + 1);
        }
    }
    Ok(())
}
fn requests_target(tr: &Trace, i: usize) -> String {
    let d = text(tr.data(&tr.events()[i]));
    d.lines().next().unwrap_or("").split(' ').nth(1).unwrap_or("").to_string()
}
/// Records of the complete blocks of a file that may end anywhere.
fn decode(b: &[u8]) -> Result<usize, String> {
    Ok(avro::read(b, true)?.blocks.iter().map(|b| b.len()).sum())
}
pub fn c29(cx: &mut Cx) {
    let mut p = None;
    let b = if cx.thorough { 200_000 } else { 8_000 };
    let mk = |body: Vec<St>, threads, number| {
        let mut sc = Scenario::new(&[("t", body)]).named("t", threads, number);
        sc.top = vec![Let("v", 0)];
        sc.record = true;
        sc.answers = answers();
        sc
    };
    let mut list = vec![
        mk(vec![Inc("v"), Call("a"), Call("b")], 1, 3),
        mk(vec![Inc("v"), Call("a")], 2, 5),
        mk(vec![Inc("v"), CallAt("v", 2, "b"), CallAt("v", 3, "a")], 2, 6),
        mk(vec![Inc("v"), Call("a"), FailAt("v", 2), Call("c")], 2, 6),
    ];
    let mut sc = Scenario::new(&[("r", vec![Call("a"), Call("b")]), ("s", vec![Inc("v"), Call("a"), Fail]), ("t", vec![])]);
    sc.top = vec![Let("v", 1)];
    sc.record = true;
    sc.answers = answers();
    list.push(sc);
    for sc in &list {
        for (feat, kinds) in [(F_FILEFAULT, 0), (F_FILEFAULT, P_FILE | P_NET), (0, P_ALL)] {
            let mut sc = sc.clone();
            sc.feat = feat;
            sc.kinds = kinds;
            explore(cx, &mut p, &sc, 4, b, &judge29);
        }
    }
    // many threads, many tests
    for (threads, number) in [(10, 20), (11, 11), (16, 33), (17, 17), (33, 40), (65, 70), (101, 101), (130, 131), (257, 260)] {
        let mut sc = mk(vec![Inc("v"), Call("a"), Call("b")], threads, number);
        sc.kinds = 0;
        once(cx, &mut p, &sc, &judge29);
        if threads < 120 {
            let mut sc = Scenario::new(&(0..threads).map(|i| (&*Box::leak(format!("t{i}").into_boxed_str()), vec![Let("v", i as i64), Call("a")])).collect::<Vec<_>>());
            sc.record = true;
            sc.answers = answers();
            sc.kinds = 0;
            once(cx, &mut p, &sc, &judge29);
        }
    }
    // many iterations of one thread
    for (threads, number) in [(1, 65), (1, 130), (1, 260), (2, 300)] {
        let mut sc = mk(vec![Inc("v"), Call("a")], threads, number);
        sc.kinds = 0;
        once(cx, &mut p, &sc, &judge29);
    }
    leftovers(cx, &mut p);
    all_families(cx, &mut p, &|sc| sc.record = true, &judge29);
    // batches around the usual buffer sizes
    let mut sizes = vec![0usize, 1, 100, 1000, 4000, 7000, 8000, 8192, 16384, 20_000, 70_000];
    if cx.thorough {
        sizes.extend((7200..8300).step_by(20));
    }
    for n in sizes {
        for calls in 1..=3 {
            let mut sc = mk([vec![Inc("v")], vec![Call("a"); calls]].concat(), 2, 4);
            sc.answers = vec![answer("/", 200, &"y".repeat(n), 0)];
            sc.kinds = 0;
            once(cx, &mut p, &sc, &judge29);
            if n >= 4000 {
                sc.feat = F_FILEFAULT;
                sc.threads = 1;
                sc.number = 2;
                explore(cx, &mut p, &sc, 1, 1000, &judge29);
            }
        }
    }
}
/// The directory has files of an earlier, longer run; several processes record into one directory.
fn leftovers(cx: &mut Cx, p: &mut Option<Proc>) {
    for threads in 1..=3u32 {
        for (old, pod) in [(0usize, ""), (1, ""), (3000, ""), (100_000, ""), (100_000, "pod-7_"), (0, "x.y")] {
            let mut sc = Scenario::new(&[("t", vec![Inc("v"), Call("a"), Call("b")])]).named("t", threads, 2 * threads);
            sc.top = vec![Let("v", 0)];
            sc.record = true;
            sc.kinds = 0;
            sc.answers = answers();
            let d = format!("{old} bytes in the way, POD {pod:?}\n{}", sc.text());
            cx.case(d.as_bytes(), |cx| {
                let p = p.get_or_insert_with(|| Proc::new(cx));
                sc.setup(p);
                p.shm.cfg.record_pass = 1;
                let dir = format!("{}/rec", p.dir);
                let name = |t: u32| format!("{dir}/{pod}{t:06}");
                let other = format!("{dir}/{}000000", if pod.is_empty() { "pod-8_" } else { "" });
                std::fs::write(&other, b"other").unwrap();
                for t in 0..threads {
                    std::fs::write(name(t), vec![b'\x02'; old]).unwrap();
                }
                if !pod.is_empty() {
                    p.env.push(("POD".into(), pod.into()));
                }
                let args = sc.args();
                let fin = p.run(&refs(&args), &[]);
                p.env.clear();
                let fin = fin.unwrap_or_else(|e| cx.broken(&e));
                cx.traces += 1;
                cx.transitions += p.shm.tr.nev as u64;
                ended(&fin)?;
                let th = sc.threads_model();
                let mut bytes: Vec<Vec<u8>> = Vec::new();
                for t in 0..threads {
                    let b = std::fs::read(name(t)).map_err(|e| format!("{}: {e}", name(t)))?;
                    let n = avro::recs(&b).map_err(|e| format!("{} after the run: {e}", name(t)))?;
                    let want = th[t as usize].1.iter().map(|i| i.calls.len()).sum::<usize>();
                    if n.len() != want || n.iter().any(|r| r.thread != t as i64) {
                        return Err(format!("{} has {} records, the thread made {want} calls", name(t), n.len()));
                    }
                    bytes.push(b);
                }
                let mut wrote: Vec<Vec<u8>> = files(&p.shm.tr).into_values().map(|f| f.bytes).collect();
                wrote.sort();
                bytes.sort();
                if wrote != bytes {
                    return Err("the files hold something else than what was written".into());
                }
                if std::fs::read(&other).ok() != Some(b"other".to_vec()) {
                    return Err("the file of another process is overwritten".into());
                }
                for t in 0..threads {
                    let _ = std::fs::remove_file(name(t));
                }
                let _ = std::fs::remove_file(&other);
                Ok(())
            });
        }
    }
}
