//! C31: the eval command. C32: what a call leaves behind.
use crate::e2::{search, story, text, Fin, Proc, Search};
use crate::http::{self, OK};
use crate::http_checks::def;
use crate::lang::{self, V};
use crate::lang_checks::sequences;
use crate::pool::Cx;
use crate::rt::*;
use crate::sut::{self, Session};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

const MS: u64 = 1_000_000;

// ------------------------------------------------------------------ C31
/// What the interpreter says about a program that fails, in a session of its own.
fn complaint(cx: &mut Cx, prog: &str) -> Option<String> {
    http::world(&mut cx.shm.cfg, OK);
    let mut s = Session::new();
    sut::begin();
    let r = s.text(prog);
    sut::end();
    r.err()
}
fn judge31(cx: &mut Cx, prog: &str, tr: &Trace, fin: &Fin) -> Result<(), String> {
    if *fin != Fin::Exit(0) {
        return Err(format!("the command did not end normally: {fin:?}"));
    }
    if !tr.cat(E_ERR).is_empty() {
        return Err("output on standard error".into());
    }
    if tr.events().iter().any(|e| e.typ == E_STDIN && e.b >= 0 || e.typ == E_OPEN && e.a >= 0) {
        return Err("the command reads its input or opens a record file".into());
    }
    let mut env = lang::Env::default();
    let calls = Rc::new(std::cell::RefCell::new(Vec::<String>::new()));
    let c = calls.clone();
    env.responder = Some(Rc::new(move |_, _, msg: &str| {
        let m = http::message(msg);
        c.borrow_mut().push(m.url.path.clone());
        let status = if m.url.path.ends_with("/1") { 201 } else { 200 };
        Some(V::Map(BTreeMap::from([
            ("version".to_string(), V::Str("HTTP/1.1".into())),
            ("status".to_string(), V::Int(status)),
            ("reason".to_string(), V::Str("X".into())),
            ("headers".to_string(), V::Map(BTreeMap::new())),
            ("body".to_string(), V::Str("x".into())),
            ("json".to_string(), V::Null),
        ])))
    }));
    let r = lang::run(&mut env, prog);
    let out = text(&tr.out());
    let ok = match &r {
        Ok(v) => out == format!("{}{}\n", env.out, v.show()),
        Err(_) => out.strip_prefix(&env.out).map_or(false, |m| m.len() > 1 && m.ends_with('\n') && (!calls.borrow().is_empty() || complaint(cx, prog).map_or(false, |c| m == format!("{c}\n")))),
    };
    if !ok {
        let want = match &r {
            Ok(v) => format!("{:?} and the value {:?}", env.out, v.show()),
            Err(p) => format!("{:?} and {}", env.out, if *p { "an error of the syntax" } else { "an error" }),
        };
        return Err(format!("printed {out:?}, expected {want}"));
    }
    let made: Vec<String> = tr.events().iter().filter(|e| e.typ == E_REQ).map(|e| text(tr.data(e)).split(' ').nth(1).unwrap_or("").to_string()).collect();
    if made != *calls.borrow() {
        return Err(format!("requests {made:?}, expected {:?}", calls.borrow()));
    }
    Ok(())
}
pub fn c31(cx: &mut Cx) {
    let mut p: Option<Proc> = None;
    let mut one = |cx: &mut Cx, prog: &str, form: usize| {
        // the system takes no longer argument
        if prog.len() > 120_000 {
            return;
        }
        if !cx.mine() {
            cx.skip();
            return;
        }
        let p = &mut p;
        cx.case(prog.as_bytes(), |cx| {
            let p = p.get_or_insert_with(|| Proc::new(cx));
            p.file("a.fan", "println(\"from a file\") test t { println(\"a test of a file\") }");
            let c = p.world();
            c.sched_kinds = 0;
            c.add_host("", &[v4(10, 0, 0, 1)]);
            c.add_rule(b"GET /1 ", b"HTTP/1.1 201 X\r\n\r\nx");
            c.add_rule(b"", b"HTTP/1.1 200 X\r\n\r\nx");
            c.stdin(b"println(\"from the input\")\nexit\n");
            let args: Vec<&str> = if prog.starts_with('-') || form == 1 { vec!["eval", "--", prog] } else { vec!["eval", prog] };
            let f = match p.run(&args, &[]) {
                Ok(f) => f,
                Err(e) => cx.broken(&e),
            };
            cx.traces += 1;
            cx.transitions += p.shm.tr.nev as u64;
            cx.state(prog.as_bytes());
            judge31(cx, prog, &p.shm.tr, &f).map_err(|m| format!("{m}\nend {f:?}\n{}\n{}", story(&p.shm.tr), text(&p.shm.tr.out())))
        });
    };
    // every short sequence of tokens
    let tokens = ["1", "2.5", "\"s\"", "x", "true", "+", "-", "!", "==", "&&", "=", ",", ";", ":", ".", "(", ")", "{", "}", "[", "]", "request", "let", "if", "else", "test", "`GET http://h/1`", "#", "println(\"p\")", "r()", "\n", "é"];
    for n in 0..=if cx.thorough { 3 } else { 2 } {
        sequences(tokens.len(), n, |v| one(cx, &v.iter().map(|i| tokens[*i]).collect::<Vec<_>>().join(" "), 0));
    }
    // every short sequence of statements, on one line and on several
    let st = [
        "let x = 1", "let x = x + 1", "x", "println(\"a{b}\", 1)", "print(\"c\")", "1/0", "nope", "request r `GET http://h/{x}`[status == 201]", "r().status", "r()", "test t { println(\"in a test\"); r() }", "[x, {\"k\": \"v\"}]", "if (x) { 1 } else { 2 }", "\"é😀\n\"", "let y = r()", "t", "{}", "",
    ];
    for n in 1..=if cx.thorough { 4 } else { 3 } {
        sequences(st.len(), n, |v| {
            let k = v.iter().sum::<usize>();
            if n == 3 && !cx.thorough && k % 2 == 1 {
                return;
            }
            one(cx, &v.iter().map(|i| st[*i]).collect::<Vec<_>>().join(["; ", "\n", " ", " ;\r\n"][k % 4]), k % 2);
        });
    }
    // two statements with every separator, sound or not
    let seps = [";", "\n", " ", "\t", "\r\n"];
    let few = ["let x = 1", "x", "println(\"a{b}\", 1)", "nope", "request r `GET http://h/{x}`[]", "(", "r().status", ")", "let", "#"];
    for n in 0..=if cx.thorough { 5 } else { 4 } {
        sequences(seps.len(), n, |v| {
            let sep: String = v.iter().map(|i| seps[*i]).collect();
            for (i, a) in few.iter().enumerate() {
                for (j, b) in few.iter().enumerate() {
                    if n < 3 || (i * 10 + j) % 9 == v.iter().sum::<usize>() % 9 {
                        one(cx, &format!("{a}{sep}{b}"), 0);
                        if n < 3 && !sep.is_empty() {
                            one(cx, &format!("println(\"z\"){sep}{a}{sep}{b}{sep}"), 0);
                        }
                    }
                }
            }
        });
    }
    // values of every kind are printed as their text
    for (t, _) in crate::lang_checks::operand_texts() {
        one(cx, &t, 0);
        one(cx, &format!("println(\"{{v}}\", {t}); {t}"), 0);
        one(cx, &format!("let x = [{t}]; {{\"k\": x}}"), 1);
    }
    // programs that would mean something else elsewhere
    for t in [
        "@a.fan", "a.fan", "./a.fan", "@", "@-", "-", "--", "---", "-e 1", "-1", "--help", "-h", "--version", "-V", "--path=a.fan", "exit", "quit", "help", "version", "eval", "test", "test t", "t", "/dev/stdin", "@/dev/stdin", "< a.fan", "| cat", "$HOME", "${HOME}", "%PATH%", "~", "*", "a.*", "?.fan", "`ls`", "$(ls)", "file:///a.fan", "http://h/1", "GET http://h/1", "#!/bin/am", "#", "//", "// 1", "/* 1 */ 2", "-- 1", "; 1", "1;", "1 # 2", "true", "null", "\u{feff}1", "\u{feff}", "\\n", "1\\n2", "'1'", "\"", "\"a", "1\r", "\r\n1", "\t1", " ", "  1  ", "{{}}", "{a}", "{\"a\": 1}", "import a", "include \"a.fan\"", "a.fan\n1", "0x10", "1e3", "1_000", "+1", "=1", "1=", "PATH=a.fan", "stat", "threads", "number", "request", "let",
    ] {
        one(cx, t, 0);
        one(cx, &format!("let x = 1; {t}"), 0);
        one(cx, &format!("{t}\n5"), 0);
        one(cx, &format!("\"{t}\""), 0);
    }
    // any two characters, as the program and in a text it prints
    crate::lang_checks::pairs(|t| {
        if t.contains('\0') {
            return;
        }
        one(cx, t, 0);
        if !t.contains('"') {
            one(cx, &format!("print(\"{t}{{v}}\", \"{t}\"); \"{t}\""), 0);
        }
    });
    // every kind of value after any number of statements
    for (k, (t, _)) in crate::lang_checks::operand_texts().iter().enumerate() {
        for n in [2usize, 3, 5, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 128, 257] {
            one(cx, &format!("{}{t}", format!("{t}; ").repeat(n)), k % 2);
            one(cx, &format!("{}{t}", "let x = 1\n".repeat(n)), k % 2);
            if n <= 9 {
                one(cx, &format!("{}; 5", vec![t.as_str(); n].join(";\n")), k % 2);
            }
        }
    }
    // long programs
    for n in [10usize, 63, 64, 65, 100, 255, 256, 257, 1000, 1024, 4096, 5000] {
        one(cx, &format!("\"{}\"", "é".repeat(n)), 0);
        one(cx, &(0..n).map(|i| format!("let x{i} = {i};")).collect::<String>(), 0);
        one(cx, &format!("[{}]", "1, ".repeat(n)), 0);
        one(cx, &format!("{} 7", "println(\"l\")\n".repeat(n)), 0);
        one(cx, &format!("{}7", "\n".repeat(n)), 0);
        one(cx, &format!("let x = 0; {}; nope; println(\"no\")", (0..n).map(|_| "let x = x + 1; print(\"{v} \", x)").collect::<Vec<_>>().join("; ")), 0);
    }
    // wrong command lines: a usage error and nothing else
    let wrong: [&[&str]; 14] = [
        &["eval"], &["eval", "1", "2"], &["eval", "--"], &["eval", "--path", "a.fan"], &["eval", "-x"], &["evil", "1"], &["eval", "1", "--stat"], &["run"], &["--nope"], &["test", "--nope"], &["test", "t", "u"], &["test", "--path"], &["test", "--stat=yes"], &["eval", "", ""],
    ];
    for w in wrong {
        let p = &mut p;
        cx.case(w.join(" ").as_bytes(), |cx| {
            let p = p.get_or_insert_with(|| Proc::new(cx));
            p.file("a.fan", "println(\"from a file\") test t { println(\"a test of a file\") }");
            let c = p.world();
            c.sched_kinds = 0;
            c.stdin(b"println(\"from the input\")\nexit\n");
            let f = match p.run(w, &[]) {
                Ok(f) => f,
                Err(e) => cx.broken(&e),
            };
            cx.traces += 1;
            let tr = &p.shm.tr;
            if f != Fin::Exit(2) || tr.cat(E_ERR).is_empty() || !tr.out().is_empty() || tr.events().iter().any(|e| matches!(e.typ, E_TSTART | E_REQ)) {
                return Err(format!("not rejected with a usage error: {f:?}\n{}", story(tr)));
            }
            Ok(())
        });
    }
}

// ------------------------------------------------------------------ C32
#[derive(Debug)]
struct Link {
    to: String,
    tid: u16,
    done: Option<(u64, bool, usize)>,
    closed: Option<(u64, usize)>,
    sent: u64,
    from: usize,
}
fn links(tr: &Trace) -> Result<BTreeMap<i32, Link>, String> {
    let mut m: BTreeMap<i32, Link> = BTreeMap::new();
    for (k, e) in tr.events().iter().enumerate() {
        match e.typ {
            E_CONNECT if e.b < 0 => {
                m.insert(e.a, Link { to: text(tr.data(e)), tid: e.tid, done: None, closed: None, sent: 0, from: k });
            }
            E_CONNECT => {
                let l = m.entry(e.a).or_insert(Link { to: text(tr.data(e)), tid: e.tid, done: None, closed: None, sent: 0, from: k });
                l.done = Some((e.t, e.b == 0, k));
            }
            E_SEND if e.b > 0 => {
                if let Some(l) = m.get_mut(&e.a) {
                    l.sent += e.b as u64;
                }
            }
            E_CLOSE => {
                if let Some(l) = m.get_mut(&e.a) {
                    if l.closed.is_some() {
                        return Err(format!("the connection to {} is closed twice", l.to));
                    }
                    l.closed = Some((e.t, k));
                }
            }
            _ => {}
        }
    }
    Ok(m)
}
/// One call after the other: each connection is closed before the next begins, and at the end.
fn tidy(tr: &Trace) -> Result<(), String> {
    let m = links(tr)?;
    let mut v: Vec<&Link> = m.values().collect();
    v.sort_by_key(|l| l.from);
    for (i, l) in v.iter().enumerate() {
        let Some(c) = l.closed else { return Err(format!("connection {i} to {} is still open after the call", l.to)) };
        if v.get(i + 1).map_or(false, |n| n.from < c.1) {
            return Err(format!("connection {i} to {} is still open when the next call connects", l.to));
        }
    }
    Ok(())
}
/// Races: an attempt that lost is closed, unused, as soon as it and the race are over.
fn race_tidy(tr: &Trace, timed: bool) -> Result<(), String> {
    let m = links(tr)?;
    let evs = tr.events();
    let end = evs.iter().map(|e| e.t).max().unwrap_or(0);
    let carrying: BTreeSet<i32> = m.iter().filter(|l| l.1.sent > 0).map(|l| *l.0).collect();
    for (id, l) in &m {
        let Some((at, ok, _)) = l.done else { continue };
        let used = carrying.contains(id);
        // the call it belongs to is over when its winner is closed
        let over = m.iter().filter(|(i, w)| carrying.contains(i) && w.closed.map_or(false, |c| c.1 > l.from)).map(|(_, w)| w.closed.unwrap()).min();
        match l.closed {
            None => {
                // the process may end while it is being closed
                if used || !timed || at < end {
                    if used || timed {
                        return Err(format!("the connection to {} ({}) is never closed", l.to, if ok { "accepted" } else { "failed" }));
                    }
                }
            }
            Some(c) => {
                if timed && !used {
                    let due = at.max(over.map_or(0, |o| o.0));
                    if c.0 > due {
                        return Err(format!("the attempt at {} that lost is closed {} µs after it could be", l.to, (c.0 - due) / 1000));
                    }
                }
            }
        }
    }
    Ok(())
}
/// The threads that were started and have not ended when the last request is sent.
fn lingering(tr: &Trace) -> usize {
    let evs = tr.events();
    let last = evs.iter().rposition(|e| e.typ == E_REQ).unwrap_or(0);
    let t = evs[last].t;
    let started = evs[..last].iter().filter(|e| e.typ == E_TSTART && e.t < t).count();
    let ended = evs[..last].iter().filter(|e| e.typ == E_TEND).count();
    started.saturating_sub(ended)
}
pub fn c32(cx: &mut Cx) {
    let msgs = ["GET http://h/p\nHost: h".to_string(), "POST http://10.1.2.3:81/p HTTP/1.0\nA: b\n\nbody".to_string(), format!("POST http://h/big\nA: b\n\n{}", "x".repeat(20_000)), "POST http://h/f\nContent-Type: multipart/form-data\n\na: b\nc: @/nonexistent".to_string(), "GET https://h/s\nHost: h".to_string()];
    let run = |cx: &mut Cx, d: String, msg: &str, resp: &[u8], set: &dyn Fn(&mut Cfg), n: usize| {
        if !cx.mine() {
            cx.skip();
            return;
        }
        cx.case(d.as_bytes(), |cx| {
            http::world(&mut cx.shm.cfg, resp);
            set(&mut cx.shm.cfg);
            let mut s = Session::new();
            s.eval(&def(msg, "status == 200"));
            let o = http::observe(cx, &mut s, &"q(); ".repeat(n));
            if cx.shm.tr.status != 0 {
                return Err(format!("the call never ends (status {})", cx.shm.tr.status));
            }
            cx.count("connections", o.conns.len() as u64);
            cx.state(d.as_bytes());
            if o.conns.len() > n {
                return Err(format!("{n} calls made {} connections", o.conns.len()));
            }
            tidy(sut::trace())
        });
    };
    let resps: [&[u8]; 6] = [OK, b"", b"HTTP/1.1 204 N\r\nConnection: keep-alive\r\nContent-Length: 0\r\n\r\n", b"nonsense\xff", b"HTTP/1.1 200 OK\r\nConnection: Keep-Alive\r\nKeep-Alive: timeout=5\r\nContent-Length: 3\r\n\r\nabc", b"HTTP/1.1 301 M\r\nLocation: http://other/\r\nConnection: close\r\n\r\n"];
    for (mi, msg) in msgs.iter().enumerate() {
        for (ri, r) in resps.iter().enumerate() {
            for n in [1usize, 2, 3, 17, 300] {
                run(cx, format!("{msg:.40} / {} / {n} calls", http::show(r)), msg, r, &|_| (), n);
            }
            for i in 0..=r.len() {
                run(cx, format!("{msg:.40} / {} / closed after {i} bytes", http::show(r)), msg, r, &|c| c.rule[0].resp_len = i as u32, 2);
                for e in [libc::ECONNRESET, libc::ETIMEDOUT, libc::EAGAIN, libc::EIO] {
                    run(
                        cx,
                        format!("{msg:.40} / {} / error {e} after {i} bytes", http::show(r)),
                        msg,
                        r,
                        &|c| {
                            c.rule[0].fail_after = i as i32;
                            c.rule[0].fail_errno = e;
                        },
                        2,
                    );
                }
            }
            if ri > 0 {
                continue;
            }
            for i in (0..120).chain([4096, 8191, 8192, 8193, 16_384, 20_000]) {
                for e in [libc::ECONNRESET, libc::EPIPE, libc::EAGAIN] {
                    run(
                        cx,
                        format!("{msg:.40} / send fails with {e} after {i} bytes"),
                        msg,
                        r,
                        &|c| {
                            c.sfail_after = i;
                            c.sfail_errno = e;
                        },
                        2,
                    );
                }
            }
            for e in [libc::ECONNREFUSED, libc::ETIMEDOUT, libc::ENETUNREACH, libc::EACCES] {
                for n in [1usize, 3, 40] {
                    run(
                        cx,
                        format!("{msg:.40} / connect fails with {e}, {n} calls"),
                        msg,
                        r,
                        &|c| {
                            c.host[0].addr[0].err = e;
                            c.add_host("unused", &[Addr { err: e, ..v4(10, 1, 2, 3) }]);
                        },
                        n,
                    );
                }
            }
            // in pieces, with pauses and interruptions
            for cut in 1..OK.len() as u32 {
                run(
                    cx,
                    format!("{msg:.40} / in pieces cut at {cut}, request {mi}"),
                    msg,
                    r,
                    &|c| {
                        c.ncut = 1;
                        c.cut[0] = cut;
                        c.cut_eintr = 1;
                        c.rule[0].body_delay_ns = 7 * MS;
                        c.rule[0].split = cut;
                    },
                    2,
                );
            }
        }
    }
    for (ri, r) in crate::http_checks::grid().iter().enumerate() {
        run(cx, format!("answer {ri}: {} of {} bytes", http::show(&r[..12]), r.len()), &msgs[ri % 4], r, &|_| (), 2);
    }
    crate::tls::c32(cx, &|tr| tidy(tr));
    // races between addresses, one call and several
    let mut p: Option<Proc> = None;
    let ways: [(bool, u64); 9] = [(true, 0), (true, 50), (true, 199), (true, 200), (true, 450), (false, 0), (false, 50), (false, 300), (false, 130_000)];
    let world = |p: &mut Proc, list: &[(bool, (bool, u64))], calls: usize| {
        p.file("a.fan", &format!("request q`GET http://h/p`[status == 200] test t {{ {} }}", "q(); ".repeat(calls)));
        let c = p.world();
        let v: Vec<Addr> = list
            .iter()
            .enumerate()
            .map(|(i, (six, (ok, ms)))| {
                let mut a = if *six { v6(i as u8 + 1) } else { v4(10, 0, 0, i as u8 + 1) };
                a.delay_ns = ms * MS;
                a.err = if *ok { 0 } else if *ms > 100_000 { libc::ETIMEDOUT } else { libc::ECONNREFUSED };
                a
            })
            .collect();
        c.add_host("h", &v);
        // longer than any attempt that counts: a call outlives the attempts it has won against
        c.add_rule(b"", OK).delay_ns = 2_000 * MS;
    };
    const ARGS: [&str; 3] = ["test", "--path", "a.fan"];
    for n in 1..=if cx.thorough { 4 } else { 3 } {
        sequences(2 * ways.len(), n, |v| {
            if n == 4 && v.iter().sum::<usize>() % 3 != 0 {
                return;
            }
            let list: Vec<(bool, (bool, u64))> = v.iter().map(|i| (i % 2 == 0, ways[i / 2])).collect();
            if !cx.mine() {
                cx.skip();
                return;
            }
            let d = format!("race {list:?}");
            let p = &mut p;
            cx.case(d.as_bytes(), |cx| {
                let p = p.get_or_insert_with(|| Proc::new(cx));
                world(p, &list, 3);
                p.shm.cfg.sched_kinds = 0;
                let f = match p.run(&ARGS, &[]) {
                    Ok(f) => f,
                    Err(e) => cx.broken(&e),
                };
                cx.traces += 1;
                cx.transitions += p.shm.tr.nev as u64;
                cx.state(d.as_bytes());
                let tr = &p.shm.tr;
                let mut r = race_tidy(tr, true);
                if r.is_ok() && f != Fin::Exit(0) {
                    r = Err(format!("the run did not end normally: {f:?}"));
                }
                r.map_err(|m| format!("{m}\n{}", story(tr)))
            });
        });
    }
    // long runs
    for (calls, threads, number) in [(1usize, 1u32, 1200u32), (40, 1, 30), (3, 5, 250), (1, 60, 600)] {
        for list in [vec![(false, (true, 0u64))], vec![(true, (false, 0)), (false, (true, 0))], vec![(true, (true, 0)), (false, (true, 0))], vec![(true, (true, 300)), (false, (true, 50))]] {
            let d = format!("{calls} calls, {threads} threads, {number} iterations, {list:?}");
            let p = &mut p;
            cx.case(d.as_bytes(), |cx| {
                let p = p.get_or_insert_with(|| Proc::new(cx));
                world(p, &list, calls);
                p.shm.cfg.sched_kinds = 0;
                let (t, n) = (threads.to_string(), number.to_string());
                let f = match p.run(&["test", "t", "--path", "a.fan", "--threads", &t, "--number", &n], &[]) {
                    Ok(f) => f,
                    Err(e) => cx.broken(&e),
                };
                cx.traces += 1;
                cx.transitions += p.shm.tr.nev as u64;
                let tr = &p.shm.tr;
                if f != Fin::Exit(0) {
                    return Err(format!("the run did not end normally: {f:?}"));
                }
                race_tidy(tr, true)?;
                // never more than one used connection per thread
                let m = links(tr)?;
                let mut steps: Vec<(usize, i32)> = Vec::new();
                for l in m.values().filter(|l| l.sent > 0) {
                    steps.push((l.from, 1));
                    steps.push((l.closed.unwrap().1, -1));
                }
                steps.sort();
                let (mut open, mut top) = (0, 0);
                for s in steps {
                    open += s.1;
                    top = top.max(open);
                }
                cx.max("connections_at_once", top as u64);
                if top > threads as i32 {
                    return Err(format!("{top} connections in use at once by {threads} threads"));
                }
                if lingering(tr) > threads as usize * (list.len() + 2) + 4 {
                    return Err(format!("{} threads at the last call", lingering(tr)));
                }
                Ok(())
            });
        }
    }
    // schedules of races
    let b = if cx.thorough { 60_000 } else { 2_500 };
    let w = |ok, ms| (ok, ms);
    for list in [
        vec![(true, w(false, 0)), (false, w(true, 0))],
        vec![(true, w(true, 250)), (false, w(true, 50))],
        vec![(true, w(true, 210)), (false, w(true, 10))],
        vec![(true, w(true, 450)), (false, w(false, 250)), (true, w(true, 50))],
        vec![(false, w(true, 200)), (false, w(true, 0)), (true, w(true, 200))],
    ] {
        for feat in [F_TIMERENV, 0] {
            let d = format!("schedules of {list:?}, features {feat}");
            let p = &mut p;
            cx.all(d.as_bytes(), |cx| {
                let p = p.get_or_insert_with(|| Proc::new(cx));
                world(p, &list, 2);
                p.shm.cfg.feat = feat;
                search(cx, p, &Search { args: &ARGS, dev: 5, budget: b, split: true }, &d, &mut |_, tr, f| {
                    if *f != Fin::Exit(0) {
                        return Err(format!("the run did not end normally: {f:?}"));
                    }
                    race_tidy(tr, false)
                });
                Ok(())
            });
        }
    }
}
