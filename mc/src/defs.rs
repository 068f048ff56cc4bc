//! C33: definitions of requests and tests, and the names they are known by.
use crate::e2::{story, text, Fin, Proc};
use crate::http::{self, observe};
use crate::lang::{self, V};
use crate::lang_checks::sequences;
use crate::pool::Cx;
use crate::rt::*;
use crate::runs::{by_thread, requests, shuffle};
use crate::sut::{End, Session};
use std::collections::BTreeMap;
use std::rc::Rc;

const RESP: &[u8] = b"HTTP/1.1 200 X\r\n\r\nx";
/// The reference session: every call is answered with RESP.
fn env() -> lang::Env {
    let mut e = lang::Env::default();
    let v = V::Map(BTreeMap::from([
        ("version".to_string(), V::Str("HTTP/1.1".into())),
        ("status".to_string(), V::Int(200)),
        ("reason".to_string(), V::Str("X".into())),
        ("headers".to_string(), V::Map(BTreeMap::new())),
        ("body".to_string(), V::Str("x".into())),
        ("json".to_string(), V::Null),
    ]));
    e.responder = Some(Rc::new(move |_, _, _| Some(v.clone())));
    e
}
fn path(message: &str) -> String {
    http::message(message).url.path
}
/// Runs the texts in one session on both sides; `names` are compared as variables afterwards.
fn session(cx: &mut Cx, texts: &[&str], names: &[&str]) -> Result<(), String> {
    http::world(&mut cx.shm.cfg, RESP);
    let mut s = Session::new();
    let mut e = env();
    for t in texts {
        e.calls.clear();
        e.out.clear();
        let r = lang::run(&mut e, t);
        let o = observe(cx, &mut s, t);
        let want = match &r {
            Ok(v) => End::Value(v.debug()),
            Err(true) => End::ParseError,
            Err(false) => End::Error,
        };
        if o.end != want || o.out != e.out {
            return Err(format!("{t}: expected {want:?} and output {:?}, found {:?} and {:?}", e.out, o.end, o.out));
        }
        let recs = o.recs()?;
        let made: Vec<(String, String, usize)> = recs.iter().map(|r| (r.name.clone(), http::url(&r.url).path, r.asserts.len())).collect();
        let calls: Vec<(String, String, usize)> = e.calls.iter().map(|(n, m)| (n.clone(), path(m), e.requests[n].1.len())).collect();
        if made != calls || o.sent.len() != calls.len() {
            return Err(format!("{t}: calls (name, target, assertions) {made:?} over {} connections, expected {calls:?}", o.sent.len()));
        }
        for (i, c) in calls.iter().enumerate() {
            let line = text(&o.sent[i]).lines().next().unwrap_or("").to_string();
            if line.split(' ').nth(1) != Some(&c.1) {
                return Err(format!("{t}: request {i} is {line:?}, expected {:?}", c.1));
            }
        }
        for n in names {
            let (a, b) = (e.vars.get(*n).map(|v| v.debug()), s.var(n));
            if a != b {
                return Err(format!("{t}: variable {n} is {b:?}, expected {a:?}"));
            }
        }
        cx.state(format!("{want:?}{}{calls:?}", e.out).as_bytes());
    }
    Ok(())
}
/// What a run of a source with tests must show.
fn run(cx: &mut Cx, p: &mut Option<Proc>, source: &str, name: Option<&str>) {
    let d = format!("{source}\n--\ntest {}", name.unwrap_or(""));
    cx.case(d.as_bytes(), |cx| {
        let p = p.get_or_insert_with(|| Proc::new(cx));
        p.file("a.fan", source);
        let c = p.world();
        c.sched_kinds = 0;
        c.add_host("", &[v4(10, 0, 0, 1)]);
        c.add_rule(b"", RESP);
        let mut args = vec!["test"];
        args.extend(name);
        args.extend(["--path", "a.fan"]);
        let fin = match p.run(&args, &[]) {
            Ok(f) => f,
            Err(e) => cx.broken(&e),
        };
        cx.traces += 1;
        cx.transitions += p.shm.tr.nev as u64;
        cx.state(d.as_bytes());
        judge(source, name, &p.shm.tr, &fin).map_err(|m| format!("{m}\nend {fin:?}\n{}\n{}", story(&p.shm.tr), text(&p.shm.tr.out())))
    });
}
fn judge(source: &str, name: Option<&str>, tr: &Trace, fin: &Fin) -> Result<(), String> {
    if *fin != Fin::Exit(0) || !tr.cat(E_ERR).is_empty() {
        return Err(format!("the command did not end normally: {fin:?}"));
    }
    let out = text(&tr.out());
    let mut e = env();
    let prog = lang::parse(source);
    let top = lang::run(&mut e, source);
    let calls: Vec<String> = e.calls.iter().map(|(_, m)| path(m)).collect();
    let head = std::mem::take(&mut e.out);
    let Some(rest) = out.strip_prefix(&head) else { return Err(format!("the output of the top-level code is not {head:?}")) };
    let mut made: Vec<String> = requests(tr).into_iter().map(|r| r.3).collect();
    if made.len() < calls.len() || made[..calls.len()] != calls {
        return Err(format!("requests {made:?}, the top-level code makes {calls:?}"));
    }
    let one_line = |t: &str| t.ends_with('\n') && t.trim().len() > 1 && t.matches('\n').count() == 1;
    if top.is_err() {
        // one error and nothing more
        return if made.len() == calls.len() && one_line(rest) { Ok(()) } else { Err(format!("requests {made:?} and output {rest:?} after the top-level code failed")) };
    }
    let tests = prog.unwrap().tests;
    let chosen: Vec<&String> = match name {
        Some(n) => tests.keys().filter(|k| *k == n).collect(),
        None => tests.keys().collect(),
    };
    if name.is_some() && chosen.is_empty() {
        return if made.len() == calls.len() && one_line(rest) { Ok(()) } else { Err(format!("requests {made:?} and output {rest:?} for a test that is not defined")) };
    }
    // test by test: the lines printed, an error line, the reports
    let mut lines: Vec<Vec<String>> = Vec::new();
    let mut targets: Vec<Vec<String>> = Vec::new();
    for n in &chosen {
        let mut t = e.clone();
        t.calls.clear();
        t.out.clear();
        let r = t.block(&tests[*n]);
        let mut l: Vec<String> = t.out.lines().map(|x| x.to_string()).collect();
        if r.is_err() {
            l.push("!".into());
        }
        l.extend(t.calls.iter().map(|c| format!("=== TEST  {}", c.0)));
        lines.push(l);
        targets.push(t.calls.iter().map(|c| path(&c.1)).collect());
    }
    // reports without assertions have two lines
    let shown: Vec<String> = rest
        .lines()
        .filter(|l| !l.starts_with("--- ") && !l.contains("=>"))
        .map(|l| if l.starts_with('p') || l.starts_with("=== TEST  ") { l.to_string() } else { "!".into() })
        .collect();
    if !shuffle(&shown, &lines) {
        return Err(format!("lines {shown:?}, expected those of {lines:?}"));
    }
    let mut got: Vec<Vec<String>> = if calls.is_empty() {
        by_thread(tr).into_values().collect()
    } else {
        made.drain(..calls.len());
        let mut m: BTreeMap<u16, Vec<String>> = BTreeMap::new();
        for r in requests(tr).into_iter().skip(calls.len()) {
            m.entry(r.0).or_default().push(r.3);
        }
        m.into_values().collect()
    };
    targets.retain(|t| !t.is_empty());
    targets.sort();
    got.sort();
    if got != targets {
        return Err(format!("requests of the tests {got:?}, expected {targets:?}"));
    }
    Ok(())
}
/// Every name of a few characters, names that begin with or contain keywords and built-ins, long names.
fn names(thorough: bool) -> Vec<String> {
    let al: Vec<char> = "aZ_09é".chars().collect();
    let mut v: Vec<String> = Vec::new();
    for n in 1..=if thorough { 4 } else { 3 } {
        sequences(al.len(), n, |i| {
            let t: String = i.iter().map(|i| al[*i]).collect();
            if !t.starts_with(['0', '9']) && !t.contains('é') {
                v.push(t);
            }
        });
    }
    for k in ["let", "if", "else", "true", "false", "request", "test", "print", "println", "format", "length", "append", "null", "status", "body", "json", "headers", "exit", "main", "self", "x", "number", "thread"] {
        for (a, b) in [("", ""), ("", "s"), ("_", ""), ("", "_"), ("x", ""), ("", "1"), ("my", ""), ("", "let")] {
            v.push(format!("{a}{k}{b}"));
        }
        v.push(k.to_uppercase());
        v.push(format!("{}{}", k[..1].to_uppercase(), &k[1..]));
    }
    for n in [10usize, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000] {
        v.push("n".repeat(n));
    }
    v.retain(|n| !["let", "if", "else", "true", "false", "request", "test"].contains(&n.as_str()));
    v.sort();
    v.dedup();
    v
}

pub fn c33(cx: &mut Cx) {
    // every short sequence of definitions and uses, in one source and over several
    let items = [
        "request q`GET http://h/q1`[status == 200]",
        "request q`GET http://h/q2/{x}`",
        "request s`GET http://h/s/{x}`[q == 1, body == \"x\"]",
        "let q = 5",
        "let x = q",
        "let x = 1",
        "q",
        "q()",
        "s()",
        "s(q())",
        "q(print(\"a\"), let x = 2, println(\"b\"))",
        "q(nope)",
        "println(\"p{x}\", x)",
        "request println`GET http://h/println`[true]",
        "request length`GET http://h/length/{q}`",
        "length([1])",
        "test q { s() }",
        "test t { let x = 9; q() }",
        "t()",
        "if (true) { q(); x }",
        "if (x == 1) { request q`GET http://h/inner` }",
        "test u { request q`GET http://h/inner` }",
        "1/0",
        "let q = q()",
        "q.status + q().status",
        "let length = length(\"ab\")",
    ];
    let vars = ["q", "x", "s", "t", "length", "println"];
    for n in 1..=if cx.thorough { 4 } else { 3 } {
        sequences(items.len(), n, |v| {
            if !cx.mine() {
                cx.skip();
                return;
            }
            let list: Vec<&str> = v.iter().map(|i| items[*i]).collect();
            let k = v.iter().sum::<usize>();
            cx.case(list.join(" | ").as_bytes(), |cx| {
                let whole = list.join([" ", ";\n", "; ", "\n"][k % 4]);
                session(cx, &[whole.as_str(), "q()", "s()", "length([1])"], &vars)?;
                if n == 1 {
                    return Ok(());
                }
                // one text after the other, and a use that follows
                let mut each = list.clone();
                each.push("q()");
                session(cx, &each, &vars)?;
                if n > 2 {
                    let (a, b) = (format!("{} {}", list[0], list[1]), list[2..].join("\n"));
                    session(cx, &[a.as_str(), b.as_str()], &vars)?;
                }
                Ok(())
            });
        });
    }
    // every name as variable, request and test, alone and all at once
    let all = names(cx.thorough);
    for n in &all {
        if !cx.mine() {
            cx.skip();
            continue;
        }
        cx.case(format!("name {n}").as_bytes(), |cx| {
            let req = format!("request {n}`GET http://h/of/{{{n}}}`[{n} != 1, status == 200]");
            let call = format!("{n}()");
            let set = format!("let {n} = 7");
            let test = format!("test {n} {{ {n}({n}) }}");
            for order in [[0, 1, 2, 3], [3, 2, 1, 0], [1, 0, 3, 2], [2, 3, 0, 1]] {
                let parts = [&req, &call, &set, &test];
                let t: Vec<&str> = order.iter().map(|i| parts[*i].as_str()).collect();
                session(cx, &[t.join("; ").as_str(), call.as_str(), &format!("{n}"), &format!("{n}({n}, {n}())")], &[n])?;
                session(cx, &t, &[n])?;
            }
            session(cx, &[&format!("{n}"), &call, &set, &call, &format!("{n} + {n}"), &format!("{{\"{n}\": {n}}}.{n}")], &[n])
        });
    }
    // names that are nearly the same are different names
    for pair in all.windows(2).map(|w| [w[0].clone(), w[1].clone()]).chain(all.iter().flat_map(|n| [[n.clone(), format!("{n}_")], [n.clone(), format!("{n}{n}")], [n.clone(), format!("_{n}")], [n.clone(), n.to_lowercase() + "1"], [n.to_lowercase(), n.to_uppercase()]])) {
        let [a, b] = pair;
        let key = ["let", "if", "else", "true", "false", "request", "test"];
        if a == b || key.contains(&a.as_str()) || key.contains(&b.as_str()) || !cx.mine() {
            cx.skip();
            continue;
        }
        cx.case(format!("names {a} and {b}").as_bytes(), |cx| {
            let t = format!("{b}; {a}(); request {b}`GET http://h/second/{{{b}}}/{{{a}}}`[true, true]; request {a}`GET http://h/first/{{{a}}}/{{{b}}}`[true]; let {a} = 1; let {b} = 2; {b}()");
            let u = t.trim_start_matches(&format!("{b}; "));
            session(cx, &[&t, u, &format!("{b}(); {a}()"), &format!("let {a} = [{a}, {b}]; {a}(); {b}()"), &format!("request {a}`GET http://h/third/{{{b}}}`; {a}(); {b}()")], &[&a, &b])
        });
    }
    // many definitions, of different requests and of the same one
    let mut sizes: Vec<usize> = (2..=20).chain([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 513, 1000, 1025]).collect();
    if cx.thorough {
        sizes.extend(21..130);
        sizes.extend([2048, 3000, 4097]);
    }
    for n in sizes {
        for shape in 0..6 {
            cx.case(format!("{n} definitions, shape {shape}").as_bytes(), |cx| {
                let one = |i: usize| format!("request r{i}`GET http://h/{i}/{{x}}`[{}]", "true, ".repeat(i % 4).trim_end_matches(", "));
                let same = |i: usize| format!("request r`GET http://h/{i}/{{x}}`[{}]", "true, ".repeat(i % 4).trim_end_matches(", "));
                let at = |f: &dyn Fn(usize) -> String, sep: &str| (0..n).map(f).collect::<Vec<_>>().join(sep);
                let texts: Vec<String> = match shape {
                    0 => vec![at(&one, "\n"), (0..n).rev().step_by(1 + n / 40).map(|i| format!("r{i}();")).collect()],
                    1 => vec![format!("r{}(); {} let x = 3; r0(); r{}()", n - 1, at(&one, " "), n / 2)],
                    2 => vec![at(&same, "; ") + "; r()"],
                    3 => vec![format!("let x = 1; r(); r(); {}", at(&same, "\n"))],
                    4 => (0..n.min(300)).flat_map(|i| [same(i), "r()".to_string()]).collect(),
                    _ => vec![at(&|i| format!("let r{i} = {i}; {}; test r{i} {{ r{i}() }}", one(i)), "\n"), format!("r0(); r{0}; r{0}(); [r0, r{1}]", n - 1, n / 2)],
                };
                session(cx, &texts.iter().map(|t| t.as_str()).collect::<Vec<_>>(), &["r", "x", "r0", "r1"])
            });
        }
    }
    // calls with every number of arguments, each with an effect, of which one may fail
    let effects: [fn(usize) -> String; 5] = [
        |i| format!("println(\"a{i}\")"),
        |i| format!("let x = {i}"),
        |i| format!("[x, let v{} = {i}, x]", i % 3),
        |i| if i % 2 == 0 { "s()".to_string() } else { format!("let x = {i}") },
        |i| format!("if (true) {{ print(\"{i},\"); let x = [{i}, {i}] }}"),
    ];
    let mut sizes: Vec<usize> = (0..=18).chain([31, 32, 33, 64, 65, 128, 129, 255, 256, 257]).collect();
    if cx.thorough {
        sizes.extend(19..130);
        sizes.extend([511, 512, 513, 1024, 1025]);
    }
    for n in sizes {
        for (e, effect) in effects.iter().enumerate() {
            let mut at: Vec<Option<usize>> = vec![None];
            if n <= 8 {
                at.extend((0..n).map(Some));
            } else {
                at.extend([Some(0), Some(n / 2), Some(n - 1)]);
            }
            for fail in at {
                if !cx.mine() {
                    cx.skip();
                    continue;
                }
                cx.case(format!("{n} arguments, effect {e}, failing {fail:?}").as_bytes(), |cx| {
                    let list: Vec<String> = (0..n).map(|i| if Some(i) == fail { "1/0".to_string() } else { effect(i) }).collect();
                    let call = format!("q({})", list.join(", "));
                    let defs = "request q`GET http://h/q/{x}/{v0}/{v2}` request s`GET http://h/s/{x}` let x = 0; let v0 = 0";
                    session(cx, &[defs, &call, "x; q()", &format!("[{call}, {call}]")], &["x", "v0", "v1", "v2"])
                });
            }
        }
    }
    // whole sources under `test`
    let mut p: Option<Proc> = None;
    let items = [
        "request q`GET http://h/q1`[status == 200]",
        "request q`GET http://h/q2/{x}`",
        "request s`GET http://h/s/{x}`[status == 200, true]",
        "let x = 1",
        "let q = x",
        "println(\"p{v}\", x)",
        "q()",
        "test t { println(\"pt1{v}\", x); q() }",
        "test t { s(); println(\"pt2\") }",
        "test q { q(q()); println(\"pq{v}\", x) }",
        "test s { let x = 8; s(); q() }",
        "test println { println(\"pp{v}\", q); s() }",
        "request println`GET http://h/println`[true]",
        "test x { }",
        "test u { request q`GET http://h/inner` }",
        "1/0",
    ];
    for n in 1..=if cx.thorough { 4 } else { 3 } {
        sequences(items.len(), n, |v| {
            let list: Vec<&str> = v.iter().map(|i| items[*i]).collect();
            let k = v.iter().sum::<usize>();
            if n == 4 && k % 3 != 0 {
                return;
            }
            let source = list.join([" ", "\n", ";\n", "\r\n\t"][k % 4]);
            let name = ["t", "q", "s", "println", "x", "u", "T"][k % 7];
            if n < 3 {
                for name in ["t", "q", "println", "x"] {
                    run(cx, &mut p, &source, Some(name));
                }
                run(cx, &mut p, &source, None);
            } else {
                run(cx, &mut p, &source, if k % 2 == 0 { None } else { Some(name) });
                // the same with the requests and a use in front and behind
                if n == 3 {
                    run(cx, &mut p, &format!("{source}\nlet x = 2\n{}\n{}", items[0], items[2]), if k % 2 == 1 { None } else { Some(name) });
                }
            }
        });
    }
    for (k, n) in all.iter().enumerate() {
        if n.len() > 200 || !cx.thorough && k % 3 != 0 && n.len() == 3 {
            continue;
        }
        let near = format!("{n}x");
        run(cx, &mut p, &format!("let {n} = 7 test {n} {{ {n}() let {n} = [{n}] {n}({n}) }} test {near} {{ {n}() {n}() {n}() }} request {n}`GET http://h/{{{n}}}`"), Some(n));
        run(cx, &mut p, &format!("test {near} {{ {n}() {n}() {n}() }} request {n}`GET http://h/{{{n}}}` let {near} = 1"), Some(n));
        run(cx, &mut p, &format!("test {n} {{ {n}() }} test {near} {{ {n}() {n}() {n}() }} request {n}`GET http://h/{{{n}}}` let {near} = 1"), None);
    }
    for n in [2usize, 5, 8, 9, 16, 17, 33, 64, 65, 100, 129, 257] {
        let same: String = (0..n).map(|i| format!("test t {{ println(\"p{i}\"); q() }}\n")).collect();
        run(cx, &mut p, &format!("{same}request q`GET http://h/q`"), Some("t"));
        run(cx, &mut p, &format!("{same}request q`GET http://h/q`"), None);
        let each: String = (0..n).map(|i| format!("test t{i} {{ println(\"p{i}\"); q{}() }}\n", n - 1 - i)).collect();
        let req: String = (0..n).map(|i| format!("request q{i}`GET http://h/q{i}`\n")).collect();
        for i in [0, 1, n / 2, n - 1, n] {
            run(cx, &mut p, &format!("{each}{req}"), Some(&format!("t{i}")));
            run(cx, &mut p, &format!("{req}{each}"), Some(&format!("t{i}")));
        }
        if n < 40 {
            run(cx, &mut p, &format!("{each}{req}"), None);
        }
    }
}
