//! C16, C19, C20, C28: decoded bodies, times, assertions and record files.
use crate::avro;
use crate::http::{self, observe};
use crate::http_checks::def;
use crate::lang::{self, V};
use crate::lang_checks::{esc, pairs, sequences, whole};
use crate::pool::Cx;
use crate::rt::*;
use crate::sut::{self, End, Session, Sink};

// ------------------------------------------------------------------------------------------ C16
fn json_text(v: &V, style: usize) -> String {
    let (c, k, o, e) = match style {
        0 => (",", ":", "", ""),
        1 => (", ", ": ", " ", " "),
        2 => (",\n\t", " :\r\n", "\n  ", "\r\n"),
        _ => (" , ", "\t:\t", "", " "),
    };
    match v {
        V::Null => "null".into(),
        V::Int(i) => i.to_string(),
        V::Float(f) => format!("{f:?}"),
        V::Bool(b) => b.to_string(),
        V::Str(s) => format!("\"{s}\""),
        V::Arr(a) => format!("[{o}{}{e}]", a.iter().map(|x| json_text(x, style)).collect::<Vec<_>>().join(c)),
        V::Map(m) => format!("{{{o}{}{e}}}", m.iter().map(|(n, x)| format!("\"{n}\"{k}{}", json_text(x, style))).collect::<Vec<_>>().join(c)),
    }
}
fn answer(body: &str) -> Vec<u8> {
    format!("HTTP/1.1 200 OK\r\nContent-Type: application/json\r\n\r\n{body}").into_bytes()
}
fn decoded(cx: &mut Cx, body: &str) -> Result<String, String> {
    http::world(&mut cx.shm.cfg, &answer(body));
    let mut s = Session::new();
    s.eval(&def("GET http://h/", ""));
    let o = observe(cx, &mut s, "let v = q(); println(\"next\"); [v.json, v.status]");
    let r = o.one()?;
    if o.out != "next\n" || o.conns.len() != 1 || r.rbody != body || r.status != 200 || !r.error.is_empty() {
        return Err(format!("the call did not go well: {:?} {:?} {:?}", o.end, o.out, r));
    }
    match o.end {
        End::Value(v) => v.strip_prefix("Array([").and_then(|v| v.strip_suffix(", Integer(200)])")).map(|v| v.to_string()).ok_or(format!("value {v}")),
        e => Err(format!("the script failed: {e:?}")),
    }
}
pub fn c16(cx: &mut Cx) {
    let map = |p: &[(&str, V)]| V::Map(p.iter().map(|(k, v)| (k.to_string(), v.clone())).collect());
    let scalars = vec![
        V::Null,
        V::Bool(true),
        V::Bool(false),
        V::Int(0),
        V::Int(1),
        V::Int(-1),
        V::Int(i64::MAX),
        V::Int(-i64::MAX),
        V::Int(1234567890123),
        V::Float(0.5),
        V::Float(-0.5),
        V::Float(100.0),
        V::Float(-0.0),
        V::Float(123456789.0625),
        V::Float(0.1),
        V::s(""),
        V::s("a"),
        V::s("é😀"),
        V::s("{a} [1, 2]: null // ; let"),
        V::s("`"),
        V::s("null"),
        V::s(" \u{a0}'"),
        V::s("-5"),
    ];
    let few = [V::Null, V::Int(-7), V::Float(-1.5), V::s("x"), V::Bool(true)];
    let keys = ["", "a", "b c", "é", "true", "let", "1"];
    let mut docs: Vec<V> = scalars.clone();
    docs.push(V::Arr(vec![]));
    docs.push(map(&[]));
    for a in &scalars {
        docs.push(V::Arr(vec![a.clone()]));
        for k in keys {
            docs.push(map(&[(k, a.clone())]));
        }
        for b in &scalars {
            docs.push(V::Arr(vec![a.clone(), b.clone()]));
            docs.push(map(&[("k", a.clone()), ("l", b.clone())]));
        }
    }
    // nested: level by level over a smaller alphabet
    let mut level: Vec<V> = few.to_vec();
    level.push(V::Arr(vec![]));
    level.push(map(&[]));
    for depth in 0..if cx.thorough { 3 } else { 2 } {
        let mut next = Vec::new();
        for (i, a) in level.iter().enumerate() {
            next.push(V::Arr(vec![a.clone()]));
            next.push(map(&[("a", a.clone())]));
            for (j, b) in level.iter().enumerate() {
                if depth > 0 && (i * 31 + j) % (if depth == 1 { 1 } else { 37 }) != 0 {
                    continue;
                }
                next.push(V::Arr(vec![a.clone(), b.clone()]));
                next.push(map(&[("a", a.clone()), ("b", b.clone())]));
            }
        }
        docs.extend(next.iter().cloned());
        next.truncate(if depth == 0 { 120 } else { 1500 });
        level = next;
    }
    // deep and wide
    for d in [5usize, 20, 50, 100] {
        let mut v = V::Int(-1);
        let mut w = V::Int(1);
        for _ in 0..d {
            v = V::Arr(vec![v]);
            w = map(&[("k", w)]);
        }
        docs.push(v);
        docs.push(w);
    }
    for n in [64usize, 1000, 5000] {
        docs.push(V::Arr((0..n).map(|i| V::Int(i as i64 - 32)).collect()));
        docs.push(V::Map((0..n).map(|i| (format!("k{i}"), V::Float(i as f64 + 0.5))).collect()));
        docs.push(V::s(&"long text ".repeat(n)));
    }
    for d in &docs {
        for style in 0..4 {
            if style > 0 && !matches!(d, V::Arr(_) | V::Map(_)) && style < 3 {
                continue;
            }
            if !cx.mine() {
                cx.skip();
                continue;
            }
            let mut t = json_text(d, style);
            if style == 3 {
                t = format!(" \r\n{t}\n");
            }
            cx.case(t.as_bytes(), |cx| {
                let got = decoded(cx, &t)?;
                if got != d.debug() {
                    return Err(format!("document {t}\ndecoded as {got}\nexpected   {}", d.debug()));
                }
                cx.state(got.as_bytes());
                Ok(())
            });
        }
    }
    // numbers around every power, many at a time; and as fractions
    let check = |cx: &mut Cx, t: String, d: V| {
        if !cx.mine() {
            cx.skip();
            return;
        }
        cx.case(t.as_bytes(), |cx| {
            let got = decoded(cx, &t)?;
            if got != d.debug() {
                return Err(format!("document {t}\ndecoded as {got}\nexpected   {}", d.debug()));
            }
            cx.state(got.as_bytes());
            Ok(())
        });
    };
    let ints: Vec<i64> = whole().iter().flat_map(|n| [*n, -*n]).collect();
    for n in &ints {
        if cx.thorough || n.count_ones() < 9 || n.count_zeros() < 9 {
            check(cx, n.to_string(), V::Int(*n));
        }
    }
    for c in ints.chunks(16) {
        check(cx, format!("[{}]", c.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(",")), V::Arr(c.iter().map(|n| V::Int(*n)).collect()));
        check(cx, format!("{{{}}}", c.iter().map(|n| format!("\"{n}\": {n}")).collect::<Vec<_>>().join(",")), V::Map(c.iter().map(|n| (n.to_string(), V::Int(*n))).collect()));
        let f: Vec<String> = c.iter().enumerate().map(|(i, n)| format!("{n}.{}", ["0", "5", "25", "1", "125", "999", "000001"][i % 7])).collect();
        check(cx, format!("[{}]", f.join(" ,")), V::Arr(f.iter().map(|t| V::Float(t.parse().unwrap())).collect()));
    }
    for k in 1..=60usize {
        for t in [format!("0.{}1", "0".repeat(k)), format!("0.{}", "3".repeat(k)), format!("1.{}", "0".repeat(k)), format!("-{}.5", "9".repeat(k)), format!("{}.{}", "12".repeat(k), "34".repeat(k))] {
            let f: f64 = t.parse().unwrap();
            check(cx, t, V::Float(f));
        }
    }
    // every short number
    let mut nums: Vec<String> = Vec::new();
    for n in 1..=if cx.thorough { 8 } else { 6 } {
        crate::lang_checks::sequences(4, n, |v| {
            let t: String = v.iter().map(|i| ['0', '1', '5', '.'][*i]).collect();
            let (w, f) = t.split_once('.').unwrap_or((&t, "0"));
            if !w.is_empty() && (w == "0" || !w.starts_with('0')) && !f.is_empty() && !f.contains('.') {
                nums.push(t);
            }
        });
    }
    let num = |t: &str| if t.contains('.') { V::Float(t.parse().unwrap()) } else { V::Int(t.parse().unwrap()) };
    for c in nums.chunks(24) {
        let neg: Vec<String> = c.iter().map(|t| format!("-{t}")).collect();
        check(cx, format!("[{},{}]", c.join(","), neg.join(", ")), V::Arr(c.iter().chain(&neg).map(|t| num(t)).collect()));
        check(cx, format!("{{\"a\": [{}], \"b\": {{\"c\":{}}}}}", neg.join(","), neg[0]), map(&[("a", V::Arr(neg.iter().map(|t| num(t)).collect())), ("b", map(&[("c", num(&neg[0]))]))]));
        for t in [&c[0], &neg[0], &neg[neg.len() / 2]] {
            check(cx, t.clone(), num(t));
        }
    }
    // any two characters in a member's name and in a string
    pairs(|p| {
        if p.contains(['"', '\\']) || p.chars().any(|c| (c as u32) < 32) {
            return;
        }
        check(cx, format!("{{\"{p}\": \"a{p}b\", \"x{p}\": [\"{p}\"]}}"), map(&[(p, V::s(&format!("a{p}b"))), (&format!("x{p}"), V::Arr(vec![V::s(p)]))]));
    });
    for n in [10usize, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65_535, 65_537] {
        let u = "é".repeat(n);
        check(cx, format!("\"{u}\""), V::s(&u));
        check(cx, format!("{{\"{u}\": \"{u}\"}}"), map(&[(&u, V::s(&u))]));
        check(cx, format!("{}[1{}]", " ".repeat(n), " ".repeat(n)), V::Arr(vec![V::Int(1)]));
        check(cx, format!("[{}]", vec!["null"; n].join(",")), V::Arr(vec![V::Null; n]));
        check(cx, format!("[{}]", vec!["{\"a\":{}}"; n.min(5000)].join(",")), V::Arr(vec![map(&[("a", map(&[]))]); n.min(5000)]));
    }
    // documents with escapes and exponents: what fails is listed in known_findings.txt
    let special: Vec<(&str, V)> = vec![
        (r#""a\"b""#, V::s("a\"b")),
        (r#""x\\y""#, V::s("x\\y")),
        (r#""a\nb""#, V::s("a\nb")),
        (r#""\u00e9""#, V::s("é")),
        (r#""a\/b""#, V::s("a/b")),
        (r#"{"k\"": 1}"#, map(&[("k\"", V::Int(1))])),
        (r#"["\t", "\r\b\f"]"#, V::Arr(vec![V::s("\t"), V::s("\r\u{8}\u{c}")])),
        ("1e5", V::Float(1e5)),
        ("-2.5e-3", V::Float(-2.5e-3)),
        ("[1E+2]", V::Arr(vec![V::Float(100.0)])),
        ("-9223372036854775808", V::Int(i64::MIN)),
    ];
    let known = crate::known::lines("C16");
    for (t, want) in &special {
        if !cx.mine() {
            cx.skip();
            continue;
        }
        cx.case(t.as_bytes(), |cx| {
            let got = decoded(cx, t)?;
            if got == want.debug() {
                cx.count("special_documents_right", 1);
                return Ok(());
            }
            if known.iter().any(|(k, _)| k == t) {
                cx.count("known_findings", 1);
                return Ok(());
            }
            Err(format!("document {t}\ndecoded as {got}\nexpected   {}", want.debug()))
        });
    }
    // whatever the body is: the call succeeds and nothing in it is executed
    let toks = ["x", "1", "-", "\"s\"", "[", "]", "{", "}", ":", ",", "let x = 2", "println(\"boo\")", "q()", "request q`GET http://h2/`[]", "test t { q() }", "if (true) { x }", "null", "!", "9999999999999999999", ";", "(", ")", "`t`", "<html>", "\"", "+", "append(x, 1)", "1e5", "\\"];
    for n in 1..=if cx.thorough { 4 } else { 3 } {
        sequences(toks.len(), n, |v| {
            if !cx.mine() {
                cx.skip();
                return;
            }
            let t = v.iter().map(|i| toks[*i]).collect::<Vec<_>>().join(" ");
            cx.case(t.as_bytes(), |cx| inert(cx, &t));
        });
    }
    for t in ["", " ", "\u{feff}{}", "<!DOCTYPE html>", "{\"a\": println(\"boo\")}", "[let x = 9]", "{\"a\": q()}", "{x: 1}", "[1, 2", "{\"a\"", "--1", "- 1", "1 2 3", "[1,]"] {
        if !cx.mine() {
            cx.skip();
            continue;
        }
        cx.case(t.as_bytes(), |cx| inert(cx, t));
    }
    for n in [100usize, 200, 1000, 10_000, 100_000, 400_000] {
        for c in ["[", "{\"a\":", "(", "-", "!", "{", "1+", "[1,"] {
            if !cx.mine() {
                cx.skip();
                continue;
            }
            let t = c.repeat(n);
            cx.case(format!("{c} {n} times").as_bytes(), |cx| inert(cx, &t));
        }
    }
}
fn inert(cx: &mut Cx, body: &str) -> Result<(), String> {
    http::world(&mut cx.shm.cfg, &answer(body));
    let mut s = Session::new();
    s.eval(&def("GET http://h/", ""));
    s.eval("let x = 41");
    let o = observe(cx, &mut s, "let v = q(); println(\"next\"); [v.status, length(v.body), x]");
    if o.out != "next\n" || o.conns.len() != 1 || o.end != End::Value(V::Arr(vec![V::Int(200), V::Int(body.len() as i64), V::Int(41)]).debug()) {
        return Err(format!("connections {:?}, output {:?}, value {:?}", o.conns, o.out, o.end));
    }
    let r = o.one()?;
    if r.rbody != body || !r.error.is_empty() {
        return Err(format!("record {r:?}"));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C19
pub fn c19(cx: &mut Cx) {
    const S: u64 = 1_000_000_000;
    let durations: &[u64] = if cx.thorough { &[0, 1, 999, 1_000_000, 199_999_999, S, 3 * 3600 * S, 400 * 86400 * S] } else { &[0, 1, 1_000_003, 2 * S, 3 * 3600 * S] };
    // every assignment of durations to the phases: each part is exactly the time spent there
    sequences(durations.len(), 5, |v| {
        if !cx.mine() {
            cx.skip();
            return;
        }
        let d: Vec<u64> = v.iter().map(|i| durations[*i]).collect();
        cx.case(format!("resolve {} connect {} write {} delay {} read {} ns", d[0], d[1], d[2], d[3], d[4]).as_bytes(), |cx| {
            http::world(&mut cx.shm.cfg, http::OK);
            let c = &mut cx.shm.cfg;
            c.host[0].delay_ns = d[0];
            c.host[0].addr[0].delay_ns = d[1];
            c.send_delay_ns = d[2];
            c.rule[0].delay_ns = d[3];
            c.rule[0].split = 9;
            c.rule[0].body_delay_ns = d[4];
            let wall = c.wall0 as i64;
            let r = one(cx)?;
            let got = [r.resolve, r.connect, r.write, r.delay, r.read].map(|x| x as u64);
            if got[..] != d[..] {
                return Err(format!("reported resolve, connect, write, delay, read {got:?}, spent {d:?}"));
            }
            let total: u64 = d.iter().sum();
            if r.total as u64 != total || r.start != wall || r.end != wall + total as i64 {
                return Err(format!("total {} start {} end {}, expected {total} {wall} {}", r.total, r.start, r.end, wall + total as i64));
            }
            cx.state(format!("{got:?}").as_bytes());
            Ok(())
        });
    });
    // requests and answers of every kind
    let bodies = ["".to_string(), "\n\nbody".to_string(), "Content-Type: application/x-www-form-urlencoded\n\na: b".into(), "Content-Type: multipart/form-data\n\na: b".into(), format!("X: y\n\n{}", "z".repeat(30_000))];
    for (ri, resp) in crate::http_checks::grid().into_iter().enumerate() {
        for (bi, body) in bodies.iter().enumerate() {
            if ri % 5 != bi && !(cx.thorough && ri % 2 == bi % 2) && resp.len() < 2000 {
                continue;
            }
            for end in [0, 1] {
                if !cx.mine() {
                    cx.skip();
                    continue;
                }
                cx.case(format!("request {bi}, answer {ri} ({}) of {} bytes, pause {end}", http::show(&resp[..12]), resp.len()).as_bytes(), |cx| {
                    http::world(&mut cx.shm.cfg, &resp);
                    let d = [1_000_003, 20_000_081, 0, 700_000_127, 3_000_000_019];
                    let c = &mut cx.shm.cfg;
                    c.host[0].delay_ns = d[0];
                    c.host[0].addr[0].delay_ns = d[1];
                    c.rule[0].delay_ns = d[3];
                    c.rule[0].split = if end == 1 { resp.len() as u32 - 1 } else { resp.len() as u32 / 2 };
                    c.rule[0].body_delay_ns = d[4];
                    let wall = c.wall0 as i64;
                    let mut s = Session::new();
                    s.eval(&def(&format!("POST http://h/p\n{body}"), "status == 200"));
                    let o = observe(cx, &mut s, "let v = q(); v.status");
                    let r = o.one()?;
                    if !r.error.is_empty() {
                        return Err(format!("the call failed: {:?}", r.error));
                    }
                    let got = [r.resolve, r.connect, r.write, r.delay, r.read].map(|x| x as u64);
                    let total: u64 = d.iter().sum();
                    if got != d || r.total as u64 != total || r.start != wall || r.end != wall + total as i64 {
                        return Err(format!("reported resolve, connect, write, delay, read {got:?}, total {}, start {}, end {}; spent {d:?} from {wall}", r.total, r.start, r.end));
                    }
                    cx.state(format!("{bi} {ri} {end}").as_bytes());
                    Ok(())
                });
            }
        }
    }
    // every sequence of clock readings: time may pass between any two of them
    let opts: &[u64] = if cx.thorough { &[0, 1, 50 * S, 3600 * 24 * 365 * S] } else { &[0, 1, 3600 * 24 * 365 * S] };
    let devs = if cx.thorough { 12 } else { 12 };
    explore(cx, F_CLOCK, opts, devs, 400_000);
    // the wall clock may be set back at any reading
    explore(cx, F_CLOCK | F_WALLBACK, &[0, 1_000_000_007], if cx.thorough { 6 } else { 4 }, 400_000);
}
fn one(cx: &mut Cx) -> Result<avro::Rec, String> {
    let mut s = Session::new();
    s.eval(&def("POST http://h/p\nA: b\n\nbody", "status == 200"));
    let o = observe(cx, &mut s, "let v = q(); println(\"next\"); v.status");
    if o.out != "next\n" || o.end != End::Value("Integer(200)".into()) {
        return Err(format!("the call failed: {:?} {:?}", o.end, o.out));
    }
    let r = o.one()?;
    if !r.error.is_empty() {
        return Err(format!("error {:?}", r.error));
    }
    // the report shows the same total
    let d = format!("({:?})", std::time::Duration::from_nanos(r.total as u64));
    if !o.shown[0].contains(&d) {
        return Err(format!("the report {:?} does not show {d}", o.shown[0]));
    }
    Ok(r)
}
/// Depth-first over the choices of the environment, each path a case, up to `devs` non-default answers.
fn explore(cx: &mut Cx, feat: u32, opts: &[u64], devs: usize, cap: usize) {
    let mut stack: Vec<Vec<u16>> = vec![vec![]];
    let mut n = 0usize;
    // the tree is walked in every shard (which costs one run per path only for its own cases): split at
    // the first level that has enough branches
    let mut roots: Vec<Vec<u16>> = Vec::new();
    while let Some(p) = stack.pop() {
        if p.len() >= 4 {
            roots.push(p);
            continue;
        }
        let ch = trial(cx, feat, opts, &p);
        if ch.len() <= p.len() {
            roots.push(p);
            continue;
        }
        for k in (0..ch[p.len()]).rev() {
            let mut q = p.clone();
            q.push(k as u16);
            stack.push(q);
        }
    }
    for root in roots {
        if root.iter().filter(|k| **k > 0).count() > devs {
            continue;
        }
        if !cx.mine() {
            cx.skip();
            continue;
        }
        cx.case(format!("clock choices from {root:?}").as_bytes(), |cx| {
            let mut stack = vec![root.clone()];
            while let Some(p) = stack.pop() {
                n += 1;
                if n > cap {
                    cx.count("cut_off", 1);
                    return Ok(());
                }
                cx.redescribe(format!("features {feat:#x}, advances {opts:?}, choices {p:?}").as_bytes());
                let r = timed(cx, feat, opts, &p)?;
                let ch = choices(cx);
                cx.deepest = cx.deepest.max(ch.len() as u64);
                cx.count("clock_histories", 1);
                cx.state(format!("{:?}", (r.total, r.resolve, r.connect, r.write, r.delay, r.read, r.start, r.end)).as_bytes());
                let used = p.iter().filter(|k| **k > 0).count();
                if used >= devs {
                    continue;
                }
                for i in p.len()..ch.len() {
                    for k in 1..ch[i] {
                        let mut q = p.clone();
                        q.resize(i, 0);
                        q.push(k as u16);
                        stack.push(q);
                    }
                }
            }
            Ok(())
        });
    }
}
fn choices(cx: &Cx) -> Vec<u8> {
    cx.shm.tr.choices().iter().map(|c| c.n).collect()
}
fn trial(cx: &mut Cx, feat: u32, opts: &[u64], p: &[u16]) -> Vec<u8> {
    let _ = timed(cx, feat, opts, p);
    choices(cx)
}
fn timed(cx: &mut Cx, feat: u32, opts: &[u64], p: &[u16]) -> Result<avro::Rec, String> {
    http::world(&mut cx.shm.cfg, http::OK);
    let c = &mut cx.shm.cfg;
    c.feat = feat;
    c.clock_nopt = opts.len() as i32;
    c.clock_opt[..opts.len()].copy_from_slice(opts);
    c.nprefix = p.len() as u32;
    c.prefix[..p.len()].copy_from_slice(p);
    let mut s = Session::new();
    s.eval(&def("POST http://h/p\n\nbody", ""));
    let o = observe(cx, &mut s, "let v = q(); v.status");
    if o.end != End::Value("Integer(200)".into()) {
        return Err(format!("the call failed: {:?}", o.end));
    }
    let r = o.one()?;
    if !r.error.is_empty() {
        return Err(format!("error {:?}", r.error));
    }
    let parts = [r.resolve, r.connect, r.write, r.delay, r.read];
    if parts.iter().any(|x| *x < 0) || parts.iter().sum::<i64>() != r.total {
        return Err(format!("total {} is not the sum of {parts:?}", r.total));
    }
    // wall clock readings of the run, in order
    let walls: Vec<i64> = cx.shm.tr.events().iter().filter(|e| e.typ == E_TOK && e.a == 1).map(|e| e.b.max(0)).collect();
    if !walls.contains(&r.start) || !walls.contains(&r.end) {
        return Err(format!("start {} and end {} are no readings of the wall clock {walls:?}", r.start, r.end));
    }
    if r.start != walls[0] || r.end != *walls.last().unwrap() {
        return Err(format!("start {} and end {} are not the first and last readings of {walls:?}", r.start, r.end));
    }
    Ok(r)
}

// ------------------------------------------------------------------------------------------ C20
fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
pub fn c20(cx: &mut Cx) {
    let bodies = ["{\"a\": {\"b\": [1, 2.5]}, \"n\": null, \"t\": true, \"s\": \"x\"}", "plain text", ""];
    let resps: Vec<Vec<u8>> = ["200 OK", "404 Not Found"].iter().flat_map(|st| bodies.iter().map(move |b| format!("HTTP/1.1 {st}\r\nA: b\r\nA: c\r\nX-Y: z\r\n\r\n{b}").into_bytes())).collect();
    let operands = [
        "status", "reason", "version", "body", "headers", "json", "json.a", "json.a.b[1]", "json.n", "json.t", "headers.A", "headers[\"X-Y\"][0]", "missing", "missing.x", "200", "404", "1.5", "\"OK\"", "\"HTTP/1.1\"", "\"\"", "true", "false", "[1, 2.5]", "status + 4", "length(body)", "1 / 0", "-status", "!json.t",
        "v0", "q()", "format(\"{x}\", status)",
    ];
    let ops = ["==", "!=", "<", "<=", ">", ">="];
    for r in &resps {
        for a in operands {
            for op in ops {
                for (bi, b) in operands.iter().enumerate() {
                    if !cx.thorough && r != &resps[0] && r != &resps[4] && bi % 3 != 0 {
                        continue;
                    }
                    judge(cx, r, &[&format!("{a} {op} {b}")]);
                }
            }
        }
    }
    let exprs = [
        "status == 200", "status == 404", "status != 200", "status", "missing", "json.t", "json.n", "!json.n", "status == 200 && reason == \"OK\"", "status == 404 || json.t", "status == 404 && missing", "(status == 200)", "!(status == 200)", "true", "false", "1 / 0", "status < 300 && status >= 200 && version == \"HTTP/1.1\"",
        "length(json.a.b) == 2", "body", "\"\"", "0", "status == 200 == true", "json.a == json.a", "status + 1", "status & 1", "missing == missing", "status == 404 || status == 200", "1 < 2 == true", "[false]", "json.a.b[5]", "headers.nope",
    ];
    for r in &resps {
        for n in 0..=2 {
            sequences(exprs.len(), n, |v| judge(cx, r, &v.iter().map(|i| exprs[*i]).collect::<Vec<_>>()));
        }
    }
    // assertions of every kind of expression inside every other
    let kinds = [
        "let y = @", "if (@) {@} else {@}", "if (@) {@}", "(@)", "!@", "-@", "[@, @]", "{\"k\": @}.k", "{@: @}", "format(\"{x}\", @)", "length([@])", "@ + @", "@ && @", "@ || @", "@ == @", "@ < @", "@ & @", "append([@], @)[1]", "{\"k\": @}[\"k\"]", "nothing(@)", "(@).k",
    ];
    let leaves = ["status", "\"x\"", "missing", "200", "json.t", "[]", "{}"];
    let fill = |k: &str, i: usize, with: &str, rest: &str| {
        let mut out = String::new();
        for (n, part) in k.split('@').enumerate() {
            if n > 0 {
                out.push_str(if n - 1 == i { with } else { rest });
            }
            out.push_str(part);
        }
        out
    };
    let mut inner: Vec<String> = leaves.iter().map(|l| l.to_string()).collect();
    for k in kinds {
        for i in 0..k.matches('@').count() {
            for (n, l) in leaves.iter().enumerate() {
                let t = fill(k, i, l, leaves[(n + i) % 5]);
                inner.push(if k.starts_with("let") || k.starts_with("if") { format!("({t})") } else { t });
            }
        }
    }
    for (n, k) in kinds.iter().enumerate() {
        for i in 0..k.matches('@').count() {
            for (m, w) in inner.iter().enumerate() {
                let t = fill(k, i, w, leaves[m % 5]);
                // of which what follows may depend on what a let has bound
                judge(cx, &resps[(n + m) % 4], &[&t, "status == 200", "y"]);
            }
        }
    }
    let few = ["status == 200", "status == 404", "missing", "json.t", "1 / 0", "status == 200 && json.n", "body != \"\""];
    for (i, r) in resps.iter().enumerate() {
        for n in 3..=if cx.thorough { 6 } else { 4 } {
            if n > 4 && i % 3 != 0 {
                continue;
            }
            sequences(few.len(), n, |v| judge(cx, r, &v.iter().map(|i| few[*i]).collect::<Vec<_>>()));
        }
    }
    for n in [10usize, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000] {
        for bad in [0, n / 2, n - 1, n] {
            for (b, g) in [("status == 500", "status != 500"), ("missing", "status"), ("1 / 0", "json.t"), ("status > 200 && true", "length(body) > 3")] {
                let l: Vec<&str> = (0..n).map(|i| if i == bad { b } else { g }).collect();
                judge(cx, &resps[0], &l);
            }
        }
        // every assertion fails, every other one, all but one
        for k in [1, 2, 3, 64, 256] {
            let l: Vec<&str> = (0..n).map(|i| if i % k == 0 { "status == 404" } else { "status == 200" }).collect();
            judge(cx, &resps[0], &l);
        }
        // long texts and long operands
        let long = format!("length(\"{}\") == {n}", "k".repeat(n));
        judge(cx, &resps[0], &[&long]);
        let sum = format!("{} == {n}", vec!["1"; n.min(100)].join(" + "));
        judge(cx, &resps[0], &[&sum, "status == 200"]);
        let arr = format!("length([{}]) == {n}", vec!["1"; n].join(", "));
        judge(cx, &resps[0], &[&arr, "missing", &arr]);
        let body = format!("HTTP/1.1 200 OK\r\n\r\n{}", "b".repeat(n * 17));
        let l = format!("length(body) == {}", n * 17);
        judge(cx, body.as_bytes(), &[&l, "body == \"b\"", "body"]);
    }
    // answers of every kind
    for r in crate::http_checks::grid() {
        let w = http::response(&r).unwrap();
        judge(cx, &r, &["status == 200", &format!("status == {}", w.status), &format!("length(body) == {}", w.body.len()), "headers.A", "headers.H0 == [\"v0\"]", "json == missing", "status >= 400", &format!("reason == \"X{}\"", w.status), "body"]);
    }
    // the response of a call that failed has status 0
    cx.case(b"refused", |cx| {
        http::world(&mut cx.shm.cfg, http::OK);
        cx.shm.cfg.host[0].addr[0].err = libc::ECONNREFUSED;
        verdict(cx, &["status == 0", "status == 200", "body == \"\""], &http::Resp::default())
    });
}
fn judge(cx: &mut Cx, r: &[u8], asserts: &[&str]) {
    if !cx.mine() {
        cx.skip();
        return;
    }
    cx.case(format!("[{}] on {}", asserts.join(", "), http::show(r)).as_bytes(), |cx| {
        http::world(&mut cx.shm.cfg, r);
        let resp = http::response(r).unwrap();
        verdict(cx, asserts, &resp)
    });
}
fn json_of(body: &str) -> Option<V> {
    fn conv(j: &avro::J) -> V {
        match j {
            avro::J::Null => V::Null,
            avro::J::Bool(b) => V::Bool(*b),
            avro::J::Num(n) if n.fract() == 0.0 => V::Int(*n as i64),
            avro::J::Num(n) => V::Float(*n),
            avro::J::Str(s) => V::s(s),
            avro::J::Arr(a) => V::Arr(a.iter().map(conv).collect()),
            avro::J::Obj(o) => V::Map(o.iter().map(|(k, v)| (k.clone(), conv(v))).collect()),
        }
    }
    avro::json(body).ok().map(|j| conv(&j))
}
fn verdict(cx: &mut Cx, asserts: &[&str], resp: &http::Resp) -> Result<(), String> {
    let sep = if asserts.len() % 2 == 0 { ", " } else { ",\n  " };
    let mut s = Session::new();
    let text = format!("{}\nlet v0 = 200", def("GET http://h/p", &asserts.join(sep)));
    let d = s.eval(&text);
    if !d.ok() {
        return Err(format!("the definition did not run: {d:?}"));
    }
    let o = observe(cx, &mut s, "q(); println(\"next\"); v0");
    if o.out != "next\n" || o.end != End::Value("Integer(200)".into()) {
        return Err(format!("the script did not go on: {:?} {:?}", o.end, o.out));
    }
    let r = o.one()?;
    // reference: the assertions as the grammar reads them, evaluated on the response alone
    let mut hdrs = std::collections::BTreeMap::new();
    for (n, v) in &resp.headers {
        if let V::Arr(a) = hdrs.entry(n.clone()).or_insert_with(|| V::Arr(vec![])) {
            a.push(V::s(v));
        }
    }
    let mut env = lang::Env::default();
    for (n, v) in [("version", V::s(&resp.version)), ("status", V::Int(resp.status)), ("reason", V::s(&resp.reason)), ("headers", V::Map(hdrs)), ("body", V::s(&resp.body))] {
        env.vars.insert(n.to_string(), v);
    }
    let plain = !resp.body.is_empty() && json_of(&resp.body).is_none();
    if let Some(j) = json_of(&resp.body) {
        env.vars.insert("json".into(), j);
    }
    if plain && asserts.iter().any(|a| a.contains("json")) {
        // what json is for a body that is no document is not specified
        cx.count("unspecified", 1);
        return Ok(());
    }
    if r.asserts.len() != asserts.len() {
        return Err(format!("{} assertions reported, {} given: {:?}", r.asserts.len(), asserts.len(), r.asserts));
    }
    let mut pass = true;
    for (i, a) in asserts.iter().enumerate() {
        let got = &r.asserts[i];
        let prog = lang::parse(a).map_err(|_| format!("reference cannot parse {a}"))?;
        let x = prog.exprs.first().ok_or("no expression")?;
        let holds;
        if let Some((op, l, rr)) = lang::comparison(x) {
            let l = env.eval(&l).unwrap_or(V::Null);
            let rr = env.eval(&rr).unwrap_or(V::Null);
            holds = lang::binop(&op, l.clone(), rr.clone()).map(|v| v.truthy()).unwrap_or(false);
            if got.1 != l.show() || got.2 != op || got.3 != rr.show() {
                return Err(format!("assertion {a}: compared ({} {} {}), expected ({} {op} {})", got.1, got.2, got.3, l.show(), rr.show()));
            }
        } else {
            holds = env.eval(x).unwrap_or(V::Null).truthy();
        }
        if got.4 != holds {
            return Err(format!("assertion {a}: reported {}, expected {holds}", got.4));
        }
        if squeeze(&got.0) != squeeze(a) {
            return Err(format!("assertion {a}: reported as {:?}", got.0));
        }
        pass &= holds;
    }
    let rep = &o.shown[0];
    let lines: Vec<&str> = rep.lines().collect();
    let last = lines.last().copied().unwrap_or("");
    if last.contains("PASS") != pass || last.contains("FAIL") == pass {
        return Err(format!("the verdict of {:?} is {last:?}", r.asserts));
    }
    // one line per assertion (the values have no line breaks in this alphabet)
    if lines.len() != asserts.len() + 2 {
        return Err(format!("report {rep:?} for {} assertions", asserts.len()));
    }
    for (i, a) in asserts.iter().enumerate() {
        let l = squeeze(lines[i + 1]);
        if !l.starts_with(&squeeze(a)) || !l.ends_with(&format!("{}", r.asserts[i].4)) {
            return Err(format!("report line {:?} for {a}", lines[i + 1]));
        }
    }
    cx.state(squeeze(&lines[1..lines.len() - 1].join("|")).as_bytes());
    Ok(())
}

// ------------------------------------------------------------------------------------------ C28
struct Make {
    name: String,
    msg: String,
    resp: Vec<u8>,
    asserts: Vec<String>,
    delay: u64,
    fail: bool,
}
impl Make {
    fn plain() -> Make {
        Make { name: "q".into(), msg: "GET http://h/p".into(), resp: http::OK.to_vec(), asserts: vec![], delay: 0, fail: false }
    }
    fn run(&self, cx: &mut Cx, s: &mut Session) -> Result<avro::Rec, String> {
        let d = s.eval(&format!("request {}`{}`[{}]", self.name, self.msg, self.asserts.join(", ")));
        if !d.ok() {
            return Err(format!("the definition did not run: {d:?}"));
        }
        http::world(&mut cx.shm.cfg, &self.resp);
        let c = &mut cx.shm.cfg;
        c.rule[0].delay_ns = self.delay;
        if self.fail {
            c.host[0].addr[0].err = libc::ECONNREFUSED;
        }
        let wall = c.wall0 as i64;
        sut::begin();
        let e = s.eval(&format!("{}()", self.name));
        sut::end();
        cx.transitions += sut::trace().nev as u64;
        cx.traces += 1;
        if !e.ok() {
            return Err(format!("the call did not run: {e:?}"));
        }
        let m = http::message(&self.msg);
        let r = if self.fail { http::Resp::default() } else { http::response(&self.resp).unwrap_or_default() };
        let failed = self.fail || http::response(&self.resp).is_err();
        let default = matches!((m.url.https, m.url.port), (false, 80) | (true, 443));
        let url = format!("{}://{}{}{}", if m.url.https { "https" } else { "http" }, m.url.host, if default { String::new() } else { format!(":{}", m.url.port) }, m.url.path);
        let body = match &m.body {
            http::Body::Bytes(b) => String::from_utf8(b.clone()).unwrap(),
            _ => String::new(),
        };
        let t = if failed { 0 } else { self.delay as i64 };
        Ok(avro::Rec {
            start: wall,
            end: wall + t,
            total: t,
            delay: t,
            name: self.name.clone(),
            method: m.method,
            url,
            version: m.version,
            headers: m.headers,
            body,
            rversion: r.version,
            status: r.status,
            reason: r.reason,
            rheaders: r.headers,
            rbody: r.body,
            asserts: self.asserts.iter().map(|a| (a.clone(), String::new(), String::new(), String::new(), true)).collect(),
            error: if failed { "?".into() } else { String::new() },
            ..Default::default()
        })
    }
}
fn text_of(n: usize) -> String {
    (0..n).map(|i| (b'a' + ((i * 11 + i / 26) % 26) as u8) as char).collect()
}
fn same(want: &avro::Rec, got: &avro::Rec) -> Result<(), String> {
    let mut g = got.clone();
    if !want.error.is_empty() {
        if g.error.is_empty() {
            return Err("the error is missing".into());
        }
        g.error = want.error.clone();
        g.end = want.end;
    }
    let mut w = want.clone();
    if w.asserts.len() == g.asserts.len() {
        for (a, b) in w.asserts.iter_mut().zip(&g.asserts) {
            if squeeze(&a.0) == squeeze(&b.0) {
                *a = b.clone();
            }
        }
    }
    if w != g {
        let f = |r: &avro::Rec| format!("{r:?}");
        let (a, b) = (f(&w), f(&g));
        let i = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
        let st = i.saturating_sub(120);
        let cut = |s: &str| s.bytes().skip(st).take(400).map(|b| b as char).collect::<String>();
        return Err(format!("record differs:\n expected ..{}\n decoded  ..{}", cut(&a), cut(&b)));
    }
    Ok(())
}
/// Writes the batches with one writer and reads the file back.
fn batches(cx: &mut Cx, list: &[(Vec<Make>, String, u32, u32)]) -> Result<(), String> {
    let buf = Sink::default();
    let mut w = lib::Writer::new(buf.clone());
    let mut want = Vec::new();
    for (makes, test, thread, number) in list {
        let mut s = Session::new();
        for (i, m) in makes.iter().enumerate() {
            let mut r = m.run(cx, &mut s)?;
            r.test = test.clone();
            r.thread = *thread as i64;
            r.number = *number as i64;
            r.order = i as i64;
            want.push(r);
        }
        w.write(&s.ctx.records(), test, *thread, *number);
    }
    drop(w);
    let file = buf.0.borrow().clone();
    let got = avro::recs(&file)?;
    if got.len() != want.len() {
        return Err(format!("{} records decoded, {} calls made", got.len(), want.len()));
    }
    for (i, (w, g)) in want.iter().zip(&got).enumerate() {
        same(w, g).map_err(|e| format!("record {i}: {e}"))?;
    }
    cx.count("records_decoded", got.len() as u64);
    cx.state(&file);
    Ok(())
}
pub fn c28(cx: &mut Cx) {
    cx.case_limit(60_000);
    let mut sizes: Vec<usize> = vec![0, 1, 2, 62, 63, 64, 65, 126, 127, 128, 129, 8190, 8191, 8192, 8193, 16382, 16383, 16384, 16385, 65535, 65536, 1_048_575, 1_048_576, (16 << 20) + 70_001];
    if cx.thorough {
        sizes.extend(3..62);
        sizes.extend(130..300);
        sizes.extend([1_048_574, 1_048_577, 1_500_000]);
    }
    // every text field at every boundary length
    for &n in &sizes {
        for field in 0..9 {
            cx.case(format!("field {field} of {n} bytes").as_bytes(), |cx| {
                let mut m = Make::plain();
                let t = text_of(n);
                let mut test = "test".to_string();
                match field {
                    0 => test = t,
                    1 => m.name = format!("q{t}"),
                    2 => m.msg = format!("GET http://h/{t}"),
                    3 => m.msg = format!("POST http://h/p\nA: b\n\n{t}"),
                    4 => m.msg = format!("GET http://h/p\nA{t}: {t}"),
                    5 => m.resp = format!("HTTP/1.1 200 {t}\r\n\r\nx").into_bytes(),
                    6 => m.resp = format!("HTTP/1.1 200 OK\r\nA{t}: {t}\r\n\r\nx").into_bytes(),
                    7 => m.resp = format!("HTTP/1.1 200 OK\r\n\r\n{t}").into_bytes(),
                    _ => m.asserts = vec![format!("body != \"{t}\"")],
                }
                if m.resp.len() + m.msg.len() > 36_000_000 || (field == 1 && n > 70_000) || (n > 2_000_000 && field != 7) {
                    return Ok(());
                }
                if field == 5 {
                    // the reason is text without surrounding blanks
                    m.resp = m.resp.clone();
                }
                batches(cx, &[(vec![m, Make::plain()], test, 1, 1)])
            });
        }
    }
    // counts of headers, assertions, records and batches
    let counts: &[usize] = if cx.thorough { &[0, 1, 2, 3, 31, 32, 62, 63, 64, 65, 100, 126, 127, 128, 129, 255, 256, 300, 1000, 4000] } else { &[0, 1, 2, 3, 63, 64, 65, 127, 128, 129, 300] };
    for &a in counts {
        for &b in &counts[..if cx.thorough { 12 } else { 7 }] {
            cx.case(format!("{a} request headers, {b} response headers").as_bytes(), |cx| {
                let mut m = Make::plain();
                m.msg = format!("GET http://h/p\n{}", (0..a).map(|i| format!("H{i}: {i}\n")).collect::<String>());
                m.resp = format!("HTTP/1.1 200 OK\r\n{}\r\nx", (0..b).map(|i| format!("R{}: {i}\r\n", i % 5)).collect::<String>()).into_bytes();
                batches(cx, &[(vec![m, Make::plain()], "t".into(), 0, 0)])
            });
        }
        cx.case(format!("{a} assertions").as_bytes(), |cx| {
            let mut m = Make::plain();
            m.asserts = (0..a).map(|i| format!("status != {i}")).collect();
            batches(cx, &[(vec![m, Make::plain()], "t".into(), 0, 0)])
        });
        cx.case(format!("{a} records in a batch, between empty ones").as_bytes(), |cx| {
            let some: Vec<Make> = (0..a)
                .map(|i| {
                    let mut m = Make::plain();
                    m.name = format!("q{i}");
                    m.msg = format!("GET http://h/{i}");
                    m
                })
                .collect();
            batches(cx, &[(vec![], "t".into(), 0, 0), (some, "t".into(), 0, 1), (vec![], "t".into(), 0, 2), (vec![Make::plain()], "t".into(), 0, 3), (vec![], "t".into(), 0, 4)])
        });
    }
    // every sequence of batch sizes
    for n in 0..=if cx.thorough { 6 } else { 4 } {
        sequences(4, n, |v| {
            let v = v.to_vec();
            cx.case(format!("batches of {v:?} records").as_bytes(), |cx| {
                let list: Vec<_> = v
                    .iter()
                    .enumerate()
                    .map(|(i, k)| {
                        (
                            (0..*k)
                                .map(|j| {
                                    let mut m = Make::plain();
                                    m.msg = format!("GET http://h/{i}/{j}");
                                    m.fail = (i + j) % 3 == 2;
                                    m
                                })
                                .collect::<Vec<_>>(),
                            "test name".to_string(),
                            7u32,
                            i as u32,
                        )
                    })
                    .collect();
                batches(cx, &list)
            });
        });
    }
    // numbers
    let nums = [0u32, 1, 2, 63, 64, 65, 127, 128, 8191, 8192, 1 << 20, (1 << 31) - 1, 1 << 31, u32::MAX];
    for t in nums {
        for n in nums {
            cx.case(format!("thread {t}, iteration {n}").as_bytes(), |cx| batches(cx, &[(vec![Make::plain()], "t".into(), t, n)]));
        }
    }
    for k in 0..32 {
        for d in [-1i64, 0, 1] {
            let n = ((1i64 << k) + d).clamp(0, u32::MAX as i64) as u32;
            cx.case(format!("number {n}").as_bytes(), |cx| {
                let m = || vec![Make::plain()];
                batches(cx, &[(m(), "t".into(), n, 3), (m(), "t".into(), 3, n), (m(), "t".into(), n, n)])
            });
        }
    }
    // answers of every kind
    for r in crate::http_checks::grid() {
        cx.case(format!("answer {} of {} bytes", http::show(&r[..12]), r.len()).as_bytes(), |cx| {
            let mut m = Make::plain();
            m.resp = r.clone();
            batches(cx, &[(vec![m, Make::plain()], "t".into(), 1, 1)])
        });
    }
    for st in [0u32, 1, 2, 63, 64, 65, 99, 100, 127, 128, 200, 404, 8191, 8192, 8193, 16384, 32767, 32768, 65534, 65535] {
        cx.case(format!("status {st}").as_bytes(), |cx| {
            let mut m = Make::plain();
            m.resp = format!("HTTP/1.1 {st} x\r\n\r\n").into_bytes();
            batches(cx, &[(vec![m], "t".into(), 0, 0)])
        });
    }
    let mut d = 1u64;
    while d < 4_000_000_000_000_000_000 {
        for k in [d - 1, d, d + 1] {
            cx.case(format!("delay {k} ns").as_bytes(), |cx| {
                let mut m = Make::plain();
                m.delay = k;
                batches(cx, &[(vec![m, Make::plain()], "t".into(), 0, 0)])
            });
        }
        d *= 2;
    }
    // kinds of text and of outcome
    let texts = ["é", "😀 😀", "\u{0}", "{x}", "\u{feff}", "a\tb", "ﬁ", "Obj\u{1}", "afilesyncmarker\u{2}", "\"\\"];
    for t in texts {
        for place in 0..5 {
            cx.case(format!("text {} at {place}", esc(t)).as_bytes(), |cx| {
                let mut m = Make::plain();
                let mut test = "t".to_string();
                match place {
                    0 => test = t.to_string(),
                    1 if t.contains('{') => {}
                    1 => m.msg = format!("POST http://h/p\nA: x{t}x\n\nx{t}x"),
                    2 => m.resp = format!("HTTP/1.1 200 x{t}x\r\nA: x{t}x\r\n\r\n{t}").into_bytes(),
                    3 => m.resp = [b"HTTP/1.1 200 OK\r\n\r\n", t.as_bytes(), b"\xff"].concat(),
                    _ => m.fail = true,
                }
                batches(cx, &[(vec![m, Make::plain()], test, 0, 0)])
            });
        }
    }
    for u in ["http://h", "http://h:81/x", "https://h:80/", "http://h:443/", "http://10.0.0.1:8080/a?b=c#d", "http://h//"] {
        if u.starts_with("https") {
            continue;
        }
        cx.case(u.as_bytes(), |cx| {
            let mut m = Make::plain();
            m.msg = format!("PUT {u} HTTP/1.0");
            batches(cx, &[(vec![m], "t".into(), 0, 0)])
        });
    }
}
