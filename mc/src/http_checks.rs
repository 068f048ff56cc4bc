//! C10 to C16, C19, C20, C28: the HTTP side, exhaustively over bounded spaces of messages, responses and
//! answers of the network, against http.rs.
use crate::http::{self, observe, Body, Obs, Resp, OK};
use crate::lang::{self, V};
use crate::lang_checks::{pairs, sequences};
use crate::pool::Cx;
use crate::rt::*;
use crate::sut::{End, Session};

fn no_files(_: &str) -> Option<Vec<u8>> {
    None
}
/// A request definition named q.
pub fn def(text: &str, asserts: &str) -> String {
    format!("request q`{text}`[{asserts}]")
}
/// Calls a request made from `text` in a new session.
fn call(cx: &mut Cx, text: &str, asserts: &str) -> Obs {
    let mut s = Session::new();
    let d = s.eval(&def(text, asserts));
    if d != End::Value("Null".into()) {
        return Obs { end: d, out: "the definition did not run".into(), conns: vec![], sent: vec![], resolved: vec![], shown: vec![], avro: vec![], status: 0 };
    }
    observe(cx, &mut s, "let v = q(); println(\"next\"); [v.version, v.status, v.reason, v.headers, v.body]")
}
fn value_of(r: &Resp) -> String {
    V::Arr(vec![V::Str(r.version.clone()), V::Int(r.status), V::Str(r.reason.clone()), headers_value(&r.headers), V::Str(r.body.clone())]).debug()
}
fn headers_value(h: &[(String, String)]) -> V {
    let mut m = std::collections::BTreeMap::new();
    for (n, v) in h {
        match m.entry(n.clone()).or_insert_with(|| V::Arr(vec![])) {
            V::Arr(a) => a.push(V::Str(v.clone())),
            _ => {}
        }
    }
    V::Map(m)
}
/// The call went well: one connection, the expected request on it, the expected response everywhere.
fn good(o: &Obs, msg: &str, resp: &[u8]) -> Result<(), String> {
    let m = http::message(msg);
    let want = http::response(resp).map_err(|_| "the response is no text")?;
    if o.conns.len() != 1 || o.conns[0].1 != 0 {
        return Err(format!("connections: {:?}, value {:?} {}", o.conns, o.end, o.out));
    }
    http::check_wire(&m, &o.sent[0], &no_files)?;
    let r = o.one()?;
    if !r.error.is_empty() {
        return Err(format!("error {:?} although nothing failed", r.error));
    }
    if http::of_rec(&r) != want {
        return Err(format!("recorded response {:?}, expected {want:?}", http::of_rec(&r)));
    }
    if o.end != End::Value(value_of(&want)) {
        return Err(format!("response seen by the script {:?}, expected {}", o.end, value_of(&want)));
    }
    if o.out != "next\n" {
        return Err(format!("the script did not go on: {:?}", o.out));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C10
pub fn c10(cx: &mut Cx) {
    let frags = ["{a}", "{ a }", "{b}", "{\t_u9\n}", "{n}", "{", "}", "{{", "a", "{A}", "{a b}", "{}", "{1}", "{a", " ", "é", ":", "$1", "\\", "{\u{a0}a}", "{é}", "{if}"];
    let envs = [
        "let a = \"x\"; let b = \"y\"; let _u9 = 7; let A = \"upper\"",
        "let a = \"{b}\"; let b = \"{a}\"; let _u9 = \"}\"; let A = \"{\"",
        "let a = \"\"; let b = [1, \"{a}\"]; let _u9 = {\"k\": 1.5}; let A = \"é$0\\\"",
    ];
    let k = if cx.thorough { 4 } else { 3 };
    for n in 1..=k {
        for (ei, env) in envs.iter().enumerate() {
            for place in 0..2 {
                if n == 4 && (ei > 1 || place == 1) {
                    continue;
                }
                sequences(frags.len(), n, |v| {
                    if !cx.mine() {
                        cx.skip();
                        return;
                    }
                    let f: String = v.iter().map(|i| frags[*i]).collect();
                    let tpl = if place == 0 { format!("\nPOST http://h/p\nA: b\n\n<{f}>\n") } else { format!("\nPOST http://h/{f}\nA{f}: <{f}>\n\n{f}.") };
                    cx.case(format!("{env} / {tpl}").as_bytes(), |cx| {
                        http::world(&mut cx.shm.cfg, OK);
                        let mut s = Session::new();
                        let mut e = lang::Env::default();
                        let _ = s.eval(env);
                        let _ = lang::run(&mut e, env);
                        expand(cx, &mut s, &mut e, &[def(&tpl, "").as_str(), "q()"], &["h"])
                    });
                });
            }
        }
    }
    // everything short between braces; any two characters around, in and as the value of a placeholder
    let inner: Vec<char> = "aB_09- .{é\t".chars().collect();
    let bound: Vec<String> = {
        let mut v: Vec<String> = Vec::new();
        for n in 1..=3 {
            sequences(5, n, |i| {
                let t: String = i.iter().map(|i| inner[*i]).collect();
                if !t.starts_with(['0', '9']) {
                    v.push(t);
                }
            });
        }
        v
    };
    let env: String = bound.iter().map(|n| format!("let {n} = \"<{n}>\"; ")).collect();
    let mut texts: Vec<String> = Vec::new();
    for n in 0..=if cx.thorough { 5 } else { 4 } {
        sequences(inner.len(), n, |v| texts.push(format!("{{{}}}", v.iter().map(|i| inner[*i]).collect::<String>())));
    }
    for group in texts.chunks(40) {
        if !cx.mine() {
            cx.skip();
            continue;
        }
        cx.case(format!("placeholders {group:?}").as_bytes(), |cx| {
            http::world(&mut cx.shm.cfg, OK);
            let mut s = Session::new();
            let mut e = lang::Env::default();
            let _ = s.eval(&env);
            let _ = lang::run(&mut e, &env);
            let all: Vec<String> = group.iter().map(|t| format!("{}; q()", def(&format!("POST http://h/p\n\n<{t}>"), ""))).collect();
            expand(cx, &mut s, &mut e, &all.iter().map(|t| t.as_str()).collect::<Vec<_>>(), &["h"])
        });
    }
    let mut texts: Vec<String> = Vec::new();
    pairs(|p| texts.push(p.into()));
    texts.retain(|t| !t.contains('`'));
    for group in texts.chunks(24) {
        if !cx.mine() {
            cx.skip();
            continue;
        }
        cx.case(format!("characters {group:?}").as_bytes(), |cx| {
            http::world(&mut cx.shm.cfg, OK);
            let mut s = Session::new();
            let mut e = lang::Env::default();
            let mut all = vec!["let a = \"x\"; let b = 5".to_string()];
            for t in group {
                let value = if t.contains('"') { String::new() } else { format!("let v = \"{t}\"; ") };
                all.push(format!("{value}{}; q()", def(&format!("POST http://h/p\nA: b\n\n{t}{{a}}{t}{{b}}{{v}}{{a{t}}}{{{t}a}}{{v}}"), "")));
            }
            expand(cx, &mut s, &mut e, &all.iter().map(|t| t.as_str()).collect::<Vec<_>>(), &["h"])
        });
    }
    // many and long placeholders, names, values and templates
    let mut sizes: Vec<usize> = vec![4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 513, 1000, 1025, 2100, 4097, 8193, 20_000, 66_000];
    if cx.thorough {
        sizes.extend(10..15);
        sizes.extend(34..63);
        sizes.extend([511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 8191, 8192, 65_535, 65_536]);
    }
    for n in sizes {
        for shape in 0..10 {
            let t = bulk(n);
            let w = weave(n).replace('"', "'");
            let many = n.min(3000);
            let (env, tpl) = match shape {
                0 => ("let a = 1; let b = \"{a}\"".to_string(), format!("POST http://h/p\n\n{}", "{a}{ b } ".repeat(many))),
                1 => (format!("let a = \"{t}\"; let b = \"{{a}}{t}\""), "POST http://h/p{a}\nA: {b}\n\n{b}{a}{b}.".to_string()),
                2 => (format!("let {t} = 5; let {t}x = 6"), format!("POST http://h/p\n\n{{{t}}}{{ {t}x }}{{{}}}", &t[..t.len() - 1])),
                3 => ("let a = \"x\"".to_string(), format!("POST http://h/p\n\n{t}{{a}}{t}{{a}}")),
                4 => ("let a = \"x\"".to_string(), format!("POST http://h/p\n\n{{{}a{}}}|{{a}}", " ".repeat(n), "\t".repeat(n))),
                5 => ((0..many).map(|i| format!("let v{i} = {i}; ")).collect(), format!("POST http://h/p\n\n{}", (0..many).rev().map(|i| format!("{{v{i}}},{{w{i}}}")).collect::<String>())),
                6 => ("let a = \"x\"; let b = \"  y  \"".to_string(), format!("POST http://h/p\n\n{w}{{a}}{w}{{b}}")),
                7 => (format!("let a = \"{w}\""), "POST http://h/p\nA: b\n\n<{a}>{a}".to_string()),
                8 => ("let a = \"x\"".to_string(), format!("POST http://h/p\n\n{}", "{a}  .\n".repeat(many))),
                _ => ("let a = \"é\"; let b = \"😀😀\"".to_string(), format!("POST http://h/p\n\n{}", "é{a}€{b}".repeat(many))),
            };
            cx.case(format!("shape {shape} of {n}").as_bytes(), |cx| {
                http::world(&mut cx.shm.cfg, OK);
                let mut s = Session::new();
                let mut e = lang::Env::default();
                let _ = s.eval(&env);
                let _ = lang::run(&mut e, &env);
                expand(cx, &mut s, &mut e, &[def(&tpl, "").as_str(), "q()", "let a = 7", "q()"], &["h"])
            });
        }
    }
    // the same request called again and again, with a new value every time
    for n in [10usize, 100, 300, 1100] {
        cx.case(format!("{n} calls").as_bytes(), |cx| {
            http::world(&mut cx.shm.cfg, OK);
            let mut s = Session::new();
            let mut e = lang::Env::default();
            let mut all = vec!["request q`\nPOST http://h/q\nA: {a}\n\n{b}{a}{ c }`[]; let a = 0"];
            for i in 0..n {
                all.push(["let a = a + 1", "q()", "let b = [a, b_]", "let b = \"{a}\"", "q(); q()", "request s`GET http://h/{a}`[]; s()"][(i * 5 + i / 6) % 6]);
            }
            expand(cx, &mut s, &mut e, &all, &["h"])
        });
    }
    // every history of calls, rebindings and redefinitions
    let ops = [
        "q()", "s()", "let a = 1", "let a = \"{b}\"", "let b = \"two\"", "let b = a", "request q`\nPUT http://h/{b}\nX: {a}\n\n[{a}{ b }]`[]",
        "request s`\nGET http://h/{a}`[]", "let a = [a, 1]", "if (true) { let b = 3 }; q()",
    ];
    let depth = if cx.thorough { 6 } else { 4 };
    for n in 1..=depth {
        sequences(ops.len(), n, |v| {
            // only histories that end in a call
            if !matches!(v[n - 1], 0 | 1 | 9) || !cx.mine() {
                cx.skip();
                return;
            }
            let seq: Vec<&str> = v.iter().map(|i| ops[*i]).collect();
            cx.case(seq.join(" ; ").as_bytes(), |cx| {
                http::world(&mut cx.shm.cfg, OK);
                let mut s = Session::new();
                let mut e = lang::Env::default();
                let mut all = vec!["request q`\nPOST http://h/q\nA: {a}\n\n{b}{a}{ c }`[]", "request s`\nGET http://h/{b}\n`[]"];
                all.extend(&seq);
                expand(cx, &mut s, &mut e, &all, &["h"])
            });
        });
    }
}
/// Runs the texts one after the other on both sides and compares every request that is sent.
fn expand(cx: &mut Cx, s: &mut Session, e: &mut lang::Env, texts: &[&str], hosts: &[&str]) -> Result<(), String> {
    let resp = http::response(OK).unwrap();
    let val = V::Map([("status".to_string(), V::Int(resp.status))].into_iter().collect());
    e.responder = Some(std::rc::Rc::new(move |_, _, _| Some(val.clone())));
    for t in texts {
        // what is in braces is not a variable of the environment
        for (i, _) in t.match_indices('{') {
            let name = t[i + 1..].split('}').next().unwrap_or("").trim();
            if !name.is_empty() && name.len() < 100 && !name.contains(['=', '\0']) && std::env::var_os(name).is_none() {
                std::env::set_var(name, "from the environment");
            }
        }
        e.calls.clear();
        let r = lang::run(e, t);
        let o = observe(cx, s, t);
        if r.is_ok() != o.end.ok() {
            return Err(format!("{t}: expected {r:?}, found {:?}", o.end));
        }
        let recs = o.recs()?;
        if o.conns.len() != e.calls.len() || recs.len() != e.calls.len() {
            return Err(format!("{t}: {} calls expected, {} connections and {} records", e.calls.len(), o.conns.len(), recs.len()));
        }
        for (i, (name, text)) in e.calls.iter().enumerate() {
            let m = http::message(text);
            if hosts.contains(&m.url.host.as_str()) {
                http::check_wire(&m, &o.sent[i], &no_files).map_err(|x| format!("{t}: expanded message {text:?}: {x}"))?;
            }
            if &recs[i].name != name {
                return Err(format!("{t}: record of {:?}, expected {name:?}", recs[i].name));
            }
            cx.state(&o.sent[i]);
        }
    }
    cx.deepest = cx.deepest.max(texts.len() as u64);
    Ok(())
}

// ------------------------------------------------------------------------------------------ C11
/// Every header line of a few characters.
fn short_lines(thorough: bool) -> Vec<String> {
    let al: Vec<char> = ": \taA-\",;={\\\u{e9}\u{0}\r\u{a0}0".chars().collect();
    let mut v = Vec::new();
    for n in 1..=if thorough { 4 } else { 3 } {
        sequences(al.len(), n, |i| v.push(i.iter().map(|i| al[*i]).collect::<String>()));
    }
    v
}
fn header_sets() -> Vec<String> {
    let mut v: Vec<String> = [
        "", "Host: h\n", "A:b\n", "A : b \n", "A: b: c\nA: d\n", "B: 1\nA: 2\nB: 3\n", "Empty:\nNext: x\n", "no colon here\nC: d\n", "X: \"quoted {\"\n", "É: ü\n", "A: a  b\tc\n", ": v\n", "   Deep:   v  \n", "Content-Type: application/json\n",
        "Content-Type: text/plain; charset=utf-8\nAccept: */*\n", "Content-Length: 3\n", "content-TYPE: x\nContent-Type: application/x-www-form-urlencoded; q\n",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    v.push((0..40).map(|i| format!("H{i}: v{}\n", 40 - i)).collect());
    v.push(format!("Long: {}\n", "v".repeat(9000)));
    v
}
fn meaningful() -> Vec<&'static str> {
    vec![
        "Content-Length: 0", "Content-Length: 1", "content-length: 5", "CONTENT-LENGTH: 100", "Content-Length: x", "Transfer-Encoding: chunked", "transfer-encoding: gzip, chunked", "Connection: close", "Connection: keep-alive", "Content-Encoding: gzip", "Location: http://other/x", "Expect: 100-continue",
        "Upgrade: h2c", "Host: other:99", "Content-Type: text/plain", "Content-Type: application/json; charset=latin1", "Set-Cookie: a=1", "Cookie: a=1", "Accept-Encoding: gzip", "Authorization: Basic eDp5", "User-Agent: me", "Range: bytes=1-2", "Date: now", "Trailer: X", "Retry-After: 1",
    ]
}
pub fn c11(cx: &mut Cx) {
    let methods = ["GET", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "HEAD", "TRACE", "CONNECT", "get", "FOO", "GETS"];
    let versions = ["", " HTTP/1.1", " HTTP/0.9", " HTTP/1.0", " HTTP/2.0", " HTTP/3.0", " HTTP/1.2", " http/1.0", " HTTP/1.0 extra"];
    let bodies = ["", "x", "{\"a\": 1}", "line1\nline2", "line1\n\nline3", "  indented\n    more\n  end", "a: b\nc: d", "é😀\tü", "a\r\nb", "{ {} }\n  {1} }", "0", ":"];
    let heads = header_sets();
    // every combination, delivered at once
    for m in methods {
        for v in versions {
            for (hi, h) in heads.iter().enumerate() {
                for (bi, b) in bodies.iter().enumerate() {
                    if !cx.thorough && methods.iter().position(|x| *x == m).unwrap() > 2 && (hi + bi) % 5 != 0 {
                        continue;
                    }
                    let text = format!("\n  {m} http://h/p{v}\n{h}\n{b}\n");
                    cx.case(text.as_bytes(), |cx| {
                        http::world(&mut cx.shm.cfg, OK);
                        sent(cx, &text)
                    });
                }
            }
        }
    }
    // every sequence of header lines, equal ones included
    let lines = ["A: 1", "A: 2", "a: 1", "B: 1", "A:", "Host: h"];
    for n in 1..=if cx.thorough { 5 } else { 4 } {
        sequences(lines.len(), n, |v| {
            if !cx.mine() {
                cx.skip();
                return;
            }
            let text = format!("POST http://h/p\n{}\n\nbody", v.iter().map(|i| lines[*i]).collect::<Vec<_>>().join("\n"));
            cx.case(text.as_bytes(), |cx| {
                http::world(&mut cx.shm.cfg, OK);
                sent(cx, &text)
            });
        });
    }
    // any two characters in a header name, a header value and a body; any short header line
    pairs(|p| {
        if p.contains('`') {
            return;
        }
        for f in ["A: #\n\nb", "A: x#y\n\nb", "A: y#\n\nb", "A#: v\n\nb", "#A: v\n\nb", "A#B: v\n\nb", "A: b\n\n#", "A: b\n\nx#y", "A: b\n\nx#\n y"] {
            if !cx.mine() {
                cx.skip();
                continue;
            }
            let text = format!("POST http://h/p\n{}", f.replace('#', p));
            cx.case(text.as_bytes(), |cx| {
                http::world(&mut cx.shm.cfg, OK);
                sent(cx, &text)
            });
        }
    });
    for l in short_lines(cx.thorough) {
        if l.contains('`') {
            continue;
        }
        for f in ["#\n\nb", "#\nC: d\n\nb", "C: d\n#\n\nb", "C: d\n\n#\nb"] {
            if !cx.mine() {
                cx.skip();
                continue;
            }
            let text = format!("POST http://h/p\n{}", f.replace('#', &l));
            cx.case(text.as_bytes(), |cx| {
                http::world(&mut cx.shm.cfg, OK);
                sent(cx, &text)
            });
        }
    }
    // many header lines, many body lines
    for n in [5usize, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 96, 97, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 513, 1000, 1025] {
        for shape in 0..5 {
            let text = match shape {
                0 => format!("POST http://h/p\n{}\nbody", (0..n).map(|i| format!("H{i}: {i}\n")).collect::<String>()),
                1 => format!("POST http://h/p\n{}\nbody", (0..n).map(|i| format!("H{}: {i}\n", i % 3)).collect::<String>()),
                2 => format!("POST http://h/p\nA: b\n\n{}", (0..n).map(|i| format!("{}line {i}\n", " ".repeat(i % 5))).collect::<String>()),
                3 => format!("POST http://h/p\nA: b\n\nx{}y", "\n".repeat(n)),
                _ => format!("POST http://h/p\n{}: {}\nA{}b:   {} : {}\n\nx", bulk(n), bulk(n + 1), "-".repeat(n), "v ".repeat(n), ":".repeat(n)),
            };
            cx.case(format!("shape {shape} of {n}").as_bytes(), |cx| {
                http::world(&mut cx.shm.cfg, OK);
                sent(cx, &text)
            });
        }
    }
    // headers that mean something to a server or a client are sent as they are, too
    let meant = meaningful();
    for m in ["GET", "POST", "HEAD", "DELETE", "TRACE"] {
        for v in ["", " HTTP/1.0"] {
            for b in ["", "x", "line1\n\nline2", "0123456789"] {
                for (i, h) in meant.iter().enumerate() {
                    for (j, k) in meant.iter().enumerate() {
                        if !cx.thorough && i != j && (m != "POST" || !v.is_empty()) {
                            continue;
                        }
                        if !cx.mine() {
                            cx.skip();
                            continue;
                        }
                        let text = if i == j { format!("{m} http://h/p{v}\n{h}\n\n{b}") } else { format!("{m} http://h/p{v}\n{h}\n{k}\n\n{b}") };
                        cx.case(text.as_bytes(), |cx| {
                            http::world(&mut cx.shm.cfg, OK);
                            sent(cx, &text)
                        });
                    }
                }
            }
        }
    }
    // every single cut and every pair of cuts of the writes, with and without an interruption after each
    let small = [
        "GET http://h/p\nHost: h".to_string(),
        "POST http://h/p HTTP/1.0\nA: b\nC: d\n\nbody line\nnext".to_string(),
        "PUT http://h/\n\n\u{e9}\u{1F600}".to_string(),
        "POST http://h/f\nContent-Type: application/x-www-form-urlencoded\n\na: b c\nd: \u{e9}".to_string(),
    ];
    for text in &small {
        let n = wire_len(cx, text);
        for i in 0..=n {
            for j in i..=n {
                if !cx.thorough && j > i + 1 && (i + 2 * j) % 7 != 0 && j != n {
                    continue;
                }
                for eintr in [0, 1] {
                    cx.case(format!("{text} / cut after {i} and {j} bytes, interrupted {eintr}").as_bytes(), |cx| {
                        http::world(&mut cx.shm.cfg, OK);
                        let c = &mut cx.shm.cfg;
                        c.scut[0] = i as u32;
                        c.scut[1] = j as u32;
                        c.nscut = 2;
                        c.cut_eintr = eintr;
                        sent(cx, text)
                    });
                }
            }
        }
    }
    // sizes around the buffers, with cuts at the interesting places
    let mut sizes: Vec<usize> = vec![1, 63, 64, 1000, 4095, 4096, 8150, 8160, 8180, 8190, 8191, 8192, 8193, 8200, 16383, 16384, 16385, 65535, 65536, 65537, 200_000];
    if cx.thorough {
        sizes.extend(8100..8300);
        sizes.extend(16300..16400);
        sizes.push(1_000_000);
    }
    for size in sizes {
        for shape in 0..3 {
            let text = match shape {
                0 => format!("POST http://h/p\nA: b\n\n{}", bulk(size)),
                1 => format!("POST http://h/p\nA: {}\n\nend", bulk(size)),
                _ => format!("POST http://h/{}\nA: b\n\nend", bulk(size)),
            };
            for cut in [0usize, 1, 17, 8191, 8192, 8193, 16384, size / 2, size, size + 20] {
                for eintr in [0, 1] {
                    cx.case(format!("shape {shape} of {size} bytes / cut after {cut} bytes, interrupted {eintr}").as_bytes(), |cx| {
                        http::world(&mut cx.shm.cfg, OK);
                        let c = &mut cx.shm.cfg;
                        c.scut[0] = cut as u32;
                        c.scut[1] = cut as u32 + 1;
                        c.nscut = 2;
                        c.cut_eintr = eintr;
                        sent(cx, &text)
                    });
                }
            }
        }
    }
}
fn bulk(n: usize) -> String {
    let mut s = String::with_capacity(n);
    for i in 0..n {
        s.push((b'a' + ((i * 7 + i / 26) % 26) as u8) as char);
    }
    s
}
/// A text of n characters in which, from 1300 on, every two of 36 characters are neighbours.
pub fn weave(n: usize) -> String {
    let al: Vec<char> = "aB0 \t:;,.=&?/%+-_'{}[]()<>!@#$*~|^é€".chars().collect();
    let k = al.len();
    let mut seen = vec![false; k * k];
    let mut seq = vec![0usize];
    // a walk along every edge of the complete graph
    let mut stack = vec![0usize];
    let mut path = Vec::new();
    while let Some(&v) = stack.last() {
        match (0..k).find(|w| !seen[v * k + w]) {
            Some(w) => {
                seen[v * k + w] = true;
                stack.push(w);
            }
            None => path.push(stack.pop().unwrap()),
        }
    }
    seq.clear();
    seq.extend(path.into_iter().rev().skip(1));
    (0..n).map(|i| al[seq[i % seq.len()]]).collect()
}
/// Answers of every status, of bodies around the sizes of buffers, and with few and many headers.
pub fn grid() -> Vec<Vec<u8>> {
    let body = |n: usize| if n % 2 == 0 { bulk(n) } else { weave(n) };
    let mut v: Vec<Vec<u8>> = Vec::new();
    for st in (0..=600u32).chain([601, 999, 1000, 65_535]) {
        for n in [0usize, 11, 3000] {
            if n > 11 && st % 50 > 4 && st % 100 != 29 {
                continue;
            }
            v.push(format!("HTTP/1.1 {st} X{st}\r\n{}\r\n{}", ["", "A: b\r\n"][st as usize % 2], body(n)).into_bytes());
        }
    }
    for st in [200u32, 204, 301, 404, 500, 503] {
        for n in [0usize, 1, 255, 256, 4095, 8191, 8192, 8193, 16_384, 65_535, 65_536, 65_537, 70_001, 200_000] {
            for h in [0usize, 1, 21, 70] {
                if n > 10_000 && h > 1 && st != 200 {
                    continue;
                }
                v.push(format!("HTTP/1.1 {st} X\r\n{}\r\n{}", (0..h).map(|i| format!("H{i}: v{i}\r\n")).collect::<String>(), body(n)).into_bytes());
            }
        }
    }
    v
}
/// How many bytes the client sends for this message.
fn wire_len(cx: &mut Cx, text: &str) -> usize {
    http::world(&mut cx.shm.cfg, OK);
    call(cx, text, "").sent.first().map_or(0, |s| s.len())
}
fn sent(cx: &mut Cx, text: &str) -> Result<(), String> {
    let o = call(cx, text, "");
    good(&o, text, OK)?;
    let r = o.one()?;
    let m = http::message(text);
    if r.method != m.method || r.version != m.version || r.headers != m.headers {
        return Err(format!("recorded request {} {} {:?}, expected {} {} {:?}", r.method, r.version, r.headers, m.method, m.version, m.headers));
    }
    match &m.body {
        Body::Bytes(b) if r.body.as_bytes() != &b[..] => return Err(format!("recorded body {:?}, sent {}", r.body, http::show(b))),
        Body::None if !r.body.trim().is_empty() => return Err(format!("recorded body {:?}, none was sent", r.body)),
        _ => {}
    }
    cx.state(&o.sent[0]);
    Ok(())
}

// ------------------------------------------------------------------------------------------ C12
pub fn c12(cx: &mut Cx) {
    let hosts = ["h", "example.com", "127.0.0.1", "a-b.c", "10.9.8.7", "http", "[::1]", "[2001:db8::7:0:9]", "EXAMPLE.Com", "[fe80::1:2:3:4]"];
    let ports = ["", ":1", ":80", ":443", ":8080", ":65535"];
    let frags = ["/", "a", ":", "://", "?", "#", "%2F", "&b=", "@", "é", ":81", "//"];
    let mut targets: Vec<String> = vec!["".into()];
    let k = if cx.thorough { 4 } else { 3 };
    for n in 0..=k {
        sequences(frags.len(), n, |v| targets.push(format!("/{}", v.iter().map(|i| frags[*i]).collect::<String>())));
    }
    targets.push(format!("/{}", "x/".repeat(5000)));
    targets.push("/http://other:99/x?y=http://z/".into());
    for scheme in ["http", "HTTP", "Http"] {
        for (hi, h) in hosts.iter().enumerate() {
            for (pi, p) in ports.iter().enumerate() {
                for (ti, t) in targets.iter().enumerate() {
                    if !cx.thorough && (hi * 5 + pi + (scheme.len() + scheme.as_bytes()[0] as usize)) % 6 != ti % 6 && ti > 200 {
                        continue;
                    }
                    if cx.thorough && scheme != "http" && ti > 2000 {
                        continue;
                    }
                    let u = format!("{scheme}://{h}{p}{t}");
                    cx.case(u.as_bytes(), |cx| {
                        let text = format!("GET {u}\nHost: {h}");
                        http::world(&mut cx.shm.cfg, OK);
                        let o = call(cx, &text, "");
                        good(&o, &text, OK)?;
                        target(&o, &u)?;
                        cx.state(u.as_bytes());
                        Ok(())
                    });
                }
            }
        }
    }
    // any two characters in a target
    pairs(|p| {
        // the target ends at white space; no quotes in requests
        if p.contains('`') || p.contains(char::is_whitespace) {
            return;
        }
        for u in [format!("http://h/{p}"), format!("http://h:81/a{p}b/c"), format!("http://h/a?b={p}&c"), format!("http://h/a{p}")] {
            if !cx.mine() {
                cx.skip();
                continue;
            }
            cx.case(u.as_bytes(), |cx| {
                let text = format!("GET {u}\nHost: h");
                http::world(&mut cx.shm.cfg, OK);
                let o = call(cx, &text, "");
                good(&o, &text, OK)?;
                target(&o, &u)
            });
        }
    });
    // every short name
    let letters = ['a', 'B', '1', '.', '-', '_', 'z', '0'];
    for n in 1..=if cx.thorough { 5 } else { 4 } {
        sequences(letters.len(), n, |v| {
            let h: String = v.iter().map(|i| letters[*i]).collect();
            // a number may be taken for an address
            if h.chars().all(|c| c.is_ascii_digit() || c == '.') {
                return;
            }
            if !cx.mine() {
                cx.skip();
                return;
            }
            for u in [format!("http://{h}"), format!("http://{h}:81/x")] {
                cx.case(u.as_bytes(), |cx| {
                    let text = format!("GET {u}");
                    http::world(&mut cx.shm.cfg, OK);
                    let o = call(cx, &text, "");
                    good(&o, &text, OK)?;
                    target(&o, &u)
                });
            }
        });
    }
    // every port (in the quick tier some), long hosts and targets
    for port in 1..=65535u32 {
        if !cx.thorough && port % 499 != 0 && !(port + 1).is_power_of_two() && !port.is_power_of_two() && !(port - 1).is_power_of_two() && !(78..=82).contains(&port) && !(441..=445).contains(&port) && ![8000, 8081, 8443, 9999, 10_000].contains(&port) {
            continue;
        }
        if !cx.mine() {
            cx.skip();
            continue;
        }
        for u in [format!("http://h:{port}/p:{port}"), format!("http://10.9.8.7:{port}")] {
            cx.case(u.as_bytes(), |cx| {
                let text = format!("GET {u}");
                http::world(&mut cx.shm.cfg, OK);
                let o = call(cx, &text, "");
                good(&o, &text, OK)?;
                target(&o, &u)
            });
        }
    }
    for n in [15usize, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 253, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4000, 4096, 4097, 8100, 8192, 8193, 9000, 16_385, 65_537] {
        for shape in 0..6 {
            let t = bulk(n);
            let u = match shape {
                0 => format!("http://h/{t}"),
                1 => format!("http://h:81/{t}?{t}#{t}"),
                2 => format!("http://{}/x", &t[..n.min(250)]),
                3 => format!("http://{}:8080/x", "a.b-".repeat(n.min(240) / 4) + "c"),
                4 => format!("http://h/{}", "/a:1".repeat(n.min(3000))),
                _ => format!("http://h/?{}", "k=v&".repeat(n.min(3000))),
            };
            cx.case(format!("shape {shape} of {n}").as_bytes(), |cx| {
                let text = format!("GET {u}");
                http::world(&mut cx.shm.cfg, OK);
                let o = call(cx, &text, "");
                good(&o, &text, OK)?;
                target(&o, &u)
            });
        }
    }
    // several calls in one session: every call goes to its own host and port
    let us = ["http://h/1", "http://h:81/1", "http://other/1", "http://h:443/2", "https://h/3", "http://10.9.8.7/", "http://h:80/1"];
    for n in 2..=if cx.thorough { 5 } else { 4 } {
        sequences(us.len(), n, |v| {
            if !cx.mine() {
                cx.skip();
                return;
            }
            let list: Vec<&str> = v.iter().map(|i| us[*i]).collect();
            cx.case(list.join(" ").as_bytes(), |cx| {
                http::world(&mut cx.shm.cfg, OK);
                let mut s = Session::new();
                let defs: String = list.iter().enumerate().map(|(i, u)| format!("request q{i}`GET {u}` ")).collect();
                s.eval(&defs);
                let calls: String = (0..list.len()).map(|i| format!("q{i}(); ")).collect();
                let o = observe(cx, &mut s, &calls);
                let recs = o.recs()?;
                if o.conns.len() != list.len() || recs.len() != list.len() {
                    return Err(format!("{} connections and {} records for {} calls", o.conns.len(), recs.len(), list.len()));
                }
                for (i, u) in list.iter().enumerate() {
                    let w = http::url(u);
                    let ip = if w.host == "10.9.8.7" { "10.9.8.7" } else { "10.0.0.1" };
                    if o.conns[i].0 != format!("{ip}:{}", w.port) || !same_url(&recs[i].url, &w) {
                        return Err(format!("call {i} of {u}: connection {:?}, recorded {:?}", o.conns[i], recs[i].url));
                    }
                    if !w.https && !o.sent[i].starts_with(format!("GET {} HTTP/1.1\r\n", w.path).as_bytes()) || w.https && o.sent[i].first() != Some(&0x16) {
                        return Err(format!("call {i} of {u}: sent {}", http::show(&o.sent[i])));
                    }
                }
                let names: Vec<&str> = list.iter().map(|u| &u[u.find("://").unwrap() + 3..]).map(|u| &u[..u.find([':', '/']).unwrap()]).filter(|h| *h != "10.9.8.7").collect();
                if o.resolved != names {
                    return Err(format!("names looked up {:?}, expected {names:?}", o.resolved));
                }
                Ok(())
            });
        });
    }
    // https: nothing but a TLS handshake on the connection
    let some: Vec<&String> = targets.iter().take(if cx.thorough { 400 } else { 40 }).collect();
    for scheme in ["https", "HTTPS", "Https"] {
        for h in hosts {
            for p in ports {
                for (ti, t) in some.iter().enumerate() {
                    if ti > 6 && p != "" {
                        continue;
                    }
                    let u = format!("{scheme}://{h}{p}{t}");
                    cx.case(u.as_bytes(), |cx| {
                        let text = format!("GET {u}\nHost: secret-marker");
                        http::world(&mut cx.shm.cfg, OK);
                        let o = call(cx, &text, "");
                        target(&o, &u)?;
                        let b = &o.sent[0];
                        if b.len() < 6 || b[0] != 0x16 || b[1] != 3 || b[5] != 1 {
                            return Err(format!("no TLS handshake was sent but {}", http::show(b)));
                        }
                        if b.windows(13).any(|w| w == b"secret-marker") {
                            return Err("the request was sent in plain text".into());
                        }
                        let r = o.one()?;
                        if r.error.is_empty() || r.status != 0 {
                            return Err(format!("a plain text answer was taken for a response: {r:?}"));
                        }
                        cx.state(u.as_bytes());
                        Ok(())
                    });
                }
            }
        }
    }
}
/// The recorded URL is one of the target.
fn same_url(text: &str, w: &http::Url) -> bool {
    text.split_once("://").is_some_and(|(s, _)| s.eq_ignore_ascii_case(if w.https { "https" } else { "http" })) && http::url(text) == *w
}
/// The connection went to the host and port of the URL and the record names it.
fn target(o: &Obs, u: &str) -> Result<(), String> {
    let w = http::url(u);
    let addr: Option<std::net::IpAddr> = w.host.parse().ok();
    let literal = addr.is_some();
    let ip = match addr {
        // as the runtime writes it
        Some(std::net::IpAddr::V6(a)) => format!("[{}]", a.segments().map(|s| format!("{s:x}")).join(":")),
        Some(a) => a.to_string(),
        None => "10.0.0.1".into(),
    };
    if !literal && o.resolved != [w.host.clone()] {
        return Err(format!("names looked up: {:?}, expected {:?}", o.resolved, w.host));
    }
    if o.conns.len() != 1 || o.conns[0].0 != format!("{ip}:{}", w.port) {
        return Err(format!("connections {:?}, expected {ip}:{}", o.conns, w.port));
    }
    let r = o.one()?;
    if !same_url(&r.url, &w) {
        return Err(format!("recorded URL {:?} is not {:?}", r.url, w));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C13
pub fn c13(cx: &mut Cx) {
    let names = ["a", "a b", "é", "a&b=c", "a+%2B", "", "x-y_z.*~", "n😀"];
    let values = ["", "v", "a b", "a:b: c", "&=+%?#/", "%41", "é ü", "😀", "x\ty", "'\"\\", "a@b", "ab c", "$1 {x y}", "~!*()-_."];
    let fields: Vec<(String, String)> = names.iter().flat_map(|n| values.iter().map(move |v| (n.to_string(), v.to_string()))).collect();
    let dir = cx.scratch.clone();
    let sizes = [0usize, 1, 2, 100, 8191, 8192, 8193, 65536, 70000];
    let mut paths = Vec::new();
    for s in sizes {
        let p = format!("{dir}/f{s}.bin");
        let b: Vec<u8> = if s == 100 { b"\r\n--boundary--\r\n\x00\xff\xfe".iter().cycle().take(100).copied().collect() } else { bulk(s).into_bytes() };
        std::fs::write(&p, &b).expect("scratch file");
        paths.push((p, b));
    }
    let files = |p: &str| paths.iter().find(|(q, _)| q == p).map(|(_, b)| b.clone());
    let run = |cx: &mut Cx, ct: &str, f: &[(String, String)], style: usize, cuts: &[u32], eintr: i32| {
        let mut text = format!("POST http://h/f\nContent-Type: {ct}\n\n");
        for (n, v) in f {
            text.push_str(&match style {
                0 => format!("{n}: {v}\n"),
                1 => format!("  {n} :   {v}  \n"),
                _ => format!("{n}:{v}\r\n"),
            });
        }
        cx.case(format!("{text} / cuts {cuts:?}").as_bytes(), |cx| {
            http::world(&mut cx.shm.cfg, OK);
            let c = &mut cx.shm.cfg;
            c.nscut = cuts.len() as u32;
            c.scut[..cuts.len()].copy_from_slice(cuts);
            c.cut_eintr = eintr;
            let o = call(cx, &text, "");
            let m = http::message(&text);
            if o.conns.len() != 1 || o.conns[0].1 != 0 {
                return Err(format!("connections {:?}", o.conns));
            }
            http::check_wire(&m, &o.sent[0], &files)?;
            let r = o.one()?;
            if !r.error.is_empty() || r.status != 200 {
                return Err(format!("the call failed: {:?} {}", r.error, r.status));
            }
            cx.state(text.as_bytes());
            Ok(())
        });
    };
    let form = "application/x-www-form-urlencoded";
    let multi = "multipart/form-data";
    run(cx, form, &[], 0, &[], 0);
    run(cx, multi, &[], 0, &[], 0);
    for ct in [form, multi] {
        for style in 0..3 {
            for f in &fields {
                run(cx, ct, std::slice::from_ref(f), style, &[], 0);
            }
        }
        let thin = if cx.thorough { 1 } else { 3 };
        for (i, f) in fields.iter().enumerate() {
            for (j, g) in fields.iter().enumerate() {
                if (i + j) % thin == 0 {
                    run(cx, ct, &[f.clone(), g.clone()], 0, &[], 0);
                }
            }
        }
        // three fields over a small alphabet, repeated names
        let few: Vec<(String, String)> = [("a", "1"), ("a", "é&"), ("b c", ""), ("", "x:y")].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
        for n in 3..=if cx.thorough { 6 } else { 5 } {
            sequences(few.len(), n, |v| run(cx, ct, &v.iter().map(|i| few[*i].clone()).collect::<Vec<_>>(), 0, &[], 0));
        }
        // every character
        for c in (0x20u32..0x250).chain([0x2028, 0x20ac, 0xfeff, 0xffff, 0x10ffff]) {
            if let Some(c) = char::from_u32(c) {
                if c == '`' || (ct == multi && c == '"') || c.is_control() {
                    continue;
                }
                run(cx, ct, &[(if c == ':' { "k".into() } else { format!("k{c}k") }, format!("v{c}v"))], 0, &[], 0);
            }
        }
    }
    // any two characters in a name and a value
    pairs(|p| {
        if p.contains(['`', '\n', '\r']) {
            return;
        }
        for ct in [form, multi] {
            if !cx.mine() {
                cx.skip();
                continue;
            }
            let mut f = vec![("k".to_string(), format!("v{p}v")), ("l".to_string(), format!("v{p}"))];
            // a name ends at its colon; a value that starts with @ names a file; a quote ends a multipart name
            if !p.contains(':') && !(ct == multi && p.contains('"')) {
                f.push((format!("k{p}k"), "x".into()));
                f.push((format!("k{p}"), "y".into()));
                f.push((format!("{p}k"), "z".into()));
            }
            if !p.trim().starts_with('@') {
                f.push(("m".into(), p.into()));
                f.push(("n".into(), format!("{p}v")));
            }
            // an open brace at the end of a line and a closed one in the next make a placeholder
            if p.contains('{') {
                for x in &f {
                    run(cx, ct, std::slice::from_ref(x), 0, &[], 0);
                }
            } else {
                run(cx, ct, &f, 0, &[], 0);
            }
        }
    });
    // files
    let mut ff: Vec<(String, String)> = vec![("t".into(), "text".into()), ("u".into(), "é".into())];
    for (p, _) in &paths {
        ff.push(("file".into(), format!("@{p}")));
    }
    for n in 1..=if cx.thorough { 3 } else { 2 } {
        sequences(ff.len(), n, |v| run(cx, multi, &v.iter().enumerate().map(|(k, i)| (format!("{}{k}", ff[*i].0), ff[*i].1.clone())).collect::<Vec<_>>(), 0, &[], 0));
    }
    // short writes
    let two = vec![("a".to_string(), "é &".to_string()), ("f".to_string(), format!("@{}", paths[3].0))];
    let big = vec![("a".to_string(), "1".to_string()), ("f".to_string(), format!("@{}", paths[6].0))];
    for (ct, f, n) in [(form, &two[..1], 110u32), (multi, &two[..], 520), (multi, &big[..], 8800)] {
        let step = if cx.thorough || n < 1000 { 1 } else { 37 };
        let mut i = 1;
        while i < n {
            for eintr in [0, 1] {
                run(cx, ct, f, 0, &[i, i + 1, i + 30], eintr);
            }
            i += step;
        }
    }
    // lines between the fields that hold none
    let between = ["a: 1", "b c: é&", "", "  ", "\t", "no field", "c : x:y"];
    for n in 1..=if cx.thorough { 6 } else { 5 } {
        sequences(between.len(), n, |v| {
            if !cx.mine() {
                cx.skip();
                return;
            }
            for ct in [form, multi] {
                let text = format!("POST http://h/f\nContent-Type: {ct}\n\n{}", v.iter().map(|i| between[*i]).collect::<Vec<_>>().join("\n"));
                cx.case(text.as_bytes(), |cx| {
                    http::world(&mut cx.shm.cfg, OK);
                    let o = call(cx, &text, "");
                    if o.conns.len() != 1 || o.conns[0].1 != 0 {
                        return Err(format!("connections {:?}", o.conns));
                    }
                    cx.state(&o.sent[0]);
                    http::check_wire(&http::message(&text), &o.sent[0], &files)
                });
            }
        });
    }
    // other headers around the one that tells the content, and more than one of it
    let lines = ["Content-Type: application/x-www-form-urlencoded", "Content-Type: multipart/form-data", "Content-Type: text/plain", "CONTENT-TYPE : multipart/form-data", "content-type: application/json", "Content-Type:", "X-Content-Type: multipart/form-data", "Content-Disposition: form-data", "A: b"];
    for n in 1..=3 {
        sequences(lines.len(), n, |v| {
            if !cx.mine() {
                cx.skip();
                return;
            }
            let text = format!("POST http://h/f\n{}\n\nk: v w\nf: @{}\nl: x", v.iter().map(|i| lines[*i]).collect::<Vec<_>>().join("\n"), paths[3].0);
            cx.case(text.as_bytes(), |cx| {
                http::world(&mut cx.shm.cfg, OK);
                let o = call(cx, &text, "");
                if o.conns.len() != 1 || o.conns[0].1 != 0 {
                    return Err(format!("connections {:?}", o.conns));
                }
                cx.state(&o.sent[0]);
                http::check_wire(&http::message(&text), &o.sent[0], &files)
            });
        });
    }
    // many fields, long names and values
    for n in [5usize, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1000, 1025, 4096, 8190, 8193, 20_000, 66_000] {
        for ct in [form, multi] {
            let many = n.min(1100);
            run(cx, ct, &(0..many).map(|i| (format!("n{}", i % 50), format!("v {i}"))).collect::<Vec<_>>(), 0, &[], 0);
            run(cx, ct, &[("k".into(), bulk(n)), (bulk(n.min(9000)), "é".repeat(n))], 0, &[], 0);
            run(cx, ct, &[("k".into(), format!("x{}x", weave(n).replace(['{', '}'], "")))], 0, &[], 0);
            run(cx, ct, &[("k".into(), "a b&=%".repeat(n)), ("l".into(), "x".into())], 1, &[], 0);
        }
        if n <= 129 {
            let (p, _) = &paths[3];
            run(cx, multi, &(0..n).map(|i| (format!("n{i}"), if i % 2 == 0 { format!("@{p}") } else { format!("t{i}") })).collect::<Vec<_>>(), 0, &[], 0);
        }
    }
    // other content types are verbatim
    for ct in ["text/plain", "application/json", "application/x-www-form-urlencoded; charset=utf-8", "multipart/form-data; boundary=x", "Multipart/Form-Data", "application/X-WWW-form-urlencoded"] {
        for f in &fields {
            run(cx, ct, std::slice::from_ref(f), 0, &[], 0);
        }
    }
}

// ------------------------------------------------------------------------------------------ C14
fn responses() -> Vec<Vec<u8>> {
    let mut v: Vec<String> = Vec::new();
    for st in ["HTTP/1.1 200 OK", "HTTP/1.0 404 Not Found", "HTTP/1.1 500 Internal Server Error", "HTTP/1.1 204", "HTTP/2 65535 a:b", "HTTP/1.1 000 x", "H 1 é"] {
        for h in ["", "A: b\r\n", "A: b\r\nA: c\r\nB: d: e\r\n", "Set-Cookie: x=1; y\r\nset-cookie: é\r\n", "Empty:\r\n  Sp : v \r\n"] {
            for b in ["", "x", "a\r\n\r\nb\n", "\r\n\r\n", "{\"k\": [1, -2]}", "é😀\0\u{7f}", "  lead and trail  \n"] {
                v.push(format!("{st}\r\n{h}\r\n{b}"));
            }
        }
    }
    v.push("HTTP/1.1 200 OK\nA: b\nC:d\n\nbody\n".into());
    let mut v: Vec<Vec<u8>> = v.into_iter().map(|s| s.into_bytes()).collect();
    v.push(format!("HTTP/1.1 200 OK\r\n{}\r\nend", (0..100).map(|i| format!("H{}: {i}\r\n", i % 7)).collect::<String>()).into_bytes());
    v
}
fn delivered(cx: &mut Cx, resp: &[u8], cuts: &[u32], eintr: i32, seg: i32) -> Result<(), String> {
    http::world(&mut cx.shm.cfg, resp);
    let c = &mut cx.shm.cfg;
    c.ncut = cuts.len() as u32;
    c.cut[..cuts.len()].copy_from_slice(cuts);
    c.cut_eintr = eintr;
    c.rule[0].seg = seg;
    let text = "GET http://h/p";
    let o = call(cx, text, "");
    good(&o, text, resp)?;
    cx.state(format!("{} {cuts:?} {seg} {eintr}", crate::pool::hash(resp)).as_bytes());
    Ok(())
}
pub fn c14(cx: &mut Cx) {
    for r in grid() {
        if !cx.mine() {
            cx.skip();
            continue;
        }
        let d = format!("{:.60} of {} bytes", http::show(&r[..r.len().min(60)]), r.len());
        cx.case(d.as_bytes(), |cx| {
            delivered(cx, &r, &[], 0, 0)?;
            delivered(cx, &r, &[1, 13, r.len() as u32 / 2], 1, 0)
        });
    }
    let all = responses();
    let name = |r: &[u8]| http::show(r);
    for r in &all {
        let d = format!("{} / whole", name(r));
        cx.case(d.as_bytes(), |cx| delivered(cx, r, &[], 0, 0));
        for seg in [1, 2, 3, 5, 7, 16, 64] {
            let d = format!("{} / {seg} bytes at a time", name(r));
            cx.case(d.as_bytes(), |cx| delivered(cx, r, &[], 0, seg));
        }
        // one cut
        for i in 0..r.len() as u32 {
            for eintr in [0, 1] {
                if i > 400 {
                    continue;
                }
                if !cx.mine() {
                    cx.skip();
                    continue;
                }
                let d = format!("{} / cut {i}, interrupted {eintr}", name(r));
                cx.case(d.as_bytes(), |cx| delivered(cx, r, &[i], eintr, 0));
            }
        }
    }
    // headers that mean something to other clients change nothing, whatever the status and the method
    let meant = meaningful();
    for st in ["HTTP/1.1 200 OK", "HTTP/1.0 200 OK", "HTTP/1.1 100 Continue", "HTTP/1.1 204 No Content", "HTTP/1.1 206 Partial Content", "HTTP/1.1 301 Moved", "HTTP/1.1 304 Not Modified", "HTTP/1.1 401 Unauthorized"] {
        for m in ["GET", "HEAD", "POST"] {
            for b in ["", "x", "5\r\nhello\r\n0\r\n\r\n", "0123456789\r\n\r\nHTTP/1.1 200 OK\r\n\r\nnext"] {
                for (i, h) in meant.iter().enumerate() {
                    for (j, k) in meant.iter().enumerate() {
                        if !cx.thorough && i != j && (m != "GET" || st != "HTTP/1.1 200 OK") {
                            continue;
                        }
                        if !cx.mine() {
                            cx.skip();
                            continue;
                        }
                        let r = if i == j { format!("{st}\r\n{h}\r\n\r\n{b}") } else { format!("{st}\r\n{h}\r\n{k}\r\n\r\n{b}") };
                        for seg in [0, 1, 16] {
                            let d = format!("{m} {r:?} / {seg} bytes at a time");
                            cx.case(d.as_bytes(), |cx| {
                                http::world(&mut cx.shm.cfg, r.as_bytes());
                                cx.shm.cfg.rule[0].seg = seg;
                                let text = format!("{m} http://h/p");
                                let o = call(cx, &text, "");
                                good(&o, &text, r.as_bytes())
                            });
                        }
                    }
                }
            }
        }
    }
    // any two characters in the reason, a header and the body; any short header line
    pairs(|p| {
        for f in ["HTTP/1.1 200 a#b\r\nA: b\r\n\r\nx", "HTTP/1.1 200 OK\r\nA: #\r\nC: d\r\n\r\nx", "HTTP/1.1 200 OK\r\nA: x#y\r\nC: d\r\n\r\nx", "HTTP/1.1 200 OK\r\nA#B: v\r\n\r\nx", "HTTP/1.1 200 OK\r\nA#: v\r\n\r\nx", "HTTP/1.1 200 OK\r\n\r\n#", "HTTP/1.1 200 OK\r\nA: b\r\n\r\nx#y"] {
            if !cx.mine() {
                cx.skip();
                continue;
            }
            let r = f.replace('#', p);
            cx.case(format!("{r:?}").as_bytes(), |cx| delivered(cx, r.as_bytes(), &[], 0, 0));
        }
    });
    for l in short_lines(cx.thorough) {
        for f in ["HTTP/1.1 200 OK\r\n#\r\n\r\nx", "HTTP/1.1 200 OK\r\nC: d\r\n#\r\nE: f\r\n\r\nx", "HTTP/1.1 200 OK\n#\nE: f\n\nx"] {
            if !cx.mine() {
                cx.skip();
                continue;
            }
            let r = f.replace('#', &l);
            cx.case(format!("{r:?}").as_bytes(), |cx| delivered(cx, r.as_bytes(), &[], 0, 0));
        }
    }
    // two and three cuts
    for (k, r) in all.iter().enumerate() {
        let n = r.len() as u32;
        if n > 120 {
            continue;
        }
        let step = if cx.thorough { 1 } else { 9 };
        if k % step != 0 {
            continue;
        }
        for i in 1..n {
            for j in i + 1..n {
                for eintr in [0, 1] {
                    if !cx.mine() {
                        cx.skip();
                        continue;
                    }
                    let d = format!("{} / cuts {i} {j}, interrupted {eintr}", name(r));
                    cx.case(d.as_bytes(), |cx| delivered(cx, r, &[i, j], eintr, 0));
                }
                if cx.thorough && k % 12 == 0 && n < 60 {
                    for l in j + 1..n {
                        if !cx.mine() {
                            cx.skip();
                            continue;
                        }
                        let d = format!("{} / cuts {i} {j} {l}", name(r));
                        cx.case(d.as_bytes(), |cx| delivered(cx, r, &[i, j, l], 1, 0));
                    }
                }
            }
        }
    }
    // every segmentation of short responses
    let shorts: &[&str] = if cx.thorough { &["H 1 R\r\n\r\nx", "H 1 R\r\nA:b\r\n\r\n", "H 1 R S\nA:\u{e9}\n\n\u{e9}y", "H 20 a b\n\n\r\n\n", "\r\n\r\nx", "H 1\n\n{\"a\":1}", "H 1 R\r\nA:b\r\nA:c\r\n\r\nx"] } else { &["H 1 R\r\n\r\nx", "H 1 R\nA:\u{e9}\n\ny", "\r\n\r\nx", "H 1\n\n{\"a\":1}"] };
    for s in shorts {
        let r = s.as_bytes();
        for mask in 0u32..1 << (r.len() - 1) {
            for eintr in [0, 1] {
                if !cx.mine() {
                    cx.skip();
                    continue;
                }
                let cuts: Vec<u32> = (0..r.len() as u32 - 1).filter(|i| mask >> i & 1 == 1).map(|i| i + 1).collect();
                let d = format!("{s:?} / cuts {cuts:?}, interrupted {eintr}");
                cx.case(d.as_bytes(), |cx| delivered(cx, r, &cuts, eintr, 0));
            }
        }
    }
    // many headers
    for n in [5usize, 16, 17, 32, 33, 63, 64, 65, 96, 100, 101, 127, 128, 129, 255, 256, 257, 500, 513, 1000, 1025] {
        for shape in 0..4 {
            let h: String = (0..n)
                .map(|i| match shape {
                    0 => format!("H{i}: v{i}\r\n"),
                    1 => format!("H{}: v{i}\r\n", i % 3),
                    2 => format!("H: v{}\r\n", i % 2),
                    _ => format!("{}:{}\r\n", "h".repeat(i % 70 + 1), "w ".repeat(i)),
                })
                .collect();
            let r = format!("HTTP/1.1 200 OK\r\n{h}\r\nbody").into_bytes();
            for seg in [0, 7, 1460] {
                let d = format!("{n} headers, shape {shape} / {seg} at a time");
                cx.case(d.as_bytes(), |cx| delivered(cx, &r, &[], 0, seg));
            }
        }
    }
    // sizes around the buffers
    let mut sizes: Vec<usize> = vec![100, 8100, 8150, 8180, 8190, 8191, 8192, 8193, 8200, 16384, 16385, 65536, 100_000, 300_000];
    if cx.thorough {
        sizes.extend(8120..8220);
    }
    for size in sizes {
        for shape in 0..3 {
            let b = bulk(size);
            let r = match shape {
                0 => format!("HTTP/1.1 200 OK\r\nA: b\r\n\r\n{b}"),
                1 => format!("HTTP/1.1 200 OK\r\nA: {b}\r\n\r\nbody"),
                _ => format!("HTTP/1.1 200 OK\r\nA: b\r\n\r\n{}", "é€😀".repeat(size / 9)),
            }
            .into_bytes();
            for cut in [1usize, 20, 8191, 8192, 8193, 16384, r.len() / 2, r.len() / 2 + 1, r.len() - 1] {
                for eintr in [0, 1] {
                    let d = format!("shape {shape} of {size} bytes / cut {cut}, interrupted {eintr}");
                    cx.case(d.as_bytes(), |cx| delivered(cx, &r, &[cut as u32, cut as u32 + 1], eintr, 0));
                }
            }
            for seg in [1000, 1459, 8192, 4096] {
                let d = format!("shape {shape} of {size} bytes / {seg} at a time");
                cx.case(d.as_bytes(), |cx| delivered(cx, &r, &[], 0, seg));
            }
        }
    }
    // bodies of many MiB
    for mib in [1usize, 2, 4, 8, 16] {
        for size in [(mib << 20) - 1, (mib << 20) + 1, (mib << 20) + 70_001] {
            cx.case(format!("a body of {size} bytes").as_bytes(), |cx| {
                let r = [b"HTTP/1.1 200 OK\r\nA: b\r\n\r\n".to_vec(), bulk(size).into_bytes()].concat();
                delivered(cx, &r, &[], 0, 0)
            });
        }
    }
    // delays between the pieces change nothing
    for r in all.iter().step_by(7) {
        for at in 1..r.len() as u32 {
            let d = format!("{} / pause after {at}", name(r));
            cx.case(d.as_bytes(), |cx| {
                http::world(&mut cx.shm.cfg, r);
                let rule = &mut cx.shm.cfg.rule[0];
                rule.delay_ns = 3_000_000_000;
                rule.split = at;
                rule.body_delay_ns = 100_000_000_000;
                let text = "GET http://h/p";
                let o = call(cx, text, "");
                good(&o, text, r)
            });
        }
    }
}

// ------------------------------------------------------------------------------------------ C15
/// Calls q twice with the other request in between; only the first call meets the fault.
fn failing(cx: &mut Cx, msg: &str, set: impl Fn(&mut Cfg), resp: &[u8], want: Option<&[u8]>) -> Result<(), String> {
    // want: Some(bytes) if the exchange completes with these bytes, None if it fails
    http::world(&mut cx.shm.cfg, resp);
    set(&mut cx.shm.cfg);
    let mut s = Session::new();
    if !s.eval(&def(msg, "status == 200")).ok() {
        return Err("the definition did not run".into());
    }
    let o = observe(cx, &mut s, "let v = q(); println(\"next\"); [v.version, v.status, v.reason, v.headers, v.body]");
    if cx.shm.tr.status != 0 {
        return Err(format!("the call never ends (status {})", cx.shm.tr.status));
    }
    let r = o.one()?;
    // tried once: a request that may have arrived is not repeated
    if o.conns.len() > 1 {
        return Err(format!("connections {:?} for one call", o.conns));
    }
    if o.out != "next\n" {
        return Err(format!("the script did not go on: {:?} {:?}", o.out, o.end));
    }
    let resp = match want.map(http::response) {
        Some(Ok(w)) => {
            if !r.error.is_empty() {
                return Err(format!("the exchange completed but the error is {:?}", r.error));
            }
            w
        }
        _ => {
            if r.error.is_empty() {
                return Err(format!("the exchange failed but the error is empty; response {:?}", http::of_rec(&r)));
            }
            Resp::default()
        }
    };
    if http::of_rec(&r) != resp {
        return Err(format!("response {:?}, expected {resp:?}", http::of_rec(&r)));
    }
    if o.end != End::Value(value_of(&resp)) {
        return Err(format!("value {:?}, expected {}", o.end, value_of(&resp)));
    }
    let m = http::message(msg);
    if r.name != "q" || r.method != m.method || r.headers.len() != m.headers.len() || !r.headers.iter().zip(&m.headers).all(|(a, b)| a.0 == b.0 && a.1.starts_with(&b.1)) {
        return Err(format!("the record is of another request: {r:?}"));
    }
    if r.asserts.len() != 1 || r.asserts[0].4 != (resp.status == 200) {
        return Err(format!("assertion {:?} for status {}", r.asserts, resp.status));
    }
    cx.state(format!("{:?}{}", resp, r.error).as_bytes());
    // a failed call leaves nothing behind
    let good_resp = OK;
    http::world(&mut cx.shm.cfg, good_resp);
    let o = observe(cx, &mut s, "let v = q(); println(\"next\"); [v.version, v.status, v.reason, v.headers, v.body]");
    good(&o, msg, good_resp).map_err(|e| format!("the next call: {e}"))
}
pub fn c15(cx: &mut Cx) {
    let msgs = ["GET http://h/p\nHost: h".to_string(), "POST http://10.1.2.3:81/p HTTP/1.0\nA: b\n\nbody".to_string(), format!("POST http://h/big\nA: b\n\n{}", bulk(20000)), "POST http://h/f\nContent-Type: application/x-www-form-urlencoded\n\na: b".to_string(), "POST http://h/f\nContent-Type: multipart/form-data\n\na: b\nc: d".to_string()];
    let errs = [libc::ECONNRESET, libc::ETIMEDOUT, libc::EPIPE, libc::ENETDOWN, libc::EIO, libc::EAGAIN, libc::ECONNABORTED, libc::ENOTCONN];
    let mut resps = responses();
    resps.retain(|r| r.len() < 120);
    let thin = if cx.thorough { 1 } else { 8 };
    for (mi, msg) in msgs.iter().enumerate() {
        let uses_name = !msg.contains("10.1.2.3");
        // names that do not resolve
        if uses_name {
            for eai in [libc::EAI_NONAME, libc::EAI_AGAIN, libc::EAI_FAIL, libc::EAI_SYSTEM, libc::EAI_MEMORY] {
                cx.case(format!("{msg:.60} / lookup error {eai}").as_bytes(), |cx| failing(cx, msg, |c| c.host[0].eai = eai, OK, None));
            }
            cx.case(format!("{msg:.60} / no address").as_bytes(), |cx| failing(cx, msg, |c| c.host[0].naddr = 0, OK, None));
        }
        // connections that fail
        for err in [libc::ECONNREFUSED, libc::ETIMEDOUT, libc::ENETUNREACH, libc::EHOSTUNREACH, libc::EACCES, libc::ECONNRESET, libc::EADDRNOTAVAIL] {
            cx.case(format!("{msg:.60} / connect error {err}").as_bytes(), |cx| {
                failing(
                    cx,
                    msg,
                    |c| {
                        if uses_name {
                            c.host[0].addr[0].err = err
                        } else {
                            c.add_host("unused", &[Addr { err, ..v4(10, 1, 2, 3) }]);
                        }
                    },
                    OK,
                    None,
                )
            });
        }
        // the send fails after any number of bytes
        let n = wire_len(cx, msg);
        let mut at: Vec<usize> = (0..n.min(200)).collect();
        at.extend([8191, 8192, 8193, 16384, 20000].iter().filter(|x| **x < n));
        for i in at {
            for k in 1..4usize {
                // options of the K_NETFAIL choice: reset, broken pipe, timed out
                cx.case(format!("{msg:.60} / send fails after {i} bytes ({k})").as_bytes(), |cx| {
                    failing(
                        cx,
                        msg,
                        |c| {
                            c.sfail_after = i as i32;
                            c.sfail_errno = [0, libc::ECONNRESET, libc::EPIPE, libc::ETIMEDOUT][k];
                        },
                        OK,
                        None,
                    )
                });
            }
        }
        // the receive fails, or the peer closes, after any number of bytes
        for (ri, r) in resps.iter().enumerate() {
            if ri % thin != mi % thin && !(mi == 0 && ri % 2 == 0) {
                continue;
            }
            for i in 0..=r.len() {
                cx.case(format!("{msg:.60} / {} / closed after {i} bytes", http::show(r)).as_bytes(), |cx| failing(cx, msg, |c| c.rule[0].resp_len = i as u32, r, Some(&r[..i])));
                for e in errs.iter().take(if mi == 0 || cx.thorough { 8 } else { 2 }) {
                    cx.case(format!("{msg:.60} / {} / error {e} after {i} bytes", http::show(r)).as_bytes(), |cx| {
                        failing(
                            cx,
                            msg,
                            |c| {
                                c.rule[0].fail_after = i as i32;
                                c.rule[0].fail_errno = *e;
                            },
                            r,
                            None,
                        )
                    });
                }
            }
        }
    }
    // bytes that are no HTTP or no text
    let junk: Vec<Vec<u8>> = vec![
        vec![],
        b"\n".to_vec(),
        b"\r\n\r\n".to_vec(),
        b"nonsense".to_vec(),
        b"HTTP/1.1".to_vec(),
        b"HTTP/1.1 abc def\r\n\r\n".to_vec(),
        b"HTTP/1.1 99999 big\r\n\r\n".to_vec(),
        b"HTTP/1.1 -1 neg\r\n\r\nx".to_vec(),
        b"\0\0\0\0".to_vec(),
        b"SSH-2.0-x\r\n".to_vec(),
        b"{\"json\": true}".to_vec(),
        b"HTTP/1.1 200 OK\r\nno colon\r\n: empty\r\n:\r\n\r\nb".to_vec(),
        b"  HTTP/1.1 200 OK\r\n\r\n".to_vec(),
    ];
    for j in &junk {
        cx.case(format!("answer {}", http::show(j)).as_bytes(), |cx| failing(cx, &msgs[0], |_| (), j, Some(j)));
    }
    let base = b"HTTP/1.1 200 OK\r\nA: b\r\n\r\nbody\r\n".to_vec();
    for bad in [&b"\xff"[..], b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xed\xa0\x80", b"\xc0\x80", b"\x80"] {
        for i in 0..=base.len() {
            let mut r = base[..i].to_vec();
            r.extend_from_slice(bad);
            r.extend_from_slice(&base[i..]);
            cx.case(format!("answer {}", http::show(&r)).as_bytes(), |cx| failing(cx, &msgs[0], |_| (), &r, Some(&r)));
            r.truncate(i + bad.len());
            cx.case(format!("answer {}", http::show(&r)).as_bytes(), |cx| failing(cx, &msgs[0], |_| (), &r, Some(&r)));
        }
    }
    // hosts of every look that are not found, refuse or answer
    for (k, h) in ["x", "h1", "h7.invalid", "no-such.example", "a.b.c.d.e", "localhost9", "xn--bcher-kva.example", "UPPER.example", "1and1.example", "9", "a_b.c", "example.com.", "db-01.internal.local", "timeout", "error", "null"].into_iter().enumerate() {
        for port in ["", ":1", ":8080", ":65535"] {
            for path in ["/p", "", "/a?b=c"] {
                let msg = format!("{} http://{h}{port}{path}\nHost: {h}{}", ["GET", "POST"][k % 2], ["", "\n\nbody"][k % 2]);
                for eai in [libc::EAI_NONAME, libc::EAI_AGAIN, libc::EAI_FAIL] {
                    cx.case(format!("{msg} / lookup error {eai}").as_bytes(), |cx| {
                        failing(
                            cx,
                            &msg,
                            |c| {
                                c.host[0].eai = eai;
                            },
                            OK,
                            None,
                        )
                    });
                }
            }
        }
    }
    histories(cx);
    // every short answer over a small alphabet of bytes
    let bytes = [b'H', b' ', b'\n', b'\r', b':', b'2', 0xffu8, 0xc3, 0xa9, b'{', b'"'];
    for n in 1..=if cx.thorough { 6 } else { 4 } {
        sequences(bytes.len(), n, |v| {
            if !cx.mine() {
                cx.skip();
                return;
            }
            let r: Vec<u8> = v.iter().map(|i| bytes[*i]).collect();
            // a double blank or a sign before the status is not specified
            let t = String::from_utf8_lossy(&r).into_owned();
            let loose = t.lines().next().unwrap_or("").trim().contains("  ") || t.contains("\r\r") || t.lines().any(|l| !l.is_empty() && l.trim().is_empty() && l != "\r");
            cx.case(format!("answer {}", http::show(&r)).as_bytes(), |cx| {
                if loose {
                    cx.count("unspecified_answers", 1);
                    return unspecified(cx, &msgs[0], &r);
                }
                failing(cx, &msgs[0], |_| (), &r, Some(&r))
            });
        });
    }
}
/// Calls of all outcomes one after the other: each is as if it were the only one.
fn histories(cx: &mut Cx) {
    let defs = [
        ("a", "GET http://h/ok"),
        ("b", "GET http://refused/"),
        ("c", "GET http://nowhere/"),
        ("d", "POST http://h/reset\n\nbody"),
        ("e", "GET http://h/junk"),
        ("f", "POST http://h/cut\nContent-Type: multipart/form-data\n\na: b"),
        ("g", "GET http://h/error"),
    ];
    let all: String = defs.iter().map(|(n, m)| format!("request {n}`{m}`[status == 200] ")).collect();
    let set = |cx: &mut Cx| {
        let c = &mut cx.shm.cfg;
        c.clear();
        c.default_open = 1;
        c.add_host("h", &[v4(10, 0, 0, 1)]);
        c.add_host("refused", &[Addr { err: libc::ECONNREFUSED, ..v4(10, 0, 0, 2) }]);
        c.add_host("nowhere", &[]).eai = libc::EAI_NONAME;
        c.add_rule(b" /ok ", OK);
        let r = c.add_rule(b" /reset ", OK);
        r.fail_after = 9;
        r.fail_errno = libc::ECONNRESET;
        c.add_rule(b" /junk ", b"HTTP/1.1 200 OK\r\n\r\n\xff");
        c.add_rule(b" /cut ", b"HTTP/1.1 20");
        c.add_rule(b" /error ", b"HTTP/1.1 503 No\r\nRetry-After: 9\r\n\r\nlater");
    };
    let calls = |cx: &mut Cx, h: &[usize]| -> Result<Vec<String>, String> {
        set(cx);
        let mut s = Session::new();
        if !s.eval(&all).ok() {
            return Err("the definitions did not run".into());
        }
        let text: String = h.iter().map(|i| format!("{}(); ", defs[*i].0)).collect();
        let o = observe(cx, &mut s, &format!("{text} 7"));
        let r = o.recs()?;
        if r.len() != h.len() || o.end != End::Value("Integer(7)".into()) {
            return Err(format!("{} records of {} calls, {:?}", r.len(), h.len(), o.end));
        }
        let conns = h.iter().filter(|i| **i != 2).count();
        if o.conns.len() != conns {
            return Err(format!("{} connections, expected {conns}", o.conns.len()));
        }
        Ok(r.iter().map(|r| format!("{} {} {} {:?} {:?} {:?} {:?}", r.name, r.method, r.url, http::of_rec(r), r.error, r.asserts, r.headers.iter().map(|h| &h.0).collect::<Vec<_>>())).collect())
    };
    let check = |cx: &mut Cx, h: Vec<usize>| {
        if !cx.mine() {
            cx.skip();
            return;
        }
        let d = if h.len() > 9 { format!("{} calls, {:?} ... {:?}", h.len(), &h[..3], &h[h.len() - 3..]) } else { format!("calls {h:?}") };
        cx.case(d.as_bytes(), |cx| {
            let got = calls(cx, &h)?;
            let mut alone: Vec<Option<String>> = vec![None; defs.len()];
            for (k, i) in h.iter().enumerate() {
                if alone[*i].is_none() {
                    alone[*i] = Some(calls(cx, &[*i])?.remove(0));
                }
                if alone[*i].as_ref() != Some(&got[k]) {
                    return Err(format!("call {k} of {h:?} gives\n{}\non its own it gives\n{}", got[k], alone[*i].as_ref().unwrap()));
                }
            }
            cx.state(d.as_bytes());
            cx.deepest = cx.deepest.max(h.len() as u64);
            Ok(())
        });
    };
    for n in 2..=if cx.thorough { 5 } else { 4 } {
        sequences(defs.len(), n, |v| check(cx, v.to_vec()));
    }
    for n in (1..=40usize).chain([63, 64, 65, 100, 127, 128, 129, 200]) {
        for i in 0..defs.len() {
            for j in [0, 1, 6] {
                check(cx, [vec![i; n], vec![j], vec![i], vec![j]].concat());
            }
            check(cx, (0..n).map(|k| if k % 2 == 0 { i } else { (i + k) % defs.len() }).chain([0]).collect());
        }
    }
}
/// The answer has no specified meaning: the script goes on and there is one record.
fn unspecified(cx: &mut Cx, msg: &str, r: &[u8]) -> Result<(), String> {
    http::world(&mut cx.shm.cfg, r);
    let o = call(cx, msg, "");
    o.one()?;
    if o.out != "next\n" {
        return Err(format!("the script did not go on: {:?}", o.end));
    }
    Ok(())
}
