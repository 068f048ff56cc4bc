//! C08, C09, C30: the command line program as a whole. C17: connecting to hosts with several addresses.
use crate::avro;
use crate::e2::{search, story, text, Fin, Proc, Search};
use crate::lang::{self, V};
use crate::lang_checks::sequences;
use crate::pool::Cx;
use crate::rt::*;
use crate::runs::{files, requests};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

const MS: u64 = 1_000_000;
const SEC: u64 = 1_000_000_000;
const T0: u64 = 1_000_000_000_000;

fn go(cx: &mut Cx, p: &mut Proc, args: &[&str]) -> Fin {
    let f = match p.run(args, &[]) {
        Ok(f) => f,
        Err(e) => cx.broken(&e),
    };
    cx.traces += 1;
    cx.transitions += p.shm.tr.nev as u64;
    cx.count("executions", 1);
    f
}
fn show(p: &Proc, fin: &Fin) -> String {
    format!("end {fin:?}\n{}\nstandard output:\n{}", story(&p.shm.tr), text(&p.shm.tr.out()))
}

// ------------------------------------------------------------------ C08
enum Piece {
    Exact(String),
    /// an error message
    Line,
    /// an error message or nothing
    Maybe,
}
/// What the session prints for these lines, up to `exit` or the end.
fn session(lines: &[Vec<u8>]) -> Vec<Piece> {
    let mut env = lang::Env::default();
    env.responder = Some(Rc::new(|_, _, msg: &str| {
        let status = if msg.ends_with("/1") { 201 } else { 200 };
        Some(V::Map(BTreeMap::from([("status".to_string(), V::Int(status)), ("body".to_string(), V::Str("x".into()))])))
    }));
    let mut v = Vec::new();
    for l in lines {
        let Ok(s) = std::str::from_utf8(l) else {
            v.push(Piece::Maybe);
            continue;
        };
        let s = s.strip_suffix('\r').unwrap_or(s);
        if s == "exit" {
            break;
        }
        if s.trim().is_empty() {
            continue;
        }
        env.out.clear();
        let r = lang::run(&mut env, s);
        let out = std::mem::take(&mut env.out);
        match r {
            Ok(val) => v.push(Piece::Exact(format!("{out}{}\n", val.show()))),
            Err(_) => {
                v.push(Piece::Exact(out));
                v.push(Piece::Line);
            }
        }
    }
    v
}
fn matches(out: &str, ps: &[Piece]) -> bool {
    match ps.first() {
        None => out.is_empty(),
        Some(Piece::Exact(s)) => out.strip_prefix(s.as_str()).map_or(false, |r| matches(r, &ps[1..])),
        Some(Piece::Line) => out.find('\n').map_or(false, |i| i > 0 && matches(&out[i + 1..], &ps[1..])),
        Some(Piece::Maybe) => matches(out, &ps[1..]) || out.find('\n').map_or(false, |i| matches(&out[i + 1..], &ps[1..])),
    }
}
fn judge08(input: &[u8], tr: &Trace, fin: &Fin) -> Result<(), String> {
    if *fin != Fin::Exit(0) {
        return Err(format!("the session did not end normally: {fin:?}"));
    }
    let mut lines: Vec<Vec<u8>> = input.split(|c| *c == b'\n').map(|l| l.to_vec()).collect();
    if lines.last().map_or(false, |l| l.is_empty()) {
        lines.pop();
    }
    let ps = session(&lines);
    let out = text(&tr.out());
    if !matches(&out, &ps) {
        let want: Vec<String> = ps
            .iter()
            .map(|p| match p {
                Piece::Exact(s) => format!("{s:?}"),
                Piece::Line => "an error".into(),
                Piece::Maybe => "perhaps an error".into(),
            })
            .collect();
        return Err(format!("the session printed {out:?}, expected {}", want.join(", ")));
    }
    Ok(())
}
fn world08(p: &mut Proc, input: &[u8]) {
    let c = p.world();
    c.add_host("", &[v4(10, 0, 0, 1)]);
    c.add_rule(b"GET /1 ", b"HTTP/1.1 201 X\r\n\r\nx");
    c.add_rule(b"", b"HTTP/1.1 200 X\r\n\r\nx");
    c.stdin(input);
    c.sched_kinds = 0;
}
pub fn c08(cx: &mut Cx) {
    let mut p: Option<Proc> = None;
    let mut one = |cx: &mut Cx, input: &[u8], cut: &[u32]| {
        let mut d = b"session ".to_vec();
        d.extend_from_slice(String::from_utf8_lossy(input).as_bytes());
        d.extend_from_slice(format!("\ncut at {cut:?}").as_bytes());
        let p = &mut p;
        cx.case(&d.clone(), |cx| {
            let p = p.get_or_insert_with(|| Proc::new(cx));
            world08(p, input);
            p.shm.cfg.cut[..cut.len()].copy_from_slice(cut);
            p.shm.cfg.ncut = cut.len() as u32;
            let f = go(cx, p, &[]);
            cx.state(&d);
            judge08(input, &p.shm.tr, &f).map_err(|m| format!("{m}\n{}", show(p, &f)))
        });
    };
    let lines = [
        "let x = 1",
        "let x = x + 1",
        "x",
        "let y = [x, x]; y",
        "let x = 5; 1/0; let x = 9",
        "let x = ;",
        "request q`GET http://h/{x}`[]",
        "request q`GET http://h/1`[] let x = 3",
        "request q`GET http://h/2`[] let x = 8; nope",
        "q().status",
        "println(\"p{a}\", x); nope; 1",
        "",
        " \t",
        "exit ",
        "request r`GET http://h/{x}`[] let y = (",
        "r().status + 0",
        "test t { let x = 7 } x",
    ];
    let seq = |v: &[usize]| v.iter().map(|i| lines[*i]).collect::<Vec<_>>();
    let depth = if cx.thorough { 4 } else { 3 };
    for n in 0..=depth {
        sequences(lines.len(), n, |v| {
            if !cx.mine() {
                cx.skip();
                return;
            }
            // what is left is shown at the end
            let mut s = seq(v).join("\n");
            if n > 0 {
                s.push('\n');
            }
            s.push_str("y\nx");
            one(cx, s.as_bytes(), &[]);
        });
    }
    // endings: exit, the end of the input, something after the exit; line ends
    for n in 0..=2 {
        sequences(lines.len(), n, |v| {
            for end in ["exit", "exit\n", "exit\nx\n", "exit\r\nprintln(\"no\")\r\n", "\n", "\r\n", "x", " exit\nx", "Exit\nx\n", "exit;\nx", "\"exit\"\nx", "\u{feff}exit\n1", "exit\t\n2"] {
                for sep in ["\n", "\r\n", "\n\n"] {
                    let mut s = seq(v).join(sep);
                    if n > 0 {
                        s.push_str(sep);
                    }
                    s.push_str(end);
                    one(cx, s.as_bytes(), &[]);
                }
            }
        });
    }
    // lines of several statements: what is before a failing one stays
    let parts = ["let x = x + 1", "request q`GET http://h/2`[]", "q().status", "println(\"p{a}\", x)", "nope", "if (x) { let y = [x]; y.z }", "test t { 1 }", "let z = x"];
    for n in 1..=if cx.thorough { 5 } else { 4 } {
        sequences(parts.len(), n, |v| {
            if !cx.mine() {
                cx.skip();
                return;
            }
            let l = v.iter().map(|i| parts[*i]).collect::<Vec<_>>().join("; ");
            one(cx, format!("let x = 1; request q`GET http://h/1`[]\n{l}\nq().status\n[x, y]\nz").as_bytes(), &[]);
        });
    }
    // bytes that are no text
    for bad in [&b"\xff"[..], b"1 \xc3", b"\"\xe2\x82\"", b"\xff exit"] {
        for i in 0..lines.len() {
            for place in 0..3 {
                let l = lines[i].as_bytes();
                let s = match place {
                    0 => [bad, b"\n", l, b"\nx\n"].concat(),
                    1 => [l, b"\n", bad, b"\nx\n"].concat(),
                    _ => [l, b"\nx\n", bad].concat(),
                };
                one(cx, &s, &[]);
            }
        }
    }
    // every cut, every two cuts
    let samples = [
        "let x = 1\nx\nexit\nx",
        "let é = \"ü😀\"\nx\nprintln(\"a😀b\")",
        "request q`GET http://h/{x}`[]\nlet x = 1\nq().status\n\nexit\n",
        "let x = ;\r\nlet x = 4\r\nx\r\nexit\r\n",
    ];
    for s in samples {
        let n = s.len() as u32;
        for a in 1..n {
            one(cx, s.as_bytes(), &[a]);
            for b in (a + 1..n).step_by(if cx.thorough { 1 } else { 5 }) {
                one(cx, s.as_bytes(), &[a, b]);
            }
        }
    }
    // words that end, clear or look up something elsewhere
    let words = [
        "quit", "q", ":q", ":q!", ":quit", ":exit", ".exit", ".quit", "/exit", "/quit", "\\q", "\\exit", "bye", "logout", "logoff", "end", "END", "stop", "close", "halt", "abort", "EOF", "eof", "^D", "^C", "\u{4}", "\u{3}", "\u{1a}", "\u{1b}", "ctrl-d", "exit()", "quit()", "exit(0)", "exit 0", "exit 1", "exit now", "EXIT", "eXit", "exits", "xit", "exi", "exitt", "e x i t", "exit exit", "'exit'", "`exit`", "exit.", "exit!", "(exit)", "[exit]", "-exit", "!exit", "exit:", "exit,", "exit=1", "exit/", "exit\\", "exit #", "# exit", "// exit", "let exit = 1; exit", "exit == exit", "help", "help()", "?", ":help", ".help", "version", "about", "clear", "cls", "reset", "restart", "reload", "history", "!!", "!1", "!$", "undo", "redo", "save", "load", "env", "vars", "ls", "dir", "pwd", "cd", "run", "test", "test t", "eval 1", "source x", ". x", "import x", "let", "this", "last", "it", "ans", "_", "$_", "%", "it + 1", "_ + 1", "null", "undefined", "done", "pass", "return", "return 1", "break", "continue", "yield", "begin", "end;", "go", "GO", "EOT", "--", "---", "...", "> x", ">>> x", "$ x", "x exit", "exit x",
    ];
    for w in words {
        for t in [w.to_string(), format!(" {w}"), format!("{w} "), format!("{w};"), w.to_uppercase()] {
            // the word that ends it indeed
            if t == "exit" {
                continue;
            }
            one(cx, format!("let x = 1\n{t}\nx\nlet x = 2\n{t}\nx").as_bytes(), &[]);
            one(cx, format!("{t}\nlet quit = 3; let exit = 4\n{t}\n7\n{t}").as_bytes(), &[]);
        }
    }
    // long lines and long sessions
    for n in [100usize, 1000, 8180, 8190, 8191, 8192, 8193, 16384, 70_000] {
        let s = format!("let x = \"{}\"\nlength(x)\n{}\nx", "a".repeat(n), " ".repeat(n));
        one(cx, s.as_bytes(), &[]);
        let s = format!("let x = 0\n{}x", "let x = x + 1\n".repeat(n / 20));
        one(cx, s.as_bytes(), &[]);
        let s = format!("let x = 0\n{}x", "let x = x + 1; 1/0\n".repeat(n / 20));
        one(cx, s.as_bytes(), &[]);
    }
    // every line of one and two characters, and what an operator makes of a value
    let mut chars: Vec<char> = (32u8..127).map(|b| b as char).collect();
    chars.extend(['\t', '\u{b}', '\u{c}', '\r', '\0', '\u{1}', '\u{7f}', '\u{85}', '\u{a0}', '\u{feff}', 'é', '\u{2003}', '\u{2028}', '😀']);
    for &a in &chars {
        let mut l: Vec<String> = vec![format!("{a}"), format!("{a}{a}{a}"), format!("{a} x"), format!("x {a}"), format!("{a}x; x"), format!("x {a} x"), format!("let x = x + 1 {a}"), format!("{a} let x = 5"), format!("{a}exit"), format!("exit{a} x")];
        l.extend(chars.iter().map(|b| format!("{a}{b}")));
        for part in l.chunks(24) {
            let s = format!("let x = 1\n{}\nx\n\nx", part.join("\nx\n"));
            one(cx, s.as_bytes(), &[]);
        }
    }
    // many lines of every kind, many names, many definitions
    let sizes: &[usize] = if cx.thorough { &[5, 9, 16, 17, 33, 64, 65, 100, 128, 129, 255, 256, 257, 300, 500, 1000, 1025, 4097] } else { &[9, 17, 33, 64, 65, 128, 129, 256, 257, 300, 1025] };
    for &n in sizes {
        let all = |f: &dyn Fn(usize) -> String| (0..n).map(|i| f(i) + "\n").collect::<String>();
        let fam: Vec<String> = vec![
            all(&|i| format!("let v{i} = {i}")) + &all(&|i| format!("v{}", n - 1 - i)),
            all(&|i| format!("let x = {i}; nope")) + "x",
            all(&|_| "let x = ;".into()) + "let x = 1\nx",
            all(&|_| String::new()) + "7\nexit\n8",
            all(&|_| "  ".into()) + "7",
            "let x = 1\n".to_string() + &all(&|i| if i % 2 == 0 { "nope".into() } else { "let x = x + 1".into() }) + "x\nexit\nx",
            all(&|i| format!("println(\"{i}\")")) + "exit\n9\n",
            all(&|i| ["let x = 1", "x", "let x = ;", "nope", "", "println(\"a\")", "let y = [x]; y", "1/0"][i % 8].to_string()) + "exit",
            all(&|i| format!("let x = \"{}\"; length(x)", "é".repeat(i))),
            all(&|i| format!("[{}]", (0..i).map(|k| format!("{k}")).collect::<Vec<_>>().join(", "))),
        ];
        for s in fam {
            if s.len() < 1_000_000 {
                one(cx, s.as_bytes(), &[]);
            }
        }
        if n <= 129 {
            let s = all(&|i| format!("request q{i}`GET http://h/{}`[]", i % 3)) + &all(&|i| format!("q{}().status", n - 1 - i));
            one(cx, s.as_bytes(), &[]);
            let s = all(&|i| format!("request q`GET http://h/{}`[] q().status", i % 3)) + "q().status";
            one(cx, s.as_bytes(), &[]);
            let s = "request q`GET http://h/1`[]\n".to_string() + &all(&|i| if i % 4 == 1 { "q().status; nope".into() } else { "q().status".into() });
            one(cx, s.as_bytes(), &[]);
        }
    }
    // every way to deliver the input, up to the deviation bound
    let b = if cx.thorough { 60_000 } else { 3_000 };
    for s in samples {
        let p = &mut p;
        let d = format!("deliveries of {s:?}");
        cx.all(d.as_bytes(), |cx| {
            let p = p.get_or_insert_with(|| Proc::new(cx));
            world08(p, s.as_bytes());
            p.shm.cfg.feat = F_STDINCUT;
            search(cx, p, &Search { args: &[], dev: 12, budget: b, split: true }, &d, &mut |_, tr, f| judge08(s.as_bytes(), tr, f));
            Ok(())
        });
    }
}

// ------------------------------------------------------------------ C09
fn clean(dir: &str) {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).unwrap();
}
/// The paths in sorted order, component by component.
fn ordered(list: &[(String, String)]) -> Vec<(String, String)> {
    let mut v = list.to_vec();
    v.sort_by_key(|f| f.0.split('/').map(raw).collect::<Vec<_>>());
    v
}
/// The bytes of a name: U+EE00 and the next 255 characters stand for single bytes, which need not be UTF-8.
fn raw(name: &str) -> Vec<u8> {
    let mut v = vec![];
    for c in name.chars() {
        match c as u32 {
            n @ 0xee00..=0xeeff => v.push(n as u8),
            _ => v.extend(c.to_string().bytes()),
        }
    }
    v
}
fn used(path: &str) -> bool {
    path.ends_with(".fan")
}
fn judge09(list: &[(String, String)], tr: &Trace, fin: &Fin) -> Result<(), String> {
    if *fin != Fin::Exit(0) {
        return Err("the run did not end normally".to_string());
    }
    let joined: String = ordered(list).iter().filter(|f| used(&f.0)).map(|f| format!("{}\n", f.1)).collect();
    let mut env = lang::Env::default();
    let r = lang::run(&mut env, &joined);
    let out = text(&tr.out());
    // an error may quote the source
    let said = |t: &str| (1..=1 + joined.matches('\n').count()).contains(&t.lines().count());
    let ok = match r {
        Ok(_) => out == env.out,
        Err(true) => said(&out),
        Err(false) => out.strip_prefix(&env.out).map_or(false, said),
    };
    if !ok {
        return Err(format!("output {out:?}, the files in order give {:?} {r:?}", env.out));
    }
    Ok(())
}
pub fn c09(cx: &mut Cx) {
    let mut p: Option<Proc> = None;
    let mut one = |cx: &mut Cx, list: &[(String, String)], perm: u32, how: usize| {
        let d = format!("{list:?}\nlisting {perm}, way {how}");
        let p = &mut p;
        cx.case(d.as_bytes(), |cx| {
            let p = p.get_or_insert_with(|| Proc::new(cx));
            let dir = p.dir.clone();
            clean(&format!("{dir}/src"));
            clean(&format!("{dir}/away"));
            for (path, body) in list {
                let full = [format!("{dir}/src/").into_bytes(), raw(path)].concat();
                let full = std::path::Path::new(std::os::unix::ffi::OsStrExt::from_bytes(&full[..]) as &std::ffi::OsStr);
                if path.ends_with('/') {
                    std::fs::create_dir_all(full).unwrap();
                } else if how >= 10 && path.contains('@') {
                    // a name with an at sign is a link to a file elsewhere
                    let away = format!("{dir}/away/{}", [b"z.fan", b"a.fan", b"m.txt", b"0.fan"][(how + path.len()) % 4].iter().map(|c| *c as char).collect::<String>());
                    std::fs::create_dir_all(full.parent().unwrap()).unwrap();
                    let away = format!("{away}{}", std::fs::read_dir(format!("{dir}/away")).unwrap().count());
                    std::fs::write(&away, body).unwrap();
                    std::os::unix::fs::symlink(&away, full).unwrap();
                } else {
                    std::fs::create_dir_all(full.parent().unwrap()).unwrap();
                    std::fs::write(full, body).unwrap();
                }
            }
            let c = p.world();
            c.sched_kinds = 0;
            c.dirperm = perm;
            let single = format!("src/{}", list.first().map_or("", |f| &f.0));
            let args: Vec<&str> = match how {
                0 | 10.. => vec!["test", "--path", "src"],
                1 => vec!["test"],
                2 => vec!["test", "--path", "src/"],
                3 => vec!["test", "--path", "./src/../src"],
                _ => vec!["test", "--path", &single],
            };
            let f = go(cx, p, &args);
            cx.state(d.as_bytes());
            judge09(list, &p.shm.tr, &f).map_err(|m| format!("{m}\n{}", show(p, &f)))
        });
    };
    let paths = [
        "a.fan", "b.fan", "B.fan", "c.txt", "d/a.fan", "d/b/a.fan", "d.fan", "d-x.fan", "e.fan/a.fan", "fan", "a.fan.bak", "g.fan/", "d/c.fanx", "é.fan", "d/b.fan", "a b.fan", "10.fan", "9.fan", ".h.fan", ".d/a.fan", "_u.fan", "a.FAN",
    ];
    let with = |i: usize, k: usize| (paths[i].to_string(), if paths[i].ends_with('/') { String::new() } else { format!("println(\"{} {k}\")", paths[i]) });
    let max = if cx.thorough { 4 } else { 3 };
    for n in 0..=max {
        sequences(paths.len(), n, |v| {
            if v.windows(2).any(|w| w[0] >= w[1]) {
                return;
            }
            let list: Vec<(String, String)> = v.iter().enumerate().map(|(k, i)| with(*i, k)).collect();
            let perms: u32 = (1..=n as u32).product();
            for perm in 1..=perms.max(1) {
                if n == 4 && perm % 5 != 1 {
                    continue;
                }
                one(cx, &list, perm, 0);
            }
            if n <= 2 {
                for how in 1..4 {
                    one(cx, &list, 1, how);
                }
            }
        });
    }
    // names that are not UTF-8, beside others that look like them
    let odd = ["\u{eeff}.fan", "\u{fffd}.fan", "\u{fffe}.fan", "\u{ee80}x.fan", "z\u{eec3}.fan", "\u{eefe}/a.fan", "\u{10ffff}.fan", "x.f\u{eeff}n", "zé.fan", "\u{e9}.fan"];
    for n in 1..=if cx.thorough { 5 } else { 3 } {
        sequences(odd.len(), n, |v| {
            if v.windows(2).all(|w| w[0] < w[1]) {
                let list: Vec<(String, String)> = v.iter().enumerate().map(|(k, i)| (odd[*i].to_string(), format!("println(\"{i} {k}\")"))).collect();
                for perm in 1..=(1..=n as u32).product() {
                    one(cx, &list, perm, 0);
                }
            }
        });
    }
    // links to files among the files
    let links = ["a@.fan", "b.fan", "c@.fan", "d@.fan", "b/x@.fan", "c.fan", "@.fan", "z@.fan", "z.fan", "k@.txt"];
    for n in 1..=if cx.thorough { 5 } else { 3 } {
        sequences(links.len(), n, |v| {
            if v.windows(2).all(|w| w[0] < w[1]) {
                let list: Vec<(String, String)> = v.iter().enumerate().map(|(k, i)| (links[*i].to_string(), format!("println(\"{i} {k}\")"))).collect();
                for how in 10..14 {
                    one(cx, &list, 1 + (how as u32 % 2), how);
                }
            }
        });
    }
    // everything at once, in several listings; deep trees
    let all: Vec<(String, String)> = (0..paths.len()).map(|i| with(i, 0)).collect();
    for perm in 1..=if cx.thorough { 5040 } else { 300 } {
        one(cx, &all, perm * 7919, 0);
    }
    for depth in [1usize, 5, 30, 60] {
        let list: Vec<(String, String)> = (0..depth).flat_map(|d| [("n/".repeat(d) + "m.fan", format!("println(\"m{d}\")")), ("n/".repeat(d) + "o.fan", format!("println(\"o{d}\")"))]).collect();
        for perm in 1..=6 {
            one(cx, &list, perm, 0);
        }
    }
    // many files, many directories, in several listings
    for n in [10usize, 16, 17, 33, 64, 65, 100, 128, 129, 256, 257, 300] {
        if n > 129 && !cx.thorough && n % 2 == 0 {
            continue;
        }
        let say = |p: String| (p.clone(), format!("println(\"{p}\")"));
        let fam: Vec<Vec<(String, String)>> = vec![
            (0..n).map(|i| say(format!("f{i}.fan"))).collect(),
            (0..n).map(|i| say(format!("d{i}/a.fan"))).collect(),
            (0..n).map(|i| say(format!("{}{i:03}.{}", if i % 3 == 0 { "d/" } else { "" }, if i % 5 == 4 { "txt" } else { "fan" }))).collect(),
            (0..n).map(|i| say(format!("{}.fan", "k".repeat(1 + i % 250)))).collect::<BTreeMap<_, _>>().into_iter().collect(),
        ];
        for l in fam {
            for perm in [1u32, 2, 7919, 123_457] {
                one(cx, &l, perm, 0);
            }
            one(cx, &l, 3, 1);
        }
    }
    // what a file ends with and the next begins with
    let edge = ["let x = 1", "0; println(\"{x}\", 5)", "println(\"a\")", "let x", "= 3", "2", "println(\"{x}\", x)", "", "\n", ";", "-1", "\"s\"", "+ 1", "let y = x &", "& 3", "if (true)", "{ println(\"t\") }", "test t { 1 }", "est u { 1 }", "println(\"{x}\", 1 + 2", ")", "true", "1.", "5"];
    let n = edge.len();
    for a in 0..n {
        for b in 0..n {
            let list = vec![("a.fan".to_string(), edge[a].to_string()), ("b.fan".to_string(), edge[b].to_string()), ("c.fan".to_string(), "println(\"end\")".to_string())];
            one(cx, &list, 1, 0);
            one(cx, &list, 6, 0);
        }
        if cx.thorough {
            for b in 0..n {
                for c in 0..n {
                    let list = vec![("a.fan".to_string(), edge[a].to_string()), ("b/b.fan".to_string(), edge[b].to_string()), ("c.fan".to_string(), edge[c].to_string())];
                    one(cx, &list, 1 + (a + b + c) as u32 % 6, 0);
                }
            }
        }
        // a file alone
        one(cx, &[("a.fan".to_string(), edge[a].to_string())], 1, 4);
        one(cx, &[("x.y.fan".to_string(), format!("{} println(\"q\")", edge[a]))], 1, 4);
    }
    // any character at the end of a file, any at the beginning of the next, in and out of quotes
    let any: Vec<char> = (9u8..127).filter(|c| !(14..32).contains(c)).map(|c| c as char).chain(['é', '\u{feff}', '\u{a0}', '\u{2028}', '\0']).collect();
    for &a in &any {
        for &b in &any {
            if !cx.thorough && !"\"`\n\r;a1= [".contains(a) && !"\"`\n\r;a1= [".contains(b) {
                continue;
            }
            let file = |p: &str, t: String| (p.to_string(), t);
            let list = vec![file("a.fan", format!("println(\"a\") {a}")), file("b.fan", format!("{b} println(\"b\")"))];
            one(cx, &list, 1, 0);
            let list = vec![file("a.fan", format!("let q = \"x{a}")), file("b.fan", format!("{b}\" println(\"<{{q}}>\", q)"))];
            one(cx, &list, 1, 0);
            let list = vec![file("a.fan", format!("let q = [1, {a}")), file("b.fan", format!("{b}] println(\"<{{q}}>\", q)"))];
            one(cx, &list, 2, 0);
        }
        let list = vec![("a.fan".to_string(), format!("let q = 1 println(\"a\"){a}"))];
        one(cx, &list, 1, 4);
        let list = vec![("a.fan".to_string(), format!("{a}println(\"a\") \"x\""))];
        one(cx, &list, 1, 4);
    }
    for q in ["\"", "`"] {
        let list = vec![("a.fan".to_string(), format!("let x = 3 request r{q}")), ("b.fan".to_string(), format!("GET http://h/{q}[] println(\"b\")")), ("c.fan".to_string(), "println(\"{x}\", x)".to_string())];
        one(cx, &list, 1, 0);
        let list = vec![("a.fan".to_string(), format!("let x = {q}")), ("b.fan".to_string(), format!("{q} println(\"b{{x}}\", x)"))];
        one(cx, &list, 1, 0);
        let list = vec![("a.fan".to_string(), format!("let x = {q}")), ("b.fan".to_string(), String::new()), ("c.fan".to_string(), format!("{q} println(\"b{{x}}\", x)"))];
        one(cx, &list, 4, 0);
    }
    for size in [1usize, 4095, 4096, 8191, 8192, 8193, 65_535, 65_536, 100_000, 1_000_000] {
        let t = (0..size / 20).map(|i| format!("let x{} = {i:05}\n", i % 10)).collect::<String>() + "println(\"{a} {b}\", 1, 2)";
        one(cx, &[("a.fan".to_string(), t.clone()), ("b/c.fan".to_string(), format!("{t} println(\"é\")")), ("d.fan".to_string(), "println(\"{x}\", 3)".to_string())], 3, 0);
        let t = format!("println(\"{}\")", "k".repeat(size));
        one(cx, &[("a.fan".to_string(), t.clone()), ("b.fan".to_string(), t)], 2, 0);
    }
}

// ------------------------------------------------------------------ C30
/// Seconds a duration text stands for.
fn seconds(t: &str) -> Option<u64> {
    let u = match t.chars().last()? {
        's' => 1,
        'm' => 60,
        'h' => 3600,
        _ => return None,
    };
    let n = &t[..t.len() - 1];
    if n.is_empty() || !n.bytes().all(|c| c.is_ascii_digit()) {
        return None;
    }
    n.parse::<u64>().ok()?.checked_mul(u)
}
fn rejected(tr: &Trace, fin: &Fin) -> Result<(), String> {
    if *fin != Fin::Exit(2) || tr.cat(E_ERR).is_empty() || !tr.out().is_empty() || tr.events().iter().any(|e| matches!(e.typ, E_TSTART | E_REQ)) {
        return Err("not rejected with a usage error before anything runs".into());
    }
    Ok(())
}
pub fn c30(cx: &mut Cx) {
    let mut p: Option<Proc> = None;
    let mut duration = |cx: &mut Cx, t: &str, threads: &str, form: usize| {
        if !cx.mine() {
            cx.skip();
            return;
        }
        let d = format!("--duration {t:?}, {threads} threads, form {form}");
        let p = &mut p;
        cx.case(d.as_bytes(), |cx| {
            if t.starts_with('+') && seconds(&t[1..]).is_some() {
                return Ok(()); // not specified
            }
            let p = p.get_or_insert_with(|| Proc::new(cx));
            let s = seconds(t);
            // three iterations, the last one running when the time is over
            let far = s.map_or(true, |s| s > 4_000_000_000);
            let delay = if far { 0 } else { (s.unwrap() * SEC / 3) + 1 };
            p.file("a.fan", &format!("request q`GET http://h/{{v}}.`[] let v = 0; test t {{ let v = v + 1; q(); {} }}", if far || s == Some(0) { "if (v == 3) { 1/0; }" } else { "" }));
            let c = p.world();
            c.sched_kinds = 0;
            c.add_host("", &[v4(10, 0, 0, 1)]);
            c.add_rule(b"", crate::http::OK).delay_ns = delay;
            let long = format!("--duration={t}");
            let short = format!("-d{t}");
            let mut args = vec!["test", "t", "--path", "a.fan"];
            match form {
                0 => args.extend(["--duration", t]),
                1 => args.push(&long),
                2 => args.push(&short),
                _ => args.extend(["-d", t]),
            }
            if threads != "1" {
                args.extend(["--threads", threads]);
            }
            let f = go(cx, p, &args);
            cx.state(d.as_bytes());
            let tr = &p.shm.tr;
            let r = match s {
                None => rejected(tr, &f),
                Some(s) => {
                    let mut r = Ok(());
                    let n: u32 = threads.parse().unwrap();
                    let q = requests(tr);
                    let mut by: BTreeMap<u16, Vec<u64>> = BTreeMap::new();
                    for x in &q {
                        by.entry(x.0).or_default().push(x.1);
                    }
                    if crate::runs::unfinished(tr, &f, s.saturating_mul(SEC)) {
                        cx.count("unfinished", 1);
                    } else if f != Fin::Exit(0) {
                        r = Err("the run did not end normally".to_string());
                    } else if far {
                        if by.len() != n as usize || by.values().any(|v| v.len() != 3) {
                            r = Err(format!("stopped early: {q:?}"));
                        }
                    } else {
                        let end = tr.events().iter().map(|e| e.t).max().unwrap_or(0);
                        if s > 0 && (by.len() != n as usize || by.values().any(|v| *v != vec![T0, T0 + delay, T0 + 2 * delay])) {
                            r = Err(format!("{s} s: requests at {:?} ns", q.iter().map(|x| x.1 - T0).collect::<Vec<_>>()));
                        } else if s > 0 && end != T0 + 3 * delay {
                            r = Err(format!("{s} s: the run ends after {} ns", end - T0));
                        } else if s == 0 && q.iter().any(|x| x.1 > T0 + 1) {
                            r = Err("iterations after the end".into());
                        }
                    }
                    r
                }
            };
            r.map_err(|m| format!("{m}\n{:?}\n{}\n{}", args, text(&tr.cat(E_ERR)), show(p, &f)))
        });
    };
    let chars = ["0", "1", "9", "s", "m", "h", "d", "S", "-", "+", ".", " ", "é", "_", "M"];
    let max = if cx.thorough { 4 } else { 3 };
    for n in 0..=max {
        sequences(chars.len(), n, |v| {
            let t: String = v.iter().map(|i| chars[*i]).collect();
            duration(cx, &t, "1", if t.starts_with('-') { 1 } else { 0 });
        });
    }
    let edges: &[u64] = &[0, 1, 2, 59, 60, 61, 3599, 3600, 4294967295, 4294967296, 9223372036854775807, 18446744073709551, 18446744073709552, 307445734561825859, 307445734561825860, 307445734561825861, 5124095576030430, 5124095576030431, 5124095576030432, 18446744073709551614, 18446744073709551615];
    for u in ["s", "m", "h", "ms", "H", "S", "M", "min", "sec", "hr", "D", "w", "y", "us", "ns", "", "ss", "s ", "µs", "d", "\u{661}s", "１s", "s\n", "\t"] {
        for e in edges {
            for z in ["", "0", "000"] {
                duration(cx, &format!("{z}{e}{u}"), "1", 0);
            }
        }
        for big in ["18446744073709551616", "99999999999999999999999", "0x1", "1e3", "1_000", "1,0", "1 0", "½", "𝟙"] {
            duration(cx, &format!("{big}{u}"), "1", 0);
        }
    }
    for u in ["s", "m", "h"] {
        for n in 0..if cx.thorough { 400 } else { 60 } {
            duration(cx, &format!("{n}{u}"), "1", n % 4);
        }
        for k in 1..20 {
            let t: String = "123456789123456789123"[..k].into();
            duration(cx, &format!("{t}{u}"), "1", 0);
            duration(cx, &format!("{t}{u}"), "2", 1);
        }
    }
    // numbers and threads
    let nums = ["0", "1", "2", "7", "40", "90", "4294967294", "4294967295", "4294967296", "-1", "", "x", "1.0", " 1", "+3", "0007", "é", "99999999999999999999", "0x2", "1s"];
    for threads in nums {
        for number in nums {
            let d = format!("--threads {threads:?} --number {number:?}");
            let p = &mut p;
            cx.case(d.as_bytes(), |cx| {
                if threads.parse::<u64>().map_or(false, |t| t > 100 && t <= u32::MAX as u64) {
                    return Ok(()); // more threads than a system has
                }
                let p = p.get_or_insert_with(|| Proc::new(cx));
                p.file("a.fan", "request q`GET http://h/{v}.`[] let v = 0; test t { let v = v + 1; q(); if (v == 4) { 1/0; } }");
                let c = p.world();
                c.sched_kinds = 0;
                c.add_host("", &[v4(10, 0, 0, 1)]);
                c.add_rule(b"", crate::http::OK);
                let (a, b) = (format!("--threads={threads}"), format!("--number={number}"));
                let f = go(cx, p, &["test", "t", "--path", "a.fan", &a, &b]);
                cx.state(d.as_bytes());
                let tr = &p.shm.tr;
                if threads.starts_with('+') || number.starts_with('+') {
                    // not specified, but no crash
                    return if matches!(f, Fin::Exit(0 | 2)) { Ok(()) } else { Err(show(p, &f)) };
                }
                let ok = |s: &str| if s.bytes().all(|c| c.is_ascii_digit()) { s.parse::<u32>().ok() } else { None };
                let r = match (ok(threads), ok(number)) {
                    (Some(t), Some(n)) if t > 0 => {
                        let mut want: Vec<usize> = (0..t).map(|i| (n / t + u32::from(i < n % t)).min(4) as usize).filter(|n| *n > 0).collect();
                        let mut by: BTreeMap<u16, usize> = BTreeMap::new();
                        for x in requests(tr) {
                            *by.entry(x.0).or_default() += 1;
                        }
                        let mut got: Vec<usize> = by.into_values().collect();
                        want.sort();
                        got.sort();
                        if f != Fin::Exit(0) || want != got {
                            Err(format!("iterations by thread {got:?}, expected {want:?}"))
                        } else {
                            Ok(())
                        }
                    }
                    _ => rejected(tr, &f),
                };
                r.map_err(|m| format!("{m}\n{}\n{}", text(&tr.cat(E_ERR)), show(p, &f)))
            });
        }
    }
}

// ------------------------------------------------------------------ C17
#[derive(Clone, Copy, Debug, PartialEq)]
struct Way {
    ok: bool,
    after: u64,
}
fn address(i: usize, six: bool) -> Addr {
    if six {
        v6(i as u8 + 1)
    } else {
        v4(10, 0, 0, i as u8 + 1)
    }
}
fn name(i: usize, six: bool) -> String {
    if six {
        format!("[2001:0:0:0:0:0:0:{:x}]:80", i + 1)
    } else {
        format!("10.0.0.{}:80", i + 1)
    }
}
fn world17(p: &mut Proc, list: &[(bool, Way)]) {
    p.file("a.fan", "request q`GET http://h/p`[status == 200] test t { q(); }");
    p.recdir();
    let c = p.world();
    c.set_filedir("rec");
    let v: Vec<Addr> = list
        .iter()
        .enumerate()
        .map(|(i, (six, w))| {
            let mut a = address(i, *six);
            a.delay_ns = w.after;
            a.err = if w.ok {
                0
            } else if w.after > 100 * SEC {
                libc::ETIMEDOUT
            } else {
                libc::ECONNREFUSED
            };
            a
        })
        .collect();
    c.add_host("h", &v);
    c.add_rule(b"", crate::http::OK);
}
const ARGS17: [&str; 5] = ["test", "--path", "a.fan", "--record", "rec"];
struct Tried {
    addr: usize,
    begin: u64,
    end: Option<(u64, bool, usize)>,
}
fn judge17(list: &[(bool, Way)], race: u64, strict: bool, tr: &Trace, fin: &Fin) -> Result<(), String> {
    if *fin != Fin::Exit(0) {
        return Err(format!("the run did not end normally: {fin:?}"));
    }
    let names: Vec<String> = list.iter().enumerate().map(|(i, (s, _))| name(i, *s)).collect();
    let mut tries: Vec<Tried> = Vec::new();
    let mut id: BTreeMap<i32, usize> = BTreeMap::new();
    let evs = tr.events();
    for (k, e) in evs.iter().enumerate().filter(|(_, e)| e.typ == E_CONNECT) {
        if e.b < 0 {
            let n = text(tr.data(e));
            let a = names.iter().position(|x| *x == n).ok_or_else(|| format!("a connection to {n}"))?;
            if tries.iter().any(|t| t.addr == a) {
                return Err(format!("{n} is tried twice"));
            }
            id.insert(e.a, tries.len());
            tries.push(Tried { addr: a, begin: e.t, end: None });
        } else if let Some(i) = id.get(&e.a) {
            tries[*i].end = Some((e.t, e.b == 0, k));
        }
    }
    // alternating, IPv6 first, each family in the order of the resolver
    let six: Vec<usize> = (0..list.len()).filter(|i| list[*i].0).collect();
    let four: Vec<usize> = (0..list.len()).filter(|i| !list[*i].0).collect();
    let mut order = Vec::new();
    for i in 0..list.len() {
        order.extend(six.get(i));
        order.extend(four.get(i));
    }
    let order: Vec<usize> = order.into_iter().copied().collect();
    let got: Vec<usize> = tries.iter().map(|t| t.addr).collect();
    if strict && got[..] != order[..got.len()] {
        return Err(format!("tried {:?}, expected {:?}", got, order));
    }
    let req: Vec<(u64, i32, usize)> = evs.iter().enumerate().filter(|(_, e)| e.typ == E_REQ).map(|(k, e)| (e.t, e.a, k)).collect();
    let carrying: BTreeSet<i32> = evs.iter().filter(|e| e.typ == E_SEND && e.b > 0).map(|e| e.a).collect();
    let rs = match files(tr).values().next() {
        Some(f) => avro::recs(&f.bytes)?,
        None => return Err("no record file".into()),
    };
    if rs.len() != 1 {
        return Err(format!("{} records", rs.len()));
    }
    let success = list.iter().any(|a| a.1.ok);
    if success {
        if req.len() != 1 || carrying.len() != 1 || rs[0].status != 200 || !rs[0].error.is_empty() {
            return Err(format!("an address accepts, but {} requests on {} connections, status {}, error {:?}", req.len(), carrying.len(), rs[0].status, rs[0].error));
        }
        let t = id.get(&req[0].1).map(|i| &tries[*i]).ok_or("request without connection")?;
        if !t.end.map_or(false, |e| e.1 && e.2 < req[0].2) {
            return Err("the request is sent on a connection that was not accepted".into());
        }
    } else {
        if !req.is_empty() || !carrying.is_empty() || rs[0].error.is_empty() || rs[0].status != 0 {
            return Err(format!("no address accepts, but {} requests, status {}, error {:?}", req.len(), rs[0].status, rs[0].error));
        }
        if got.len() != list.len() {
            return Err(format!("gave up after {} of {} addresses", got.len(), list.len()));
        }
        // the report comes after the last failure
        let last = tries.iter().filter_map(|t| t.end).map(|e| e.2).max().unwrap_or(0);
        let out = evs.iter().position(|e| e.typ == E_OUT).unwrap_or(0);
        if tries.iter().any(|t| t.end.is_none()) || out < last {
            return Err("an error is reported while an attempt is still under way".into());
        }
    }
    if !strict {
        return Ok(());
    }
    // times
    let mut early = 0;
    for k in 1..tries.len() {
        let (a, b) = (&tries[k - 1], &tries[k]);
        let gap = b.begin - a.begin;
        if list.len() > 1 && gap > race {
            return Err(format!("attempt {k} starts {} µs after the one before, the delay is {} µs", gap / 1000, race / 1000));
        }
        // the one before failed earlier: no waiting
        if let Some((t, false, _)) = a.end {
            if b.begin > t.max(a.begin) {
                return Err(format!("attempt {k} waits {} µs after the failure of the one before", (b.begin - t) / 1000));
            }
        }
        if gap < race {
            early += 1;
            let failures = tries.iter().filter(|t| t.end.map_or(false, |e| !e.1 && e.0 <= b.begin)).count();
            if failures < early {
                return Err(format!("attempt {k} starts early although nothing failed"));
            }
        }
    }
    if success {
        let first = tries.iter().filter_map(|t| t.end).filter(|e| e.1).map(|e| e.0).min().unwrap();
        if req[0].0 != first {
            return Err(format!("the request is sent {} µs after the first success", (req[0].0 - first) / 1000));
        }
        if tries.iter().any(|t| t.begin > first) {
            return Err("an attempt starts after the success".into());
        }
    } else {
        let last = tries.iter().filter_map(|t| t.end).map(|e| e.0).max().unwrap();
        let out = evs.iter().find(|e| e.typ == E_OUT).map_or(0, |e| e.t);
        if out != last {
            return Err(format!("the error is reported {} µs after the last failure", out.abs_diff(last) / 1000));
        }
    }
    Ok(())
}
pub fn c17(cx: &mut Cx) {
    let mut p: Option<Proc> = None;
    // the delay of the race, measured
    let mut race = 0;
    {
        let p = &mut p;
        let mut r = 0;
        cx.all(b"the delay before the next attempt", |cx| {
            let p = p.get_or_insert_with(|| Proc::new(cx));
            world17(p, &[(false, Way { ok: false, after: 130 * SEC }), (false, Way { ok: true, after: 0 })]);
            let f = go(cx, p, &ARGS17);
            let t: Vec<u64> = p.shm.tr.events().iter().filter(|e| e.typ == E_CONNECT && e.b < 0).map(|e| e.t).collect();
            if t.len() != 2 || t[1] - t[0] == 0 || t[1] - t[0] > SEC {
                return Err(format!("attempts at {t:?}: the second does not start after a short delay\n{}", show(p, &f)));
            }
            r = t[1] - t[0];
            Ok(())
        });
        if r > 0 {
            race = r;
        } else {
            race = race.max(200 * MS);
        }
    }
    let w = |ok, ms: u64| Way { ok, after: ms * MS };
    let many = [w(true, 0), w(true, 50), w(true, 300), w(true, 450), w(false, 0), w(false, 50), w(false, 300), w(false, 130_000)];
    let few = [w(true, 0), w(true, 250), w(false, 0), w(false, 90), w(false, 250), w(false, 130_000)];
    let mut one = |cx: &mut Cx, list: &[(bool, Way)]| {
        if !cx.mine() {
            cx.skip();
            return;
        }
        let d = format!("{list:?}");
        let p = &mut p;
        cx.case(d.as_bytes(), |cx| {
            let p = p.get_or_insert_with(|| Proc::new(cx));
            world17(p, list);
            p.shm.cfg.sched_kinds = 0;
            let f = go(cx, p, &ARGS17);
            cx.state(d.as_bytes());
            judge17(list, race, true, &p.shm.tr, &f).map_err(|m| format!("{m}\n{}", show(p, &f)))
        });
    };
    for n in 1..=if cx.thorough { 4 } else { 3 } {
        sequences(2 * many.len(), n, |v| one(cx, &v.iter().map(|i| (i % 2 == 0, many[i / 2])).collect::<Vec<_>>()));
    }
    for n in 4..=if cx.thorough { 6 } else { 4 } {
        // families in a fixed pattern
        for fam in 0..1 << n {
            if n > 4 && fam % 5 != 2 {
                continue;
            }
            if n == 4 && !cx.thorough && ![0b0101, 0b0011, 0b1111, 0b0001].contains(&fam) {
                continue;
            }
            let alpha = if n > 5 { &few[1..5] } else { &few[..] };
            sequences(alpha.len(), n, |v| one(cx, &v.iter().enumerate().map(|(k, i)| (fam >> k & 1 == 0, alpha[*i])).collect::<Vec<_>>()));
        }
    }
    // longer lists: every pattern of families, one address that accepts or none, the others refuse or never answer
    for n in 4..=if cx.thorough { 10 } else { 8 } {
        for fam in 0..1 << n {
            for good in 0..=n {
                for ms in [0, 130_000] {
                    if n == 8 && !cx.thorough && (fam + good) % 3 != 0 {
                        continue;
                    }
                    one(cx, &(0..n).map(|k| (fam >> k & 1 == 0, if k == good { w(true, 10) } else { w(false, ms) })).collect::<Vec<_>>());
                }
            }
        }
    }
    // every time near the delay
    let mut times: Vec<u64> = vec![0, 1];
    for k in 1..=3i64 {
        for d in [-1_000_000i64, -1, 0, 1, 1_000_000] {
            times.push((race as i64 * k + d) as u64);
        }
    }
    times.push(race / 2);
    for &a in &times {
        for &b in &times {
            for ok in 0..8 {
                for c in [0, race / 2, race] {
                    one(cx, &[(true, Way { ok: ok & 1 > 0, after: a }), (false, Way { ok: ok & 2 > 0, after: b }), (true, Way { ok: ok & 4 > 0, after: c })]);
                }
            }
        }
    }
    for n in [8usize, 12, 16] {
        for good in 0..=n {
            for ms in [0, 90, 250, 130_000] {
                let list: Vec<(bool, Way)> = (0..n).map(|i| (i % 3 != 0, if i == good { w(true, 100) } else { w(false, ms) })).collect();
                one(cx, &list);
            }
        }
    }
    // schedules
    let b = if cx.thorough { 120_000 } else { 8_000 };
    let lists: Vec<Vec<(bool, Way)>> = vec![
        vec![(true, w(false, 0)), (false, w(true, 0))],
        vec![(true, w(false, 250)), (false, w(true, 50))],
        vec![(true, w(false, 130_000)), (false, w(true, 300))],
        vec![(true, w(true, 210)), (false, w(true, 10))],
        vec![(true, w(false, 0)), (false, w(false, 0))],
        vec![(true, w(false, 250)), (false, w(false, 50))],
        vec![(true, w(false, 0)), (false, w(false, 300)), (true, w(true, 0))],
        vec![(true, w(false, 450)), (false, w(false, 250)), (true, w(false, 50))],
        vec![(true, w(true, 450)), (false, w(false, 250)), (true, w(true, 50))],
        vec![(false, w(false, 200)), (false, w(false, 0)), (false, w(false, 200))],
        vec![(false, w(true, 0)), (false, w(true, 0)), (true, w(true, 0))],
    ];
    for list in &lists {
        for feat in [F_TIMERENV, 0] {
            let d = format!("schedules of {list:?}, features {feat}");
            let p = &mut p;
            cx.all(d.as_bytes(), |cx| {
                let p = p.get_or_insert_with(|| Proc::new(cx));
                world17(p, list);
                p.shm.cfg.feat = feat;
                search(cx, p, &Search { args: &ARGS17, dev: 6, budget: b, split: true }, &d, &mut |_, tr, f| judge17(list, race, false, tr, f));
                Ok(())
            });
        }
    }
}
