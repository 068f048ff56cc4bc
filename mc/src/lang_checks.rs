//! C01 to C07: the language, exhaustively over bounded spaces of texts, against lang.rs.
use crate::lang::{self, Env, BINOPS, V};
use crate::pool::Cx;
use crate::sut::{self, End, Session};
use std::collections::HashMap;

pub fn esc(s: &str) -> String {
    s.escape_debug().to_string()
}
pub fn env_of(vars: &[(&str, V)]) -> Env {
    let mut e = Env::default();
    for (k, v) in vars {
        e.vars.insert(k.to_string(), v.clone());
    }
    e
}
/// Expected end and output of `text` in `env`.
pub fn expect(env: &mut Env, text: &str) -> (End, String) {
    env.out.clear();
    let r = match lang::run(env, text) {
        Ok(v) => End::Value(v.debug()),
        Err(true) => End::ParseError,
        Err(false) => End::Error,
    };
    (r, std::mem::take(&mut env.out))
}
/// Runs `text` in the session and returns end and output.
pub fn observe(s: &mut Session, text: &str) -> (End, String) {
    sut::begin();
    let e = s.eval(text);
    sut::end();
    let out = String::from_utf8_lossy(&sut::trace().out()).into_owned();
    (e, out)
}
/// Runs the text on both sides and compares end, output and the named variables.
pub fn diff(cx: &mut Cx, s: &mut Session, env: &mut Env, text: &str, vars: &[&str]) -> Result<(), String> {
    let before = env.steps;
    let want = expect(env, text);
    cx.transitions += env.steps - before + 1;
    let got = observe(s, text);
    cx.traces += 1;
    match &want.0 {
        End::Value(_) => cx.count("programs_with_a_value", 1),
        End::Error => cx.count("programs_that_fail", 1),
        _ => cx.count("texts_that_do_not_parse", 1),
    }
    if got != want {
        return Err(format!("program: {}\nexpected: {:?} output {:?}\nfound:    {:?} output {:?}", text, want.0, want.1, got.0, got.1));
    }
    let mut canon = format!("{:?}|{}", got.0, got.1);
    for v in vars {
        let a = env.vars.get(*v).map(|x| x.debug());
        let b = s.var(v);
        if a != b {
            return Err(format!("program: {}\nvariable {} afterwards: expected {:?}, found {:?}", text, v, a, b));
        }
        canon.push('|');
        canon.push_str(&b.unwrap_or_default());
    }
    cx.state(canon.as_bytes());
    Ok(())
}
fn seeded(pre: &str) -> (Session, Env) {
    let mut s = Session::new();
    let mut e = Env::default();
    if !pre.is_empty() {
        let a = expect(&mut e, pre);
        let b = observe(&mut s, pre);
        if a != b {
            panic!("prelude differs: {pre}: {a:?} {b:?}");
        }
    }
    (s, e)
}
/// A fresh session with the prelude, then the text.
fn fresh(cx: &mut Cx, pre: &str, text: &str, vars: &[&str]) {
    cx.case(text.as_bytes(), |cx| {
        let mut s = Session::new();
        let mut e = Env::default();
        if !pre.is_empty() {
            diff(cx, &mut s, &mut e, pre, &[])?;
        }
        diff(cx, &mut s, &mut e, text, vars)
    })
}

/// Every ASCII character, control characters included, and some that are special elsewhere.
pub fn odd() -> Vec<char> {
    let mut v: Vec<char> = (0u8..128).map(char::from).collect();
    v.extend(['\u{80}', '\u{85}', '\u{a0}', '\u{ad}', 'é', 'ß', '\u{130}', '\u{301}', '\u{2028}', '\u{3000}', '\u{feff}', '\u{fffd}', '😀', '\u{10ffff}']);
    v
}
/// Calls `f` with every text of one or two of these characters.
pub fn pairs(mut f: impl FnMut(&str)) {
    let v = odd();
    for a in &v {
        f(&a.to_string());
    }
    for a in &v {
        for b in &v {
            f(&format!("{a}{b}"));
        }
    }
}
/// Whole numbers around every power of two and of ten and of regular digit patterns.
pub fn whole() -> Vec<i64> {
    let mut v = std::collections::BTreeSet::new();
    for k in 0..64 {
        let p = 1i128 << k;
        for d in -3..=3 {
            v.insert(p + d);
        }
        for j in 0..k {
            v.insert(p + (1i128 << j));
            v.insert(p - (1i128 << j));
        }
    }
    for k in 0..19 {
        let p = 10i128.pow(k);
        for m in 1..10 {
            for d in [-1, 0, 1] {
                v.insert(p * m + d);
            }
        }
        for c in ["1", "12", "9", "123456789", "90", "10", "505"] {
            let t: String = c.chars().cycle().take(k as usize + 1).collect();
            v.insert(t.parse::<i128>().unwrap());
        }
    }
    v.into_iter().filter(|x| (0..=i64::MAX as i128).contains(x)).map(|x| x as i64).collect()
}

/// Calls `f` with every sequence of `n` indexes below `k`.
pub fn sequences(k: usize, n: usize, mut f: impl FnMut(&[usize])) {
    let mut v = vec![0usize; n];
    loop {
        f(&v);
        let mut i = n;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            v[i] += 1;
            if v[i] < k {
                break;
            }
            v[i] = 0;
        }
    }
}

const TOKENS: [&str; 47] = [
    "1", "2.5", "\"s\"", "x", "a", "m", "true", "false", "+", "-", "*", "/", "%", "!", "^", "|", "&", "<<", ">>", "||", "&&", "<", ">", "<=", ">=", "==", "!=", "=", ",", ";", ":", ".", "(", ")", "{", "}", "[", "]", "request", "let", "if", "else",
    "test", "`t`", "#", "length", "0",
];
const PRELUDE: &str = "let x = 7; let a = [1, \"b\", [2]]; let m = {\"x\": 1, \"m\": {\"a\": 2}, 1: 3}";

// ------------------------------------------------------------------ C01
pub fn c01(cx: &mut Cx) {
    cx.case_limit(10_000);
    // the outcome must be a value or an error
    fn total(cx: &mut Cx, s: &mut Session, text: &str) -> Result<(), String> {
        let (e, out) = observe(s, text);
        cx.transitions += 1;
        cx.traces += 1;
        if let End::Panic(m) = &e {
            return Err(format!("program: {}\npanic: {}", esc(text), m));
        }
        match e {
            End::Value(_) => cx.count("ended_with_a_value", 1),
            End::Error => cx.count("ended_with_a_runtime_error", 1),
            _ => cx.count("ended_with_a_parse_error", 1),
        }
        cx.state(format!("{:?}{}", e, out).as_bytes());
        Ok(())
    }
    // all token sequences
    let maxlen = if cx.thorough { 5 } else { 4 };
    for n in 0..=maxlen {
        sequences(TOKENS.len(), n, |v| {
            if !cx.mine() {
                cx.skip();
                return;
            }
            let text = v.iter().map(|i| TOKENS[*i]).collect::<Vec<_>>().join(" ");
            cx.case(text.as_bytes(), |cx| {
                let (mut s, _) = plain_session();
                total(cx, &mut s, &text)
            });
        });
    }
    // one more token over the tokens that open or continue an expression
    let core = ["1", "x", "+", "-", "!", "(", ")", "[", "]", "{", "}", ",", ":", ";", "let", "if", "else", "=", ".", "<"];
    let n = if cx.thorough { 6 } else { 5 };
    sequences(core.len(), n, |v| {
        if !cx.mine() {
            cx.skip();
            return;
        }
        let text = v.iter().map(|i| core[*i]).collect::<Vec<_>>().join(" ");
        cx.case(text.as_bytes(), |cx| {
            let (mut s, _) = plain_session();
            total(cx, &mut s, &text)
        });
    });
    // all character strings
    let mut chars: Vec<char> = (0x20u8..0x7f).map(|c| c as char).collect();
    chars.extend(['\t', '\n', '\r', '\0', '\u{b}', '\u{7f}', '\u{85}', '\u{a0}', 'é', 'ß', '中', '\u{2028}', '😀', '\u{feff}', '\u{301}']);
    let maxlen = if cx.thorough { 4 } else { 3 };
    for n in 1..=maxlen {
        let set: &[char] = if n == 4 { &chars[..95] } else { &chars };
        sequences(set.len(), n, |v| {
            if !cx.mine() {
                cx.skip();
                return;
            }
            let text: String = v.iter().map(|i| set[*i]).collect();
            cx.case(text.as_bytes(), |cx| {
                let (mut s, _) = plain_session();
                total(cx, &mut s, &text)
            });
        });
    }
    // texts in which every byte offset falls inside a character, wherever a text or token can stand or fail
    let places = [
        "@", "`@`", "\"@\"", "\"@", "`@", "\"@\" + 1", "1 + \"@\"", "-\"@\"", "\"@\"[0]", "\"@\".a", "\"@\"(1)", "1 \"@\" 2", "let \"@\" = 1", "let `@` = 1", "let x = `@`", "request \"@\"", "request `@`", "request q \"@\"",
        "request q`@`", "request q`@`[", "request q`@`[\"@\"", "test \"@\"", "test `@`{}", "test t {\"@\"", "format(\"@\")", "format(\"@{a}\")", "format(\"@\", 1)", "format(\"{a}\", \"@\")", "format(\"@{a}@\", \"@\")", "format(1, \"@\")", "length(\"@\")", "length(1, \"@\")",
        "append(\"@\")", "println(\"@\")", "print(\"@\", 1)", "{\"@\": 1} + 1", "{\"@\": \"@\"}", "{\"@\": 1}[\"@\"]", "[\"@\"] - 1", "[\"@\"][\"@\"]", "(\"@\" < \"@\") + \"@\"", "if \"@\" {}", "if (\"@\") {} else \"@\"", "(\"@\"", "[\"@\" 1", "{\"@\" 1", "x`@`", "x\"@\"(", "1.`@`",
    ];
    for place in places {
        for c in ["é", "€", "😀", "a€", "\u{301}é😀€"] {
            for k in 0..4 {
                for n in [1usize, 2, 3, 4, 5, 7, 10, 14, 20, 30, 50, 80, 150, 300, 2000, 20_000] {
                    if !cx.mine() {
                        cx.skip();
                        continue;
                    }
                    let text = place.replace('@', &format!("{}{}", "b".repeat(k), c.repeat(n)));
                    cx.case(format!("{place} with {k} + {n} x {c}").as_bytes(), |cx| {
                        let (mut s, _) = plain_session();
                        total(cx, &mut s, &text)
                    });
                }
            }
        }
    }
    // operators on boundary operands
    let ops = operand_texts();
    for (i, (a, _)) in ops.iter().enumerate() {
        for (j, (b, _)) in ops.iter().enumerate() {
            for op in BINOPS {
                if !cx.mine() {
                    cx.skip();
                    continue;
                }
                let text = format!("{a} {op} {b}");
                let _ = (i, j);
                cx.case(text.as_bytes(), |cx| {
                    let mut s = Session::new();
                    total(cx, &mut s, &text)
                });
            }
        }
        for op in ["-", "!", "--", "!!", "-!", "!-"] {
            let text = format!("{op}{a}");
            cx.case(text.as_bytes(), |cx| total(cx, &mut Session::new(), &text));
        }
        for (b, _) in &ops {
            for f in ["{A}[{B}]", "{A}.x", "length({A})", "length({A}, {B})", "append({A}, {B})", "format({A}, {B})", "print({A})", "println({A}, {B})", "if ({A}) { {B} } else { {A} }", "{{A}: {B}}", "[{A}, {B}]"] {
                if !cx.mine() {
                    cx.skip();
                    continue;
                }
                let text = f.replace("{A}", a).replace("{B}", b);
                cx.case(text.as_bytes(), |cx| total(cx, &mut Session::new(), &text));
            }
        }
    }
    // every function with every list of arguments
    let args = ["null", "1", "1.5", "true", "\"\"", "\"{a}{b}\"", "\"{\"", "[]", "[1, 2]", "{}", "{\"a\": 1}", "x", "-1", "length", "r()"];
    for f in ["length", "append", "format", "print", "println", "x", "5", "[length][0]", "request", "r", "\"f\""] {
        for n in 0..=if cx.thorough { 4 } else { 3 } {
            sequences(args.len(), n, |v| {
                if !cx.mine() {
                    cx.skip();
                    return;
                }
                let text = format!("{f}({})", v.iter().map(|i| args[*i]).collect::<Vec<_>>().join(", "));
                cx.case(text.as_bytes(), |cx| total(cx, &mut Session::new(), &text));
            });
        }
    }
    // nesting and chains, parsed on the main stack and evaluated on a thread's stack
    let depths: &[usize] = if cx.thorough {
        &[1, 2, 3, 10, 31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129, 130, 200, 255, 256, 257, 300, 500, 512, 700, 900, 1000, 1023, 1024, 1500, 2000, 3000, 4095, 5000, 8000, 10_000, 20_000, 50_000, 100_000, 200_000, 500_000]
    } else {
        &[1, 2, 3, 10, 64, 100, 126, 127, 128, 129, 130, 200, 255, 256, 300, 500, 700, 1000, 1500, 2000, 3000, 5000, 10_000, 30_000, 100_000]
    };
    for (name, f) in nests() {
        for &d in depths {
            let text = f(d);
            // a map as a key of a map is a text that escapes the quotes of the inner one, so the
            // value itself (not the work per element) doubles with each level
            if name == "map key" && (13..=129).contains(&d) {
                continue;
            }
            let tag = format!("{name} nested {d} times: {}", &text.chars().take(60).collect::<String>());
            for small in [false, true] {
                cx.case(tag.as_bytes(), |cx| {
                    let e = if small {
                        let text = text.clone();
                        match std::thread::Builder::new().stack_size(2 << 20).spawn(move || Session::new().eval(&text)).unwrap().join() {
                            Ok(e) => e,
                            Err(_) => End::Panic(sut::last_panic()),
                        }
                    } else {
                        Session::new().eval(&text)
                    };
                    cx.traces += 1;
                    cx.transitions += d as u64;
                    cx.max("nesting", d as u64);
                    if let End::Panic(m) = e {
                        return Err(format!("{tag}\npanic: {m}"));
                    }
                    cx.state(tag.as_bytes());
                    Ok(())
                });
            }
        }
    }
}
fn plain_session() -> (Session, ()) {
    let mut s = Session::new();
    let _ = s.eval(PRELUDE);
    (s, ())
}
type Nest = (&'static str, Box<dyn Fn(usize) -> String>);
fn nests() -> Vec<Nest> {
    fn b(f: impl Fn(usize) -> String + 'static) -> Box<dyn Fn(usize) -> String> {
        Box::new(f)
    }
    let mut v: Vec<Nest> = vec![
        ("parenthesis", b(|n| "(".repeat(n) + "1" + &")".repeat(n))),
        ("open parenthesis", b(|n| "(".repeat(n))),
        ("array", b(|n| "[".repeat(n) + &"]".repeat(n))),
        ("open array", b(|n| "[".repeat(n))),
        ("map", b(|n| "{1:".repeat(n) + "1" + &"}".repeat(n))),
        ("open map", b(|n| "{1:".repeat(n))),
        ("map key", b(|n| "{".repeat(n) + "1" + &":1}".repeat(n))),
        ("minus", b(|n| "1".to_string() + &"-".repeat(n) + "1")),
        ("not", b(|n| "!".repeat(n) + "true")),
        ("open not", b(|n| "!".repeat(n))),
        ("if", b(|n| "if(true){".repeat(n) + "1" + &"}".repeat(n))),
        ("else", b(|n| "if(false){1}else{".repeat(n) + "1" + &"}".repeat(n))),
        ("condition", b(|n| "if(".repeat(n) + "true" + &"){1}".repeat(n))),
        ("let", b(|n| "let x=".repeat(n) + "1")),
        ("index in index", b(|n| "let a=[0];a".to_string() + &"[a".repeat(n) + "[0]" + &"]".repeat(n))),
        ("index chain", b(|n| "let a={};a".to_string() + &"[0]".repeat(n))),
        ("field chain", b(|n| "let a={};a".to_string() + &".a".repeat(n))),
        ("call", b(|n| "format(\"{a}\",".repeat(n) + "1" + &")".repeat(n))),
        ("open call", b(|n| "f(".repeat(n))),
        ("call of parenthesis", b(|n| "(".repeat(n) + "1" + &")".repeat(n) + "(1)")),
        ("statements", b(|n| "1;".repeat(n))),
        ("array items", b(|n| "[".to_string() + &"1,".repeat(n) + "]")),
        ("arguments", b(|n| "append([],".to_string() + &"1,".repeat(n) + ")")),
        ("request asserts", b(|n| "request r`GET`[".to_string() + &"(".repeat(n) + "1" + &")".repeat(n) + "]")),
        ("test body", b(|n| "test t{".to_string() + &"(".repeat(n) + "1" + &")".repeat(n) + "}")),
        ("zigzag", b(|n| "-(!".repeat(n) + "1" + &")".repeat(n))),
        ("parenthesised chains", b(|n| {
            let k = (n as f64).sqrt() as usize;
            "(".repeat(k) + "1" + &(("+1".repeat(k)) + ")").repeat(k)
        })),
        ("mixed", b(|n| "[{1:(-".repeat(n) + "1" + &")}]".repeat(n))),
        ("blanks", b(|n| " \t\n".repeat(n) + "1")),
        ("long string", b(|n| format!("length(\"{}\")", "é".repeat(n)))),
        ("long identifier", b(|n| format!("let {} = 1", "a".repeat(n.max(1))))),
        ("long number", b(|n| "9".repeat(n))),
        ("long float", b(|n| "9".repeat(n) + ".5")),
        ("dots", b(|n| "1".to_string() + &".".repeat(n))),
    ];
    // values that grow statement by statement, and everything that walks through them
    const WALK: &str = "; format(\"{v}\", x); x == x; x != [x]; append(x, x); let y = [x, x]; {x: x}; length(x); x.nope";
    fn grow(n: usize, l: &str, r: &str, walk: bool) -> String {
        // in steps of a hundred
        let step = |k: usize| format!("let x = {}x{};", l.repeat(k), r.repeat(k));
        let mut t = "let x = 1;".to_string() + &step(100.min(n)).repeat(n / 100) + &step(n % 100);
        if walk {
            t += WALK;
        }
        t
    }
    for (l, r) in [("[", "]"), ("{1: ", "}"), ("append([], ", ")"), ("[0, {\"k\": ", "}]"), ("append([1, [2]], ", ")")] {
        for walk in [true, false] {
            v.push(("grown value", b(move |n| grow(if l.len() > 8 { n / 2 } else { n }, l, r, walk))));
        }
        v.push(("grown statement by statement", b(move |n| format!("let x = 1; {}{}", format!("let x = {l}x{r};").repeat(n.min(4000)), WALK))));
    }
    for op in BINOPS {
        v.push(("left chain", b(move |n| "1".to_string() + &op_one(op).repeat(n))));
        v.push(("right chain", b(move |n| format!("1{op}(").repeat(n) + "1" + &")".repeat(n))));
    }
    v
}
fn op_one(op: &str) -> String {
    format!("{op}1")
}

// ------------------------------------------------------------------ operands
/// Texts of operands with their values.
pub fn operand_texts() -> Vec<(String, V)> {
    let mut v: Vec<String> = Vec::new();
    for i in [
        0i64, 1, -1, 2, -2, 3, 5, 7, 10, 62, 63, 64, 65, 127, 128, -128, 255, 256, 1000, 32767, 65535, 65536, 2147483647, -2147483648, 2147483648, 4294967295, 4294967296, 3037000499, 3037000500, 4611686018427387903, 4611686018427387904,
        9007199254740991, 9007199254740992, 9007199254740993, -9007199254740993, 9223372036854775806, 9223372036854775807, -9223372036854775807,
    ] {
        v.push(if i < 0 { format!("(-{})", i.unsigned_abs()) } else { i.to_string() });
    }
    v.push("(-9223372036854775807-1)".into());
    for f in ["0.0", "(-0.0)", "0.1", "0.5", "1.0", "(-1.0)", "1.5", "2.0", "2.5", "(-2.5)", "3.0", "63.0", "64.0", "9007199254740992.0", "9007199254740993.0", "9223372036854775807.0", "(-9223372036854775808.0)", "0.0000000000000000000001"] {
        v.push(f.into());
    }
    v.push(format!("{}.0", "9".repeat(310))); // infinity
    v.push(format!("(-{}.0)", "9".repeat(310)));
    v.push(format!("(0.0*{}.0)", "9".repeat(310))); // not a number
    v.push(format!("1{}.0", "0".repeat(308)));
    for s in ["true", "false", "[][0]", "\"\"", "\"a\"", "\"b\"", "\"ab\"", "\"A\"", "\"10\"", "\"9\"", "\"1\"", "\"true\"", "\"null\"", "\"é\"", "\"z\"", "\"{x}\""] {
        v.push(s.into());
    }
    for s in ["[]", "[1]", "[1.0]", "[2]", "[1, 2]", "[\"1\"]", "[[]]", "[[][0]]", "[true]", "{}", "{\"a\": 1}", "{\"a\": 1.0}", "{\"b\": 1}", "{\"a\": 1, \"b\": 2}", "{\"b\": 2, \"a\": 1}", "{1: 2}", "{\"1\": 2}", "{\"a\": {}}", "[{}]"] {
        v.push(s.into());
    }
    v.into_iter()
        .map(|t| {
            let mut e = Env::default();
            let x = lang::run(&mut e, &t).expect("operand text");
            (t, x)
        })
        .collect()
}

// ------------------------------------------------------------------ C02
pub fn c02(cx: &mut Cx) {
    // skeletons: operand op operand op operand op operand, with prefixes and postfixes
    // operand sets under which different groupings give different results
    let sets: [[&str; 5]; 7] = [
        ["7", "3", "2", "5", "1"],
        ["1", "2", "3", "1", "4"],
        ["0", "6", "4", "2", "3"],
        ["true", "false", "true", "false", "false"],
        ["false", "true", "1", "false", "2"],
        ["2.5", "4", "1.5", "3", "0.5"],
        ["\"b\"", "\"a\"", "\"b\"", "\"c\"", "\"a\""],
    ];
    let deco: [(&str, &str); 9] = [("", ""), ("-", ""), ("!", ""), ("[", "][0]"), ("-[", "][0]"), ("![", "][0]"), ("{\"k\":", "}.k"), ("--", ""), ("length([", "])")];
    let pre = "let v = 0";
    // distinguishing power: pairs of operators whose two groupings differ for some operand set
    let mut told = 0;
    for a in BINOPS {
        for b in BINOPS {
            let d = sets.iter().any(|s| {
                let run = |t: String| lang::run(&mut Env::default(), &t).map(|v| v.debug());
                run(format!("({} {a} {}) {b} {}", s[0], s[1], s[2])) != run(format!("{} {a} ({} {b} {})", s[0], s[1], s[2]))
            });
            told += d as u64;
        }
    }
    if cx.shard == 0 {
        cx.count("operator_pairs_whose_groupings_are_told_apart_of_324", told);
    }
    let go = |cx: &mut Cx, text: String| {
        cx.case(text.as_bytes(), |cx| {
            let mut s = Session::new();
            let mut e = Env::default();
            diff(cx, &mut s, &mut e, &text, &[])?;
            // the fully parenthesised form means the same
            if let Ok(p) = lang::parse(&text) {
                let full = p.exprs.iter().map(paren).collect::<Vec<_>>().join("; ");
                let a = observe(&mut Session::new(), &text);
                let b = observe(&mut Session::new(), &full);
                cx.traces += 2;
                if a != b && !(a.0 == End::ParseError || b.0 == End::ParseError) {
                    return Err(format!("program:       {text}\ngives {a:?}\nparenthesised: {full}\ngives {b:?}"));
                }
            }
            Ok(())
        })
    };
    let _ = pre;
    let many = if cx.thorough { 4 } else { 2 };
    // up to three operators with up to `many` decorated operands
    for n in 1..=3usize {
        sequences(BINOPS.len(), n, |ops| {
            sequences(deco.len(), n + 1, |ds| {
                let k = ds.iter().filter(|d| **d > 0).count();
                let limit = match n {
                    1 => 2,
                    2 => many,
                    _ => many - 1,
                };
                if k > limit {
                    return;
                }
                for (i, s) in sets.iter().enumerate() {
                    if k > 0 && n == 3 && i > 2 && !cx.thorough {
                        continue;
                    }
                    if !cx.mine() {
                        cx.skip();
                        continue;
                    }
                    let mut t = String::new();
                    for j in 0..=n {
                        if j > 0 {
                            t.push_str(&format!(" {} ", BINOPS[ops[j - 1]]));
                        }
                        t.push_str(deco[ds[j]].0);
                        t.push_str(s[j]);
                        t.push_str(deco[ds[j]].1);
                    }
                    go(cx, t);
                }
            });
        });
    }
    // every string of up to four prefixes, before and behind two operators
    let mut pres: Vec<String> = Vec::new();
    for n in 2..=if cx.thorough { 6 } else { 4 } {
        sequences(2, n, |v| pres.push(v.iter().map(|i| ["!", "-"][*i]).collect()));
    }
    for p in &pres {
        for x in ["3", "true", "v", "m.k", "l[0]", "length(l)", "(1)", "[2][0]", "\"s\"", "if (true) { 4 }"] {
            for a in BINOPS {
                for b in [""].into_iter().chain(BINOPS) {
                    if (b.len() > 0 && p.len() > 3 && !cx.thorough) || !cx.mine() {
                        cx.skip();
                        continue;
                    }
                    let tail = if b.is_empty() { String::new() } else { format!(" {b} 2") };
                    let text = format!("let v = 5; let l = [6]; let m = {{\"k\": 7}}; {p}{x} {a} 3{tail}");
                    go(cx, text);
                    let text = format!("let v = 5; let l = [6]; let m = {{\"k\": 7}}; 2 {a} {p}{x}{tail}");
                    go(cx, text);
                }
            }
        }
    }
    // four operators, undecorated
    sequences(BINOPS.len(), 4, |ops| {
        for (i, s) in sets.iter().enumerate() {
            if !cx.thorough && i > 4 {
                continue;
            }
            if !cx.mine() {
                cx.skip();
                continue;
            }
            let mut t = s[0].to_string();
            for j in 0..4 {
                t.push_str(&format!(" {} {}", BINOPS[ops[j]], s[j + 1]));
            }
            go(cx, t);
        }
    });
    // parentheses around every sub-range of a three-operator expression
    sequences(BINOPS.len(), 3, |ops| {
        for (a, b) in [(0, 1), (0, 2), (1, 2), (1, 3), (2, 3), (0, 3), (0, 0), (3, 3)] {
            for (i, s) in sets.iter().enumerate() {
                if !cx.thorough && i > 4 {
                    continue;
                }
                for outer in ["", "-", "!"] {
                    if !cx.mine() {
                        cx.skip();
                        continue;
                    }
                    let mut t = String::new();
                    for j in 0..4 {
                        if j > 0 {
                            t.push_str(&format!(" {} ", BINOPS[ops[j - 1]]));
                        }
                        if j == a {
                            t.push_str(outer);
                            t.push('(');
                        }
                        t.push_str(s[j]);
                        if j == b {
                            t.push(')');
                        }
                    }
                    go(cx, t);
                }
            }
        }
    });
    // long chains that alternate two or three operators
    let lens: &[usize] = if cx.thorough { &[6, 7, 8, 9, 12, 15, 16, 17, 18, 31, 32, 33, 34, 63, 64, 65, 66, 100, 127, 128, 129] } else { &[6, 8, 9, 15, 16, 17, 18, 32, 33, 34, 64, 65] };
    for a in BINOPS {
        for b in BINOPS {
            for c in ["", "+", "*", "<<"] {
                for &n in lens {
                    for vals in [["1", "2", "3"], ["2", "1", "1"], ["5", "-3", "2"], ["true", "2", "false"]] {
                        if !cx.mine() {
                            cx.skip();
                            continue;
                        }
                        let ops: Vec<&str> = [a, b, c].into_iter().filter(|o| !o.is_empty()).collect();
                        let t: String = (0..n).map(|i| if i == 0 { vals[0].to_string() } else { format!(" {} {}", ops[(i - 1) % ops.len()], vals[i % 3]) }).collect();
                        go(cx, t);
                        cx.max("longest_chain", n as u64);
                    }
                }
            }
        }
    }
    // every postfix chain under every prefix and next to every operator
    let bases = ["a", "m", "[[1, 2], [3]]", "{\"k\": [4, {\"k\": 5}]}", "(a)", "format(\"{x}\", 3)", "append([6], [7])", "if (true) {a} else {m}", "let q = a"];
    let posts = ["[0]", "[1]", ".k", "[\"k\"]", "[0 + 1]", "[-1 + 1]", "()", "(0)"];
    for base in bases {
        for n in 0..=3usize {
            sequences(posts.len(), n, |ps| {
                for pre in ["", "-", "!", "- -", "!-", "-!"] {
                    for op in ["", " + 1", " * 2 + 1", " == 1", "; 1", " && 5", " < 3 - 1"] {
                        if !cx.mine() {
                            cx.skip();
                            continue;
                        }
                        let t = format!("let a = [8, [9, 10]]; let m = {{\"k\": {{\"k\": 11}}, 0: [12]}}; {pre}{base}{}{op}", ps.iter().map(|p| posts[*p]).collect::<String>());
                        go(cx, t);
                    }
                }
            });
        }
    }
}
fn paren(x: &lang::X) -> String {
    use lang::X::*;
    let l = |v: &[lang::X]| v.iter().map(paren).collect::<Vec<_>>().join(", ");
    match x {
        Lit(V::Str(s)) => format!("\"{s}\""),
        Lit(V::Float(f)) => format!("{f:?}"),
        Lit(v) => v.show(),
        Arr(v) => format!("[{}]", l(v)),
        Map(v) => format!("{{{}}}", v.iter().map(|(k, x)| format!("{}: {}", paren(k), paren(x))).collect::<Vec<_>>().join(", ")),
        Index(a, i) => format!("({}[{}])", paren(a), paren(i)),
        Field(a, f) => format!("({}.{f})", paren(a)),
        Id(n) => n.clone(),
        Let(n, x) => format!("(let {n} = {})", paren(x)),
        Un(op, x) => format!("({op}{})", paren(x)),
        Bin(op, a, b) => format!("({} {op} {})", paren(a), paren(b)),
        Paren(x) => format!("({})", paren(x)),
        If(c, a, b) => format!("(if ({}) {{ {} }} else {{ {} }})", paren(c), a.iter().map(paren).collect::<Vec<_>>().join("; "), b.iter().map(paren).collect::<Vec<_>>().join("; ")),
        Call(n, v) => format!("{n}({})", l(v)),
    }
}

// ------------------------------------------------------------------ C03
pub fn c03(cx: &mut Cx) {
    let ops = operand_texts();
    for (a, va) in &ops {
        for (b, vb) in &ops {
            for op in BINOPS {
                if !cx.mine() {
                    cx.skip();
                    continue;
                }
                let text = format!("{a} {op} {b}");
                let (va, vb) = (va.clone(), vb.clone());
                cx.case(text.as_bytes(), |cx| {
                    diff(cx, &mut Session::new(), &mut Env::default(), &text, &[])?;
                    // the same operands through variables
                    let mut s = Session::new();
                    let mut e = env_of(&[("l", va.clone()), ("r", vb.clone())]);
                    observe(&mut s, &format!("let l = {a}; let r = {b}"));
                    diff(cx, &mut s, &mut e, &format!("l {op} r"), &["l", "r"])?;
                    if op == "==" {
                        // trichotomy and negation, from the implementation alone
                        let get = |s: &mut Session, t: &str| observe(s, t).0 == End::Value("Boolean(true)".into());
                        let (lt, eq, gt, ne) = (get(&mut s, "l < r"), get(&mut s, "l == r"), get(&mut s, "l > r"), get(&mut s, "l != r"));
                        let num = |v: &V| matches!(v, V::Int(_)) || matches!(v, V::Float(f) if !f.is_nan());
                        if num(&va) && num(&vb) && (lt as u8 + eq as u8 + gt as u8) != 1 {
                            return Err(format!("{a} and {b}: less {lt}, equal {eq}, greater {gt}"));
                        }
                        if ne == eq {
                            return Err(format!("{a} and {b}: equal {eq}, not equal {ne}"));
                        }
                    }
                    Ok(())
                });
            }
        }
        for f in ["!{A}", "-{A}", "!!{A}", "--{A}", "!-{A}", "-!{A}", "if ({A}) {1} else {2}", "if (!{A}) {1} else {2}", "{A} && 3", "{A} || 3", "!{A} && !{A}", "[{A}] == [{A}]", "{\"k\": {A}} == {\"k\": {A}}", "{A}"] {
            fresh(cx, "", &f.replace("{A}", a), &[]);
        }
    }
    // small integers completely
    let lim = if cx.thorough { 70 } else { 34 };
    for a in -lim..=lim {
        for b in -(lim / 2)..=lim + 32 {
            if !cx.mine() {
                cx.skip();
                continue;
            }
            let desc = format!("integers {a} and {b} under every operator");
            cx.case(desc.as_bytes(), |cx| {
                for op in BINOPS {
                    let t = format!("({a}) {op} ({b})");
                    diff(cx, &mut Session::new(), &mut Env::default(), &t, &[])?;
                    let t = format!("({a}) {op} ({b}.0)");
                    diff(cx, &mut Session::new(), &mut Env::default(), &t, &[])?;
                    let t = format!("({a}.5) {op} ({b})");
                    diff(cx, &mut Session::new(), &mut Env::default(), &t, &[])?;
                }
                Ok(())
            });
        }
    }
    // numbers around every power under every operator with partners of every size, and with themselves
    for n in whole() {
        if !cx.thorough && n.count_ones() > 8 && n.count_zeros() > 8 {
            continue;
        }
        if !cx.mine() {
            cx.skip();
            continue;
        }
        cx.case(format!("{n} under every operator").as_bytes(), |cx| {
            let mut s = Session::new();
            let mut e = Env::default();
            diff(cx, &mut s, &mut e, &format!("let n = {n}; let m = -n; let f = {n}.0; let h = {n}.5; let t = \"{n}\""), &["n", "m", "f", "h", "t"])?;
            for op in BINOPS {
                for r in ["n", "m", "f", "h", "t", "1", "(-1)", "2", "3", "7", "10", "63", "255", "65536", "4294967296", "9223372036854775807", "0.5", "1.0", "1000000000000.25", "(n - 1)", "(m + 1)"] {
                    diff(cx, &mut s, &mut e, &format!("n {op} {r}"), &[])?;
                    diff(cx, &mut s, &mut e, &format!("{r} {op} m"), &[])?;
                    diff(cx, &mut s, &mut e, &format!("f {op} {r}"), &[])?;
                    diff(cx, &mut s, &mut e, &format!("{r} {op} h"), &[])?;
                }
            }
            Ok(())
        });
    }
    // collections: every two arrays of up to two elements, every two maps of up to two keys
    let vals = ["nil", "1", "1.0", "\"1\"", "true", "[]", "[nil]", "{}", "{\"a\": nil}"];
    let mut colls: Vec<String> = vec!["[]".into(), "{}".into(), "nil".into(), "0".into()];
    for v in vals {
        colls.push(format!("[{v}]"));
        colls.push(format!("{{\"a\": {v}}}"));
        colls.push(format!("{{\"b\": {v}}}"));
        for w in vals {
            colls.push(format!("[{v}, {w}]"));
            colls.push(format!("{{\"a\": {v}, \"b\": {w}}}"));
            if cx.thorough {
                colls.push(format!("{{\"c\": {v}, \"a\": {w}}}"));
                colls.push(format!("[{v}, [{w}]]"));
            }
        }
    }
    for a in &colls {
        if !cx.mine() {
            cx.skip();
            continue;
        }
        cx.case(format!("{a} and every collection").as_bytes(), |cx| {
            let (mut s, mut e) = seeded("let nil = if (false) { 1 }");
            for b in &colls {
                diff(cx, &mut s, &mut e, &format!("[{a} == {b}, {a} != {b}]"), &[])?;
            }
            for op in ["<", ">=", "+", "*", "&&", "||", "&"] {
                for b in &colls {
                    diff(cx, &mut s, &mut e, &format!("{a} {op} {b}"), &[])?;
                }
            }
            Ok(())
        });
    }
    // texts of two characters: joined, compared with their neighbours, as conditions
    let mut last = String::new();
    pairs(|p| {
        if p.contains('"') {
            return;
        }
        let q = std::mem::replace(&mut last, p.to_string());
        if !cx.mine() {
            cx.skip();
            return;
        }
        cx.case(format!("{p:?} and {q:?}").as_bytes(), |cx| {
            let mut s = Session::new();
            let mut e = Env::default();
            diff(cx, &mut s, &mut e, &format!("let p = \"{p}\"; let q = \"{q}\""), &["p", "q"])?;
            for t in ["p + q", "p == q", "p != q", "p < q", "p >= q", "q > p", "p + 1", "1.5 + p", "p == p + q", "(p + q) + p == p + (q + p)", "!p", "if (p) { 1 } else { 2 }", "[p, q] == [p, q]", "{p: q}", "p * 2", "p && q", "p == 1"] {
                diff(cx, &mut s, &mut e, t, &[])?;
            }
            Ok(())
        });
    });
    for n in [2usize, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 65_537] {
        for u in ["a", "é", " ", "0"] {
            let t = u.repeat(n);
            for f in ["\"{t}\" == \"{t}\"", "\"{t}a\" == \"{t}b\"", "\"a{t}\" == \"b{t}\"", "\"{t}\" + \"{t}\" == \"{t}{t}\"", "\"{t}\" < \"{t}b\"", "\"{t}b\" > \"{t}a\"", "\"{t}\" + 1 + \"{t}\"", "!\"{t}\"", "[\"{t}\"] != [\"{t}x\"]"] {
                fresh(cx, "", &f.replace("{t}", &t), &[]);
            }
        }
    }
    // every shift count on every power of two and its neighbours
    for p in 0..63u32 {
        for d in [-1i64, 0, 1] {
            let n = (1i64 << p).wrapping_add(d);
            let desc = format!("shifts, products and sums of {n}");
            cx.case(desc.as_bytes(), |cx| {
                for k in -1..=66i64 {
                    for op in ["<<", ">>"] {
                        for sign in ["", "-"] {
                            diff(cx, &mut Session::new(), &mut Env::default(), &format!("({sign}{n}) {op} ({k})"), &[])?;
                        }
                    }
                }
                for q in 0..63u32 {
                    let m = 1i64 << q;
                    for op in ["*", "+", "-", "/", "%", "&", "|", "^", "<", "==", ">="] {
                        for sign in ["", "-"] {
                            diff(cx, &mut Session::new(), &mut Env::default(), &format!("({sign}{n}) {op} {m}"), &[])?;
                            diff(cx, &mut Session::new(), &mut Env::default(), &format!("({sign}{n}) {op} {m}.0"), &[])?;
                        }
                    }
                }
                Ok(())
            });
        }
    }
    // texts of every short length over an ordered alphabet
    let al = ["", "a", "b", "B", "é", "aa", "ab", "ba", "aé", "éa", " ", "10", "9", "a b", "\u{10000}", "\u{ffff}", "aaa", "aab"];
    for a in al {
        for b in al {
            for op in BINOPS {
                fresh(cx, "", &format!("\"{a}\" {op} \"{b}\""), &[]);
            }
        }
    }
}

// ------------------------------------------------------------------ C04
/// Expressions of exactly `size` nodes with visible effects.
struct Gen {
    memo: HashMap<(usize, u8), std::rc::Rc<Vec<String>>>,
}
impl Gen {
    fn expr(&mut self, size: usize) -> std::rc::Rc<Vec<String>> {
        if let Some(v) = self.memo.get(&(size, 0)) {
            return v.clone();
        }
        let mut out: Vec<String> = Vec::new();
        if size == 1 {
            // atoms: effects that yield something true, false, null, a number; variables; failures
            out.extend(["T(1)", "F(2)", "x", "y", "z", "N(3)", "7", "B(4)"].map(String::from));
        } else {
            for e in self.expr(size - 1).iter() {
                out.push(format!("(let x = {e})"));
                out.push(format!("(let y = {e})"));
                out.push(format!("!{e}"));
                out.push(format!("if ({e}) {{ }}"));
                out.push(format!("P({e})"));
            }
            for l in 1..size - 1 {
                let r = size - 1 - l;
                let a = self.expr(l);
                let b = self.expr(r);
                for p in a.iter() {
                    for q in b.iter() {
                        out.push(format!("({p} && {q})"));
                        out.push(format!("({p} || {q})"));
                        out.push(format!("({p} + {q})"));
                        out.push(format!("({p} == {q})"));
                        out.push(format!("[{p}, {q}]"));
                        out.push(format!("{{{p}: {q}}}"));
                        out.push(format!("G({p}, {q})"));
                        out.push(format!("[5, {p}][{q}]"));
                        out.push(format!("if ({p}) {{ {q} }}"));
                        out.push(format!("if (false) {{ {p} }} else {{ {q} }}"));
                        out.push(format!("if (true) {{ {p}; {q} }} else {{ T(9) }}"));
                    }
                }
            }
            if size >= 4 {
                for l in 1..size - 2 {
                    for m in 1..size - 1 - l {
                        let r = size - 1 - l - m;
                        if r < 1 {
                            continue;
                        }
                        let (a, b, c) = (self.expr(l), self.expr(m), self.expr(r));
                        for p in a.iter() {
                            for q in b.iter() {
                                for s in c.iter() {
                                    out.push(format!("if ({p}) {{ {q} }} else {{ {s} }}"));
                                }
                            }
                        }
                    }
                }
            }
        }
        let v = std::rc::Rc::new(out);
        self.memo.insert((size, 0), v.clone());
        v
    }
}
/// Expands the atoms of Gen into program text.
fn concrete(e: &str) -> String {
    let mut s = e.to_string();
    for n in 1..=9 {
        s = s.replace(&format!("T({n})"), &format!("[println(\"t{n}\"), true][1]"));
        s = s.replace(&format!("F({n})"), &format!("[println(\"f{n}\"), false][1]"));
        s = s.replace(&format!("N({n})"), &format!("print(\"n{n};\")"));
        s = s.replace(&format!("B({n})"), &format!("[println(\"b{n}\"), 1/0]"));
    }
    // P(e): prints a value; G(a, b): a call with two arguments
    s = s.replace("P(", "println(\"<{v}>\", ").replace("G(", "format(\"{a}-{b}\", ");
    s
}
pub fn c04(cx: &mut Cx) {
    let vars = ["x", "y", "z"];
    let pres = ["", "let x = 1; let y = false", "let z = [true]; let x = {\"k\": 2}"];
    let mut g = Gen { memo: HashMap::new() };
    let top = if cx.thorough { 5 } else { 4 };
    for size in 1..=top {
        let es = g.expr(size);
        for e in es.iter() {
            for (i, pre) in pres.iter().enumerate() {
                if size >= 4 && i != 1 && !cx.thorough {
                    continue;
                }
                if size >= 5 && i != 1 {
                    continue;
                }
                if !cx.mine() {
                    cx.skip();
                    continue;
                }
                let t = concrete(e);
                fresh(cx, pre, &t, &vars);
            }
        }
    }
    // sequences of statements
    let mut st: Vec<String> = g.expr(1).iter().cloned().collect();
    st.extend(g.expr(2).iter().cloned());
    st.extend(["let x = x", "let y = [x, y]", "let x = y", "let z = let x = 3", "if (x) { let y = 5; let x = y } else { let x = 6 }", "let println = 4", "if (x == 1) { let x = 2; x } else { let y = x; 0 }", "x == y"].map(String::from));
    let st: Vec<String> = st.iter().map(|s| concrete(s)).collect();
    let few: Vec<String> = st.iter().step_by(if cx.thorough { 1 } else { 3 }).cloned().collect();
    for sep in ["; ", "\n"] {
        for a in &st {
            for b in &st {
                if !cx.mine() {
                    cx.skip();
                    continue;
                }
                // without a separator the next statement must not continue the expression
                let t = format!("{a}{sep}{b}");
                for pre in &pres {
                    let _ = pre;
                }
                fresh(cx, pres[1], &t, &vars);
            }
        }
    }
    for a in &few {
        for b in &few {
            for c in &few {
                if !cx.mine() {
                    cx.skip();
                    continue;
                }
                fresh(cx, pres[1], &format!("{a}; {b}; {c}"), &vars);
            }
        }
    }
    // the same statements inside blocks, at one and two levels: what a block did before it failed stays done
    let wraps = [
        "if (true) { # }", "if (false) { 0 } else { # }", "if (x) { if (y) { 1 } else { # } } else { 2 }", "[let z = 4, if (null) { 3 } else { if (true) { # } }]", "format(\"{a}\", if (1) { # })", "let z = if (T(1)) { #; x } else { z }", "T(5) && if (true) { # }",
    ];
    for w in &wraps {
        let w = concrete(w);
        for a in &st {
            for b in &st {
                if !cx.mine() {
                    cx.skip();
                    continue;
                }
                fresh(cx, pres[1], &w.replace('#', &format!("{a}; {b}")), &vars);
            }
        }
    }
    // sizes: many statements, bindings, elements, arguments, operands, nested blocks, each with its effect
    for n in [5usize, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1000] {
        let all = |f: &dyn Fn(usize) -> String, sep: &str| (0..n).map(f).collect::<Vec<_>>().join(sep);
        let nest = |open: &str, mid: &str, close: &str| open.repeat(n) + mid + &close.repeat(n);
        let fam: Vec<String> = vec![
            all(&|i| format!("let v{i} = {i}"), "; ") + &format!("; [{}]", all(&|i| format!("v{}", n - 1 - i), ", ")),
            format!("let v = 0; {}; v", all(&|i| format!("let v = v + {i}; println(\"{{v}}\", v)"), "; ")),
            format!("[{}]", all(&|i| format!("println(\"{{v}}\", {i})"), ", ")),
            format!("let x = 0; [{}, x]", all(&|i| format!("let x = x + {}", i % 3), ", ")),
            format!("let x = 0; {{{}, \"x\": x}}", all(&|i| format!("let x = x + 1: let y = {i}"), ", ")),
            format!("let x = 0; format(\"{}\", {})", "{v},".repeat(n), all(&|_| "let x = x + 1".into(), ", ")),
            format!("let x = 0; append([], {})", all(&|_| "let x = x + 1".into(), ", ")),
            format!("let x = 0; {}", all(&|i| format!("(let x = x + {i})"), " + ")),
            format!("let x = 0; {}; x", all(&|i| format!("(if (let x = x + 1) {{ {} }})", if i + 1 == n { "true" } else { "false" }), " || ")),
            format!("let x = 0; {}; x", all(&|i| format!("(if (let x = x + 1) {{ {} }})", if i + 1 == n { "false" } else { "true" }), " && ")),
            // the one that decides comes first, in the middle, last
            format!("let x = 0; {}; x", all(&|i| format!("[let x = x + 1, {}][1]", i == n / 2), " || ")),
            format!("let x = 0; {}; x", all(&|i| format!("[let x = x + 1, {}][1]", i != n / 2), " && ")),
            // a failure in the middle keeps what was done before
            format!("let x = 0; {}", all(&|i| if i == n / 2 { "println(\"here\"); nope".to_string() } else { "let x = x + 1".into() }, "; ")),
            format!("let x = 0; [{}]", all(&|i| if i == n / 2 { "1/0".to_string() } else { "let x = x + 1".into() }, ", ")),
            format!("let x = 0; if (true) {{ {} }} else {{ {} }}", all(&|i| format!("let x = x + {i}"), "; "), all(&|_| "println(\"no\")".into(), "; ")),
            format!("let x = 0; if (false) {{ {} }} else {{ {} }}", all(&|_| "println(\"no\")".into(), "; "), all(&|i| format!("let x = x + {i}"), "; ")),
            all(&|i| format!("if ({}) {{ println(\"i{i}\"); let x = {i} }} else {{ println(\"e{i}\") }}", i % 3 == 0), "; "),
            all(&|i| format!("let y = x; let x = {i}; if (y == {}) {{ let z = y }}", (i + n - 1) % n), "; "),
        ];
        for t in fam {
            if !cx.mine() || (n > 100 && (t.contains(" || ") || t.contains(" && ") || t.contains(") + ("))) {
                cx.skip();
                continue;
            }
            fresh(cx, "let x = 0; let y = 0; let z = 0", &t, &["x", "y", "z", "v0", "v"]);
        }
        cx.max("statements_or_elements", n as u64);
        // nested (how deep the parser goes before it gives up is its own business: well below that)
        if n > 33 {
            continue;
        }
        for t in [
            nest("if (true) { println(\"in\"); ", "let x = 5", "; println(\"out\") }"),
            nest("if (false) { 0 } else { let x = x + 1; ", "x", " }"),
            nest("if (if (x == 0) { true }) { let x = x * 2; ", "nope", " }"),
            nest("[let x = x + 1, ", "x", ", let y = x]"),
            nest("format(\"<{v}>\", ", "let x = x + 1", ")"),
            nest("(let x = 1 + ", "x", ")"),
            nest("(true && ", "let x = x + 1", ")"),
            nest("(false || ", "let x = x + 1", ")"),
        ] {
            fresh(cx, "let x = 0; let y = 0", &t, &["x", "y"]);
        }
    }
    // every small expression again and again, in one program and in one session after the other
    for size in 1..=3 {
        let es = g.expr(size);
        for e in es.iter() {
            if !cx.mine() {
                cx.skip();
                continue;
            }
            let t = concrete(e);
            let n = if cx.thorough { 700 } else { 270 };
            let text = format!("{t}; ").repeat(n);
            fresh(cx, pres[1], &text, &vars);
            for (a, sep, z) in [("if (true) { ", "; ", " }"), ("[", ", ", "]"), ("append([], ", ", ", ")")] {
                if sep == "; " || size < 3 {
                    fresh(cx, pres[1], &format!("{a}{}{z}", vec![t.as_str(); n].join(sep)), &vars);
                }
            }
            cx.case(format!("{t} in {n} programs").as_bytes(), |cx| {
                let (mut s, mut e) = seeded(pres[2]);
                for i in 0..n {
                    diff(cx, &mut s, &mut e, &t, if i + 1 == n { &vars } else { &[] })?;
                    // the variables may have grown
                    if i % 5 == 4 {
                        diff(cx, &mut s, &mut e, "let x = 1; let y = false; let z = 5", &[])?;
                    }
                }
                Ok(())
            });
        }
    }
    // long histories in one session
    for n in [10usize, 64, 100, 257, 1000] {
        let desc = format!("{n} programs one after the other in one session");
        cx.case(desc.as_bytes(), |cx| {
            let (mut s, mut e) = (Session::new(), Env::default());
            for i in 0..n {
                let t = match i % 5 {
                    0 => format!("let v{i} = {i}; let x = v{i}"),
                    1 => format!("let y = [x, v{}]", i / 5 * 5),
                    2 => format!("let x = {i}; nope"),
                    3 => format!("println(\"{{a}} {{b}}\", x, v{})", i / 10 * 5),
                    _ => "let z = {\"x\": x, \"y\": y}; z.y[1]".to_string(),
                };
                diff(cx, &mut s, &mut e, &t, &["x", "y", "z", "v0"])?;
            }
            Ok(())
        });
    }
    // histories: the state a program starts from is the one the last one left, failed or not
    let steps: Vec<&str> = vec![
        "let x = 1", "let x = x + 1", "let y = x", "let x = y; let y = 0; 1/0; let x = 99", "x", "let x = [x]", "let y = nope", "[let x = 5, let y = x, nope, let x = 6]", "let x = ;", "if (x == 2) { let y = 8 } else { let z = x }", "let z = {x: y, y: x}", "z", "if (false) { 0 } else { let x = 7; let y = [x]; nope }",
    ];
    let depth = if cx.thorough { 5 } else { 4 };
    sequences(steps.len(), depth, |v| {
        if !cx.mine() {
            cx.skip();
            return;
        }
        let desc = v.iter().map(|i| steps[*i]).collect::<Vec<_>>().join("  |  ");
        cx.case(desc.as_bytes(), |cx| {
            let (mut s, mut e) = (Session::new(), Env::default());
            for i in v {
                diff(cx, &mut s, &mut e, steps[*i], &vars)?;
            }
            Ok(())
        });
    });
}

// ------------------------------------------------------------------ C05
pub fn c05(cx: &mut Cx) {
    // every short text: tokens are the longest match, blanks separate
    let al: Vec<char> = "1.a_=!&|<>+-([,;:\"` \n".chars().collect();
    let n = if cx.thorough { 6 } else { 5 };
    for k in 1..=n {
        sequences(al.len(), k, |v| {
            if !cx.mine() {
                cx.skip();
                return;
            }
            let t: String = v.iter().map(|i| al[*i]).collect();
            fresh(cx, "", &format!("let a = 3; let b = [4, 5];{t}"), &["a"]);
        });
    }
    let al2: Vec<char> = "2a*/%^{})]tfi\"'é\t\r".chars().collect();
    for k in 1..=(n - 1) {
        sequences(al2.len(), k, |v| {
            if !cx.mine() {
                cx.skip();
                return;
            }
            let t: String = v.iter().map(|i| al2[*i]).collect();
            fresh(cx, "let a = 3; let t = 4; let f = 5; let i = 6", &t, &["a"]);
        });
    }
    // numbers: every short text of digits, points, signs and the letters other languages allow in them
    let al3: Vec<char> = "0127.-eExX_f".chars().collect();
    for k in 1..=(n - 1) {
        sequences(al3.len(), k, |v| {
            if !cx.mine() {
                cx.skip();
                return;
            }
            let t: String = v.iter().map(|i| al3[*i]).collect();
            fresh(cx, "let x = 3; let e = 4; let f = 5; let e1 = 6; let x0 = 7; let _ = 8", &t, &[]);
        });
    }
    for d in 1..=25usize {
        for f in ["{9}", "0{1}", "{0}7", "1{0}", "{9}.{9}", "0.{0}1", "{1}.5", "-{9}", "1{0}.0", "{0}1.{0}"] {
            let mut t = f.to_string();
            for c in ["9", "1", "0"] {
                t = t.replace(&format!("{{{c}}}"), &c.repeat(d));
            }
            fresh(cx, "", &t, &[]);
        }
    }
    for t in ["9223372036854775806", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "00009223372036854775807", "92233720368547758070", "9223372036854775807.0", "4294967295", "4294967296"] {
        for f in ["{}", "-{}", "[{}, 1]", "{} + 1", "{} - 1", "let x = {}; x"] {
            fresh(cx, "", &f.replace("{}", t), &[]);
        }
    }
    for n in whole() {
        for f in ["[{n}, -{n}]", "let x = {n}; [x, x == {n}, {n} - 1 == x]", "{n}.0 == {n}", "{n}.5"] {
            if !cx.mine() {
                cx.skip();
                continue;
            }
            fresh(cx, "", &f.replace("{n}", &n.to_string()), &["x"]);
        }
    }
    // any two characters anywhere: in quotes, between tokens, in and next to names and numbers
    pairs(|p| {
        for f in ["let q = \"#\"; [length(q), q, q == \"#\"]", "\"a#\"", "\"#a\" == \"x\"", "{\"a#b\": 1}", "x#1", "[#]", "1#", "let w#y = 3; w", "\"a\"#\"b\"", "if (true) { 1 }#2", "request q`#` 5", "test t#{ 1 } 6"] {
            if !cx.mine() {
                cx.skip();
                continue;
            }
            fresh(cx, "let x = 3; let a = [4]", &f.replace('#', p), &["q", "w"]);
        }
    });
    // names next to keywords: every keyword with one character before, after or inside it, or in another case
    for k in ["let", "if", "else", "true", "false", "request", "test", "null", "and", "or", "not", "for", "while", "fn", "return", "in"] {
        let mut names: Vec<String> = vec![k.into(), k.to_uppercase(), k[..1].to_uppercase() + &k[1..], format!("{k}{k}")];
        for c in "aZ_09é".chars() {
            names.push(format!("{k}{c}"));
            names.push(format!("{c}{k}"));
            names.push(format!("{}{c}{}", &k[..1], &k[1..]));
        }
        for i in 0..k.len() {
            names.push(format!("{}{}", &k[..i], &k[i + 1..]));
        }
        for m in names {
            for f in ["let {} = 5; {}", "{}", "{{\"{}\": 1}}.{}", "if (true) {{} }", "{}(1)", "let a = 1; a.{}", "request {} `GET http://h/` []", "test {} { 1 } 2", "let x = 1 {} 2", "if (false) { 1 } {} { 2 }"] {
                fresh(cx, "", &f.replace("{}", &m), &[]);
            }
        }
    }
    // programs under every layout of every gap
    let progs: Vec<Vec<&str>> = [
        "let x = 1 + 2 * 3 - 4",
        "let x = [ 1 , \"a b\" , [ 2 ] ] x [ 1 ]",
        "let m = { \"k\" : 1 , 2 : { } } m . k",
        "if ( 1 < 2 ) { let y = 3 ; y } else { 4 }",
        "if ( 1 >= 2 ) { 1 } 5",
        "println ( \"{a} {b}\" , 1 , true )",
        "format ( \"{a}\" , ! true )",
        "1 << 2 >> 1 <= 4 && 5 != 6 || 7 == 8",
        "1 & 2 | 3 ^ 4",
        "- 1 - - 1",
        "! ! false",
        "5 % 3 / 1.5 > 0.5",
        "let a = 1 let b = 2 ; let c = a + b c",
        "true false x1 let",
        "\"a\" + \"b\" == \"ab\"",
        "request r `GET http://h/` [ status == 200 , 1 ] 6",
        "test t { let a = 1 ; a } 7",
        "append ( [ ] , 1 , ) [ 0 ]",
        "{ 1 : 2 , } [ 1 ]",
        "let letx = 1 iff",
        "a = = b",
        "1 < < 2",
        "1 . 5",
        "x & & y",
    ]
    .iter()
    .map(|p| p.split(' ').collect())
    .collect();
    let progs: Vec<Vec<String>> = progs
        .iter()
        .map(|p| {
            // glue the pieces of quoted tokens again
            let mut out: Vec<String> = Vec::new();
            let mut open: Option<(char, String)> = None;
            for w in p {
                match &mut open {
                    Some((q, s)) => {
                        s.push(' ');
                        s.push_str(w);
                        if w.ends_with(*q) {
                            out.push(open.take().unwrap().1);
                        }
                    }
                    None => {
                        let c = w.chars().next().unwrap();
                        if (c == '"' || c == '`') && !(w.len() > 1 && w.ends_with(c)) {
                            open = Some((c, w.to_string()));
                        } else {
                            out.push(w.to_string());
                        }
                    }
                }
            }
            out
        })
        .collect();
    let seps = ["", " ", "\t", "\n", "\r\n", "  ", " \n\t ", "\r"];
    for p in &progs {
        let gaps = p.len() + 1;
        let canonical = p.join(" ");
        let go = |cx: &mut Cx, choice: &[(usize, usize)], base: usize| {
            if !cx.mine() {
                cx.skip();
                return;
            }
            let mut t = String::new();
            for i in 0..gaps {
                let s = choice.iter().find(|c| c.0 == i).map(|c| c.1).unwrap_or(base);
                t.push_str(if (i == 0 || i == gaps - 1) && choice.iter().all(|c| c.0 != i) { "" } else { seps[s] });
                if i < p.len() {
                    t.push_str(&p[i]);
                }
            }
            cx.case(t.as_bytes(), |cx| {
                diff(cx, &mut Session::new(), &mut Env::default(), &t, &["x", "y", "a"])?;
                // as long as the tokens stay the same, so does the meaning
                if lang::lex(&t) == lang::lex(&canonical) {
                    let a = observe(&mut Session::new(), &t);
                    let b = observe(&mut Session::new(), &canonical);
                    cx.traces += 2;
                    if a != b {
                        return Err(format!("layouts of one program differ\n{t:?}: {a:?}\n{canonical:?}: {b:?}"));
                    }
                    cx.count("layouts_with_the_same_tokens", 1);
                }
                Ok(())
            });
        };
        for base in 0..seps.len() {
            go(cx, &[], base);
        }
        for g in 0..gaps {
            for s in 0..seps.len() {
                for base in [0, 1, 3] {
                    go(cx, &[(g, s)], base);
                }
            }
        }
        for g in 0..gaps {
            for h in g + 1..gaps {
                for s in 0..seps.len() {
                    for u in 0..seps.len() {
                        go(cx, &[(g, s), (h, u)], 1);
                    }
                }
            }
        }
        if cx.thorough {
            for g in 0..gaps {
                for h in g + 1..gaps {
                    for i in h + 1..gaps {
                        sequences(4, 3, |v| go(cx, &[(g, v[0]), (h, v[1]), (i, v[2])], 1));
                    }
                }
            }
        }
    }
    // optional semicolons between complete expressions
    let parts = ["request r `GET http://h/`[]", "request r `GET http://h/`[status == 1, x]", "test t {}", "let x = 1", "x", "[x, 2]", "{\"k\": x}", "if (x) { x } else { 2 }", "println(\"p\")", "\"s\"", "true", "{}", "2.5", "let y = if (true) { 3; 4 }", "request r `GET http://h/`", "test t { x }", "if (x) { let y = x }"];
    for a in parts {
        for b in parts {
            for c in parts {
                sequences(5, 3, |v| {
                    if !cx.mine() {
                        cx.skip();
                        return;
                    }
                    let s = ["; ", ";", "\n", " ;\n", ";;"];
                    let text = format!("let x = 0;{a}{}{b}{}{c}{}", s[v[0]], s[v[1]], s[v[2]]);
                    fresh(cx, "", &text, &["x", "y"]);
                });
            }
        }
    }
    // what is inside quotes is taken verbatim
    let inside: Vec<&str> = vec!["a", " ", "  ", "\t", "\n", "\r\n", "\\", "\\n", "{", "}", "{x}", "`", "'", "é", "中", "😀", "\u{301}", "\u{feff}", "\u{a0}", "//", "#", ";", "let", "\0", "&&", "1"];
    let depth = if cx.thorough { 4 } else { 3 };
    for n in 0..=depth {
        sequences(inside.len(), n, |v| {
            if !cx.mine() {
                cx.skip();
                return;
            }
            let s: String = v.iter().map(|i| inside[*i]).collect();
            let text = format!("let q = \"{s}\"; [length(q), q, q == \"{s}\", {{\"{s}\": 1}}]");
            fresh(cx, "", &text, &["q"]);
        });
    }
    for len in [0usize, 1, 2, 63, 64, 127, 128, 255, 256, 1023, 1024, 4095, 4096, 8191, 8192, 8193, 65535, 65536, 100_000] {
        for unit in ["a", "é", " ", "\n"] {
            fresh(cx, "", &format!("let q = \"{}\"; [length(q), q]", unit.repeat(len)), &["q"]);
            fresh(cx, "", &format!("let w{} = 4; w{}", "a".repeat(len), "a".repeat(len)), &[]);
            fresh(cx, "", &format!("3{}+{}4", unit.replace('a', " ").replace('é', "\t").repeat(len), " ".repeat(len)), &[]);
        }
    }
}

// ------------------------------------------------------------------ C06
pub fn c06(cx: &mut Cx) {
    let frag = ["{a}", "{ b }", "{", "}", "{}", "{1}", "x", "é", "{a b}", "{{", "}}", "{_a9}", "{\ta\n}", "{a-}", "\n", "{A}"];
    let args: Vec<&str> = vec!["1", "\"\"", "\"{a}\"", "\"}\"", "\"{\"", "\"é😀\"", "[1, \"s\"]", "{\"k\": 2, \"a\": [1]}", "[][0]", "1.5", "true", "\"a\n\"", "(-0.0)", "2.0"];
    let depth = if cx.thorough { 4 } else { 3 };
    for n in 0..=depth {
        sequences(frag.len(), n, |v| {
            let t: String = v.iter().map(|i| frag[*i]).collect();
            let k = lang::holes(&t).len();
            for f in ["format", "print", "println"] {
                // the right number of arguments, one less, one more
                for m in [k, k + 1, k.wrapping_sub(1)] {
                    if m > 6 {
                        continue;
                    }
                    if !cx.mine() {
                        cx.skip();
                        continue;
                    }
                    let off = v.iter().sum::<usize>();
                    let text = format!("{f}(\"{t}\"{})", (0..m).map(|i| format!(", {}", args[(off + i) % args.len()])).collect::<String>());
                    fresh(cx, "", &text, &[]);
                }
            }
            // all pairs of arguments where there are few placeholders
            if (k == 1 || k == 2) && n <= 3 {
                for (i, a) in args.iter().enumerate() {
                    for (j, b) in args.iter().enumerate() {
                        if k == 1 && j > 0 {
                            continue;
                        }
                        if !cx.mine() {
                            cx.skip();
                            continue;
                        }
                        let _ = i;
                        let text = if k == 1 { format!("println(\"{t}\", {a})") } else { format!("format(\"{t}\", {a}, {b})") };
                        fresh(cx, "", &text, &[]);
                    }
                }
            }
        });
    }
    // everything short between braces, and any two characters in a format and in an argument
    let inner: Vec<char> = "aB_09- .{é\t".chars().collect();
    for n in 0..=if cx.thorough { 5 } else { 4 } {
        sequences(inner.len(), n, |v| {
            let t: String = v.iter().map(|i| inner[*i]).collect();
            if !cx.mine() {
                cx.skip();
                return;
            }
            let f = format!("<{{{t}}}>");
            let k = lang::holes(&f).len();
            fresh(cx, "", &format!("println(\"{f}\"{})", ", 7".repeat(k)), &[]);
            fresh(cx, "", &format!("format(\"{f}\"{})", if k == 0 { ", 7" } else { "" }), &[]);
        });
    }
    pairs(|p| {
        if p.contains('"') {
            return;
        }
        for t in ["println(\"#\")", "println(\"{a}#\", 1)", "println(\"#{a}\", 1)", "println(\"{a#}\", 1)", "format(\"{#}\", 2)", "println(\"[{a}{b}]\", \"#\", [\"a#\"])", "print(\"a#b\")", "length(\"#\")", "format(\"{#a}\", 5)"] {
            if !cx.mine() {
                cx.skip();
                continue;
            }
            fresh(cx, "", &t.replace('#', p), &[]);
        }
    });
    // other argument kinds in every position
    let ops = operand_texts();
    for f in ["format", "print", "println", "length", "append", "nope"] {
        fresh(cx, "", &format!("{f}()"), &[]);
        for (a, _) in &ops {
            fresh(cx, "", &format!("{f}({a})"), &[]);
            fresh(cx, "", &format!("{f}(\"<{{v}}>\", {a})"), &[]);
            for (b, _) in &ops {
                fresh(cx, "", &format!("{f}({a}, {b})"), &[]);
            }
        }
    }
    for (a, _) in &ops {
        for (b, _) in &ops {
            let text = format!("let q = [{a}]; let w = append(q, {b}, {a}); [q, w, length(w), append(w), append([])]");
            fresh(cx, "", &text, &["q", "w"]);
        }
    }
    // sizes
    for n in [0usize, 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1000] {
        for u in ["a", "é", "😀", "\n"] {
            fresh(cx, "", &format!("length(\"{}\")", u.repeat(n)), &[]);
        }
        fresh(cx, "", &format!("length([{}])", "1,".repeat(n)), &[]);
        fresh(cx, "", &format!("length({{{}}})", (0..n).map(|i| format!("{i}: {i}, ")).collect::<String>()), &[]);
        fresh(cx, "", &format!("append([{}], {})", "1,".repeat(n), "2,".repeat(n + 1)), &[]);
        fresh(cx, "", &format!("format(\"{}\"{})", "{a}".repeat(n), (0..n).map(|i| format!(", {i}")).collect::<String>()), &[]);
        fresh(cx, "", &format!("println(\"{}\"{})", "{a}|".repeat(n), (0..n).map(|i| format!(", \"{{a}}{}\"", "z".repeat(i % 7))).collect::<String>()), &[]);
        fresh(cx, "", &format!("print(\"{}\")", "é".repeat(n)), &[]);
        fresh(cx, "", &format!("println(\"{}\")", "a\n".repeat(n)), &[]);
    }
    // the text of a value is always the same: maps of every small size, printed twice
    for n in 0..=9usize {
        for m in 0..=3usize {
            let map = |k: usize| format!("{{{}}}", (0..k).map(|i| format!("\"key{}\": {i}, ", (i * 7) % 10)).collect::<String>());
            let text = format!("let q = {{\"m\": {}, \"n\": [{}]}}; println(\"{{a}}\", q); println(\"{{a}}\", q); [q, format(\"{{a}} {{b}}\", q, q)]", map(n), map(m));
            fresh(cx, "", &text, &["q"]);
        }
    }
    // output order within one program
    let outs = ["print(\"a\")", "println(\"b\")", "print(\"c\n\")", "println(\"\")", "print(\"\")", "println(\"{v}\", \"d\ne\")", "print(\"{v}\", print(\"f\"))"];
    sequences(outs.len(), 4, |v| {
        if !cx.mine() {
            cx.skip();
            return;
        }
        fresh(cx, "", &v.iter().map(|i| outs[*i]).collect::<Vec<_>>().join("; "), &[]);
    });
}

// ------------------------------------------------------------------ C07
pub fn c07(cx: &mut Cx) {
    let items = ["1", "\"s\"", "[2]", "{\"k\": 3}", "[][0]"];
    // arrays: every small content, every index
    for n in 0..=3usize {
        sequences(items.len(), n, |v| {
            let a = format!("[{}]", v.iter().map(|i| items[*i]).collect::<Vec<_>>().join(", "));
            for i in ["-9223372036854775807", "-4294967296", "-2", "-1", "0", "1", "2", "3", "4", "4294967296", "9223372036854775807", "1.0", "\"0\"", "true", "[0]", "[][0]"] {
                if !cx.mine() {
                    cx.skip();
                    continue;
                }
                fresh(cx, "", &format!("let q = {a}; [q[{i}], {a}[{i}], q]"), &["q"]);
                cx.skip();
            }
        });
    }
    for n in [5usize, 8, 16, 17, 31, 64, 100, 255, 256, 257, 1000] {
        let a = format!("[{}]", (0..n).map(|i| format!("{i},")).collect::<String>());
        for i in [0, 1, n / 2, n - 2, n - 1, n, n + 1] {
            fresh(cx, "", &format!("let q = {a}; [q[{i}], q[{n} - 1 - {i}], length(q)]"), &["q"]);
        }
    }
    // maps: keys of every kind, duplicates, every lookup
    let keys = ["\"a\"", "\"1\"", "1", "1.0", "1.5", "true", "\"true\"", "[1]", "[][0]", "\"null\"", "\"\"", "{}", "a", "(-1)", "\"-1\"", "\"A\""];
    let depth = if cx.thorough { 4 } else { 3 };
    for n in 0..=depth {
        sequences(keys.len(), n, |v| {
            if !cx.mine() {
                cx.skip();
                return;
            }
            let m = format!("{{{}}}", v.iter().enumerate().map(|(i, k)| format!("{}: {}", keys[*k], i)).collect::<Vec<_>>().join(", "));
            cx.case(m.as_bytes(), |cx| {
                let (mut s, mut e) = seeded("let a = \"b\"");
                diff(cx, &mut s, &mut e, &format!("let q = {m}"), &["q"])?;
                for k in keys {
                    diff(cx, &mut s, &mut e, &format!("q[{k}]"), &[])?;
                }
                for f in ["a", "b", "null", "true", "A", "zz", "q"] {
                    diff(cx, &mut s, &mut e, &format!("q.{f}"), &[])?;
                }
                diff(cx, &mut s, &mut e, "length(q)", &["q"])
            });
        });
    }
    // texts that look alike are different keys
    let mut near: Vec<String> = Vec::new();
    for n in 1..=3 {
        sequences(9, n, |v| near.push(v.iter().map(|i| ["1", ".", "0", "+", "-", " ", "a", "A", "_"][*i]).collect()));
    }
    let looks = format!("[{}]", near.iter().map(|k| format!("q[\"{k}\"]")).collect::<Vec<_>>().join(", "));
    for k in &near {
        if !cx.mine() {
            cx.skip();
            continue;
        }
        fresh(cx, "", &format!("let q = {{\"{k}\": 7}}; [length(q), q]; {looks}"), &["q"]);
        fresh(cx, "", &format!("let q = {{\"a\": 7, \"1\": 8, \"10\": 9, \"\": 6, \"{k}\": 5}}; [q, q[1], q[10], q[1.0], q[-1], q[0], q.a, q.a1, q.A, q._, q[\"\"], q[\"{k}\"]]"), &["q"]);
    }
    // large maps: every key found again, duplicates replace, the text is the same whatever the order they came in
    for n in [3usize, 4, 5, 7, 8, 9, 14, 15, 16, 17, 28, 29, 31, 32, 33, 56, 57, 64, 65, 100, 127, 128, 129, 255, 256, 257, 448, 449, 1000] {
        let pairs = |f: &dyn Fn(usize) -> String| format!("{{{}}}", (0..n).map(f).collect::<Vec<_>>().join(", "));
        let fam = [
            pairs(&|i| format!("\"k{i}\": {i}")),
            pairs(&|i| format!("\"k{}\": {i}", n - 1 - i)),
            pairs(&|i| format!("{}: [{i}]", (i * 7) % n)),
            pairs(&|i| format!("\"k{}\": {i}", i / 2)),
            pairs(&|i| format!("\"k{}\": {i}", i % 3)),
            pairs(&|i| format!("\"{}\": {i}", "k".repeat(i % 100))),
        ];
        for m in fam {
            if !cx.mine() {
                cx.skip();
                continue;
            }
            let text = format!("let q = {m}; [{}, length(q), q]", (0..n.min(300)).map(|i| format!("q[\"k{i}\"], q.k{i}, q[{i}]")).collect::<Vec<_>>().join(", "));
            fresh(cx, "", &text, &["q"]);
            cx.max("pairs_in_a_map", n as u64);
        }
        // arrays grown one by one, by many at once, and nested
        let grow = (0..n).map(|i| format!("let q = append(q, {i})")).collect::<Vec<_>>().join("; ");
        fresh(cx, "", &format!("let q = []; {grow}; [q, length(q), q[{}]]", n - 1), &["q"]);
        fresh(cx, "", &format!("let q = [0]; let w = q; {grow}; [w, length(q)]"), &["q", "w"]);
        if n <= 33 {
            fresh(cx, "", &format!("let q = {}1{}; q{}", "[".repeat(n), "]".repeat(n), "[0]".repeat(n)), &["q"]);
            fresh(cx, "", &format!("let q = {}1{}; q{}", "{\"k\": ".repeat(n), "}".repeat(n), ".k".repeat(n)), &["q"]);
            fresh(cx, "", &format!("let q = {}1{}; q{}; q[0]{}[1]", "[[0], ".repeat(n), "]".repeat(n), "[1]".repeat(n), "[1]".repeat(n / 2)), &["q"]);
        }
    }
    // indexing everything by everything
    let ops = operand_texts();
    for (a, _) in &ops {
        for (b, _) in &ops {
            fresh(cx, "", &format!("{a}[{b}]"), &[]);
        }
        fresh(cx, "", &format!("{a}.k"), &[]);
        fresh(cx, "", &format!("{{\"k\": {a}}}.k"), &[]);
        fresh(cx, "", &format!("[[{a}]][0][0]"), &[]);
        fresh(cx, "", &format!("{{{a}: 1}}[{a}]"), &[]);
        fresh(cx, "", &format!("{{{a}: 1, {a}: 2}}"), &[]);
    }
    // aliasing histories: breadth first over the reachable states of three bindings
    let steps = [
        "let b = a",
        "let a = b",
        "let c = [a, b]",
        "let a = append(a, 1)",
        "let b = append(b, a)",
        "let a = a[0]",
        "let b = c[1]",
        "let c = {\"k\": a, \"l\": b}",
        "let a = c.k",
        "let b = c[\"l\"]",
        "append(a, 9); let b = append(append(a, 2), 3)",
        "let c = append([c], c)",
        "[a, b, c][1]",
        "let a = [let b = a, let c = b]",
        "let b = {\"k\": b}.k; a[1]; b[0]; c.k",
    ];
    let pre = "let a = [1, [2]]; let b = {\"k\": [3]}; let c = []";
    let depth = if cx.thorough { 6 } else { 4 };
    // each shard explores the subtrees of its share of first two steps
    let mut frontier: Vec<Vec<usize>> = Vec::new();
    sequences(steps.len(), 2, |v| frontier.push(v.to_vec()));
    for root in frontier {
        let desc = root.iter().map(|i| steps[*i]).collect::<Vec<_>>().join(" | ");
        cx.case(desc.as_bytes(), |cx| {
            let mut seen = std::collections::HashSet::new();
            let mut queue = vec![root.clone()];
            while let Some(h) = queue.pop() {
                let (mut s, mut e) = seeded(pre);
                for (k, i) in h.iter().enumerate() {
                    if k + 1 == h.len() {
                        let d = format!("{pre} | {}", h.iter().map(|i| steps[*i]).collect::<Vec<_>>().join(" | "));
                        cx.redescribe(d.as_bytes());
                    }
                    diff(cx, &mut s, &mut e, steps[*i], &["a", "b", "c"]).map_err(|m| format!("history: {:?}\n{m}", h.iter().map(|i| steps[*i]).collect::<Vec<_>>()))?;
                }
                cx.deepest = cx.deepest.max(h.len() as u64);
                let canon = format!("{:?}{:?}{:?}", s.var("a"), s.var("b"), s.var("c"));
                if canon.len() > 4000 {
                    cx.count("states_too_large_to_expand", 1);
                    continue;
                }
                if seen.insert((canon, depth - h.len())) && h.len() < depth {
                    for i in 0..steps.len() {
                        let mut n = h.clone();
                        n.push(i);
                        queue.push(n);
                    }
                }
            }
            Ok(())
        });
    }
}
