//! Reference of the HTTP side, written from the properties: URL, message, response, form and
//! multipart decoding; and the virtual world in which the real client runs.
use crate::avro::{self, Rec};
use crate::pool::Cx;
use crate::rt::*;
use crate::sut::{self, End, Session};

#[derive(Clone, Debug, PartialEq)]
pub struct Url {
    pub https: bool,
    pub host: String,
    pub port: u16,
    pub path: String,
}
/// scheme://host[:port][/target]
pub fn url(s: &str) -> Url {
    let Some(p) = s.find("://") else { return Url { https: false, host: "localhost".into(), port: 80, path: "/".into() } };
    let https = s[..p].eq_ignore_ascii_case("https");
    let rest = &s[p + 3..];
    let (auth, path) = match rest.find('/') {
        Some(i) => (&rest[..i], rest[i..].to_string()),
        None => (rest, "/".to_string()),
    };
    // the colons inside brackets belong to an IPv6 address
    if let Some((h, p)) = auth.strip_prefix('[').and_then(|a| a.split_once(']')) {
        let port = p.strip_prefix(':').and_then(|p| p.parse().ok());
        return Url { https, host: h.into(), port: port.unwrap_or(if https { 443 } else { 80 }), path };
    }
    let (host, port) = match auth.find(':') {
        Some(i) => (&auth[..i], auth[i + 1..].parse::<u16>().ok()),
        None => (auth, None),
    };
    Url { https, host: host.into(), port: port.unwrap_or(if https { 443 } else { 80 }), path }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Body {
    None,
    Bytes(Vec<u8>),
    Form(Vec<(String, String)>),
    Multi(Vec<(String, String)>),
}
#[derive(Clone, Debug)]
pub struct Msg {
    pub method: String,
    pub url: Url,
    pub version: String,
    pub headers: Vec<(String, String)>,
    pub body: Body,
}
pub const METHODS: [&str; 9] = ["GET", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "HEAD", "TRACE", "CONNECT"];
pub const VERSIONS: [&str; 5] = ["HTTP/1.1", "HTTP/0.9", "HTTP/1.0", "HTTP/2.0", "HTTP/3.0"];
fn lines(s: &str) -> Vec<&str> {
    let mut v: Vec<&str> = s.split('\n').collect();
    if v.last() == Some(&"") {
        v.pop();
    }
    v.iter().map(|l| l.strip_suffix('\r').unwrap_or(l)).collect()
}
pub fn message(text: &str) -> Msg {
    let ls = lines(text.trim());
    let mut words = ls.first().copied().unwrap_or("").split_whitespace();
    let m = words.next().unwrap_or("");
    let method = METHODS.iter().find(|x| **x == m).copied().unwrap_or("GET").to_string();
    let url = url(words.next().unwrap_or(""));
    let v = words.next().unwrap_or("");
    let version = VERSIONS.iter().find(|x| **x == v).copied().unwrap_or("HTTP/1.1").to_string();
    let mut headers = Vec::new();
    let mut i = 1;
    while i < ls.len() {
        let l = ls[i].trim();
        i += 1;
        if l.is_empty() {
            break;
        }
        if let Some(p) = l.find(':') {
            headers.push((l[..p].trim().to_string(), l[p + 1..].trim().to_string()));
        }
    }
    let rest: Vec<&str> = ls.get(i..).unwrap_or(&[]).to_vec();
    let ct = headers.iter().find(|(n, _)| n.to_lowercase() == "content-type").map(|(_, v)| v.as_str());
    let fields = |rest: &[&str]| -> Vec<(String, String)> { rest.iter().filter_map(|l| l.trim().split_once(':')).map(|(a, b)| (a.trim().to_string(), b.trim().to_string())).collect() };
    let body = match ct {
        Some("application/x-www-form-urlencoded") => Body::Form(fields(&rest)),
        Some("multipart/form-data") => Body::Multi(fields(&rest)),
        _ => {
            let b = rest.join("\n");
            if b.trim().is_empty() {
                Body::None
            } else {
                Body::Bytes(b.into_bytes())
            }
        }
    };
    Msg { method, url, version, headers, body }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Resp {
    pub version: String,
    pub status: i64,
    pub reason: String,
    pub headers: Vec<(String, String)>,
    pub body: String,
}
/// Err: the bytes are no text.
pub fn response(b: &[u8]) -> Result<Resp, ()> {
    let t = std::str::from_utf8(b).map_err(|_| ())?;
    let (first, mut rest) = cut_line(t);
    let mut p = first.trim().splitn(3, ' ');
    let version = p.next().unwrap_or("").to_string();
    let status = p.next().unwrap_or("").parse::<u16>().unwrap_or(0) as i64;
    let reason = p.next().unwrap_or("").to_string();
    let mut headers = Vec::new();
    while !rest.is_empty() {
        let (l, r) = cut_line(rest);
        rest = r;
        if l.trim().is_empty() {
            break;
        }
        if let Some((n, v)) = l.split_once(':') {
            headers.push((n.trim().to_string(), v.trim().to_string()));
        }
    }
    Ok(Resp { version, status, reason, headers, body: rest.to_string() })
}
fn cut_line(t: &str) -> (&str, &str) {
    match t.find('\n') {
        Some(i) => (&t[..i], &t[i + 1..]),
        None => (t, ""),
    }
}
pub fn of_rec(r: &Rec) -> Resp {
    Resp { version: r.rversion.clone(), status: r.status, reason: r.reason.clone(), headers: r.rheaders.clone(), body: r.rbody.clone() }
}

/// A request as a server reads it: request line, headers, body.
#[derive(Clone, Debug, PartialEq)]
pub struct Wire {
    pub line: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}
pub fn wire(b: &[u8]) -> Result<Wire, String> {
    let mut i = 0;
    let mut ls = Vec::new();
    loop {
        let Some(p) = b[i..].windows(2).position(|w| w == b"\r\n") else { return Err(format!("the request head does not end: {}", show(b))) };
        let l = &b[i..i + p];
        i += p + 2;
        if l.is_empty() {
            break;
        }
        ls.push(String::from_utf8(l.to_vec()).map_err(|_| "the request head is no text".to_string())?);
    }
    let mut it = ls.into_iter();
    let line = it.next().ok_or("no request line")?;
    let headers = it
        .map(|l| match l.split_once(": ") {
            Some((a, b)) => Ok((a.to_string(), b.to_string())),
            None => Err(format!("header line {l:?}")),
        })
        .collect::<Result<_, String>>()?;
    Ok(Wire { line, headers, body: b[i..].to_vec() })
}
pub fn show(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b).escape_debug().to_string();
    if s.chars().count() > 900 {
        let n = s.chars().count();
        let a: String = s.chars().take(450).collect();
        let z: String = s.chars().skip(n - 300).collect();
        format!("{a} ... {z} ({} bytes)", b.len())
    } else {
        s
    }
}
/// Compares the bytes a server got with what the message asks for.
pub fn check_wire(m: &Msg, sent: &[u8], files: &dyn Fn(&str) -> Option<Vec<u8>>) -> Result<(), String> {
    let w = wire(sent)?;
    let line = format!("{} {} {}", m.method, m.url.path, m.version);
    if w.line != line {
        return Err(format!("request line: expected {line:?}, sent {:?}", w.line));
    }
    let mut want = m.headers.clone();
    let mut boundary = None;
    if let Body::Multi(f) = &m.body {
        let k = want.iter().position(|(n, _)| n.to_lowercase() == "content-type").unwrap();
        if let Some((_, v)) = w.headers.get(k) {
            if let Some(b) = v.strip_prefix("multipart/form-data; boundary=") {
                boundary = Some(b.trim_matches('"').to_string());
                want[k].1 = v.clone();
            }
        }
        if boundary.is_none() && !f.is_empty() {
            return Err(format!("no boundary is announced in {:?}", w.headers));
        }
    }
    if w.headers != want {
        return Err(format!("headers: expected {want:?}, sent {:?}", w.headers));
    }
    match &m.body {
        Body::None => {
            if !w.body.is_empty() {
                return Err(format!("a body was sent for an empty one: {}", show(&w.body)));
            }
        }
        Body::Bytes(b) => {
            if &w.body != b {
                return Err(format!("body: expected {}, sent {}", show(b), show(&w.body)));
            }
        }
        Body::Form(f) => {
            let got = form_decode(&w.body)?;
            if &got != f {
                return Err(format!("form fields: expected {f:?}, decoded {got:?} from {}", show(&w.body)));
            }
        }
        Body::Multi(f) => {
            if f.is_empty() {
                if !w.body.is_empty() {
                    return Err(format!("a multipart body without fields was sent: {}", show(&w.body)));
                }
                return Ok(());
            }
            let got = multipart_decode(&w.body, boundary.as_deref().unwrap_or(""))?;
            check_parts(f, &got, files)?;
        }
    }
    Ok(())
}
pub fn form_decode(b: &[u8]) -> Result<Vec<(String, String)>, String> {
    if b.is_empty() {
        return Ok(Vec::new());
    }
    let dec = |p: &[u8]| -> Result<String, String> {
        let mut o = Vec::new();
        let mut i = 0;
        while i < p.len() {
            match p[i] {
                b'+' => o.push(b' '),
                b'%' => {
                    let h = p.get(i + 1..i + 3).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| u8::from_str_radix(h, 16).ok()).ok_or_else(|| format!("bad percent code in {}", show(p)))?;
                    o.push(h);
                    i += 2;
                }
                c if c.is_ascii_alphanumeric() || b"*-._".contains(&c) => o.push(c),
                c => return Err(format!("byte {c} is not allowed in a form")),
            }
            i += 1;
        }
        String::from_utf8(o).map_err(|_| "a form field is no text".into())
    };
    b.split(|c| *c == b'&')
        .map(|p| match p.iter().position(|c| *c == b'=') {
            Some(i) => Ok((dec(&p[..i])?, dec(&p[i + 1..])?)),
            None => Ok((dec(p)?, String::new())),
        })
        .collect()
}
#[derive(Clone, Debug, PartialEq)]
pub struct Part {
    pub name: String,
    pub filename: Option<String>,
    pub content: Vec<u8>,
}
pub fn multipart_decode(b: &[u8], boundary: &str) -> Result<Vec<Part>, String> {
    if boundary.is_empty() || boundary.len() > 70 {
        return Err(format!("boundary {boundary:?}"));
    }
    let find = |h: &[u8], n: &[u8]| h.windows(n.len()).position(|w| w == n);
    let first = format!("--{boundary}");
    let mut rest = b.strip_prefix(b"\r\n").unwrap_or(b).strip_prefix(first.as_bytes()).ok_or_else(|| format!("the body does not begin with the boundary {boundary}: {}", show(b)))?;
    let delim = format!("\r\n--{boundary}");
    let mut v = Vec::new();
    loop {
        if let Some(r) = rest.strip_prefix(b"--") {
            if !(r.is_empty() || r == b"\r\n") {
                return Err(format!("bytes after the closing boundary: {}", show(r)));
            }
            return Ok(v);
        }
        rest = rest.strip_prefix(b"\r\n").ok_or("no line break after a boundary")?;
        let e = find(rest, delim.as_bytes()).ok_or("a part does not end")?;
        let part = &rest[..e];
        rest = &rest[e + delim.len()..];
        let (head, content) = if let Some(c) = part.strip_prefix(b"\r\n") {
            (&b""[..], c)
        } else {
            let h = find(part, b"\r\n\r\n").ok_or("a part head does not end")?;
            (&part[..h], &part[h + 4..])
        };
        let head = std::str::from_utf8(head).map_err(|_| "a part head is no text")?;
        let mut name = None;
        let mut filename = None;
        for l in head.split("\r\n") {
            let Some((n, v)) = l.split_once(':') else { return Err(format!("part header {l:?}")) };
            if n.eq_ignore_ascii_case("content-disposition") {
                let v = v.trim();
                if !v.starts_with("form-data") {
                    return Err(format!("disposition {v:?}"));
                }
                name = quoted(v, "; name=\"");
                filename = quoted(v, "; filename=\"");
            }
        }
        v.push(Part { name: name.ok_or("a part without name")?, filename, content: content.to_vec() });
    }
}
fn quoted(s: &str, key: &str) -> Option<String> {
    let i = s.find(key)? + key.len();
    let e = s[i..].find('"')?;
    Some(s[i..i + e].to_string())
}
fn check_parts(f: &[(String, String)], got: &[Part], files: &dyn Fn(&str) -> Option<Vec<u8>>) -> Result<(), String> {
    let texts: Vec<(String, Vec<u8>)> = f.iter().filter(|(_, v)| !v.starts_with('@')).map(|(n, v)| (n.clone(), v.clone().into_bytes())).collect();
    let mut fs: Vec<(String, Vec<u8>)> = Vec::new();
    for (n, v) in f.iter().filter(|(_, v)| v.starts_with('@')) {
        fs.push((n.clone(), files(&v[1..]).ok_or("unknown file in the message")?));
    }
    let gt: Vec<(String, Vec<u8>)> = got.iter().filter(|p| p.filename.is_none()).map(|p| (p.name.clone(), p.content.clone())).collect();
    let gf: Vec<(String, Vec<u8>)> = got.iter().filter(|p| p.filename.is_some()).map(|p| (p.name.clone(), p.content.clone())).collect();
    let brief = |v: &[(String, Vec<u8>)]| v.iter().map(|(n, c)| format!("{n}={}", show(c))).collect::<Vec<_>>().join(", ");
    if gt != texts {
        return Err(format!("text parts: expected [{}], decoded [{}]", brief(&texts), brief(&gt)));
    }
    if gf != fs {
        return Err(format!("file parts: expected [{}], decoded [{}]", brief(&fs), brief(&gf)));
    }
    Ok(())
}

/// A world in which every name resolves to one address that accepts and answers `resp`.
pub fn world(cfg: &mut Cfg, resp: &[u8]) {
    cfg.clear();
    cfg.default_open = 1;
    cfg.add_host("", &[v4(10, 0, 0, 1)]);
    cfg.add_rule(b"", resp);
}
pub const OK: &[u8] = b"HTTP/1.1 200 OK\r\nA: b\r\n\r\nhello";

#[derive(Debug)]
pub struct Obs {
    pub end: End,
    pub out: String,
    pub conns: Vec<(String, i64)>,
    pub sent: Vec<Vec<u8>>,
    pub resolved: Vec<String>,
    pub shown: Vec<String>,
    pub avro: Vec<u8>,
    pub status: u32,
}
impl Obs {
    pub fn recs(&self) -> Result<Vec<Rec>, String> {
        avro::recs(&self.avro).map_err(|e| format!("the records cannot be read back: {e}"))
    }
    pub fn one(&self) -> Result<Rec, String> {
        let mut r = self.recs()?;
        if r.len() != 1 || self.shown.len() != 1 {
            return Err(format!("{} records for one call", r.len()));
        }
        Ok(r.remove(0))
    }
}
/// Runs `text` in `s` inside the configured world.
pub fn observe(cx: &mut Cx, s: &mut Session, text: &str) -> Obs {
    sut::begin();
    let end = s.eval(text);
    sut::end();
    let t = sut::trace();
    let mut conns: Vec<(String, i64)> = Vec::new();
    let mut sent: Vec<Vec<u8>> = Vec::new();
    let mut resolved = Vec::new();
    for e in t.events() {
        match e.typ {
            E_CONNECT => {
                let i = e.a as usize;
                while conns.len() <= i {
                    conns.push((String::new(), -1));
                    sent.push(Vec::new());
                }
                if e.len > 0 {
                    conns[i].0 = String::from_utf8_lossy(t.data(e)).into_owned();
                }
                conns[i].1 = e.b;
            }
            E_SEND if e.b >= 0 => sent[e.a as usize].extend_from_slice(t.data(e)),
            E_RESOLVE => resolved.push(String::from_utf8_lossy(t.data(e)).into_owned()),
            _ => {}
        }
    }
    cx.transitions += t.nev as u64;
    cx.traces += 1;
    let out = String::from_utf8_lossy(&t.out()).into_owned();
    let status = t.status;
    let (shown, avro) = s.take("test", 3, 5);
    Obs { end, out, conns, sent, resolved, shown, avro, status }
}
