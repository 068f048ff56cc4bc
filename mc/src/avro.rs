//! Independent reader of Avro object container files, directed by the schema embedded in the file.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn str(&self) -> Option<&str> {
        match self {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
}
pub fn json(text: &str) -> Result<J, String> {
    let b: Vec<char> = text.chars().collect();
    let mut i = 0;
    let v = jval(&b, &mut i)?;
    ws(&b, &mut i);
    if i != b.len() {
        return Err("text after the json value".into());
    }
    Ok(v)
}
fn ws(b: &[char], i: &mut usize) {
    while *i < b.len() && matches!(b[*i], ' ' | '\t' | '\r' | '\n') {
        *i += 1;
    }
}
fn jval(b: &[char], i: &mut usize) -> Result<J, String> {
    ws(b, i);
    let c = *b.get(*i).ok_or("json ends early")?;
    match c {
        '{' => {
            *i += 1;
            let mut v = Vec::new();
            ws(b, i);
            if b.get(*i) == Some(&'}') {
                *i += 1;
                return Ok(J::Obj(v));
            }
            loop {
                let k = match jval(b, i)? {
                    J::Str(s) => s,
                    _ => return Err("object key is no string".into()),
                };
                ws(b, i);
                if b.get(*i) != Some(&':') {
                    return Err("no colon".into());
                }
                *i += 1;
                v.push((k, jval(b, i)?));
                ws(b, i);
                match b.get(*i) {
                    Some(',') => *i += 1,
                    Some('}') => {
                        *i += 1;
                        return Ok(J::Obj(v));
                    }
                    _ => return Err("bad object".into()),
                }
            }
        }
        '[' => {
            *i += 1;
            let mut v = Vec::new();
            ws(b, i);
            if b.get(*i) == Some(&']') {
                *i += 1;
                return Ok(J::Arr(v));
            }
            loop {
                v.push(jval(b, i)?);
                ws(b, i);
                match b.get(*i) {
                    Some(',') => *i += 1,
                    Some(']') => {
                        *i += 1;
                        return Ok(J::Arr(v));
                    }
                    _ => return Err("bad array".into()),
                }
            }
        }
        '"' => {
            *i += 1;
            let mut s = String::new();
            loop {
                let c = *b.get(*i).ok_or("string ends early")?;
                *i += 1;
                match c {
                    '"' => return Ok(J::Str(s)),
                    '\\' => {
                        let e = *b.get(*i).ok_or("string ends early")?;
                        *i += 1;
                        match e {
                            'n' => s.push('\n'),
                            't' => s.push('\t'),
                            'r' => s.push('\r'),
                            'b' => s.push('\u{8}'),
                            'f' => s.push('\u{c}'),
                            'u' => {
                                let h: String = b.get(*i..*i + 4).ok_or("bad escape")?.iter().collect();
                                *i += 4;
                                s.push(char::from_u32(u32::from_str_radix(&h, 16).map_err(|_| "bad escape")?).unwrap_or('\u{fffd}'));
                            }
                            c => s.push(c),
                        }
                    }
                    c => s.push(c),
                }
            }
        }
        _ => {
            let st = *i;
            while *i < b.len() && (b[*i].is_ascii_alphanumeric() || matches!(b[*i], '+' | '-' | '.')) {
                *i += 1;
            }
            let w: String = b[st..*i].iter().collect();
            match w.as_str() {
                "null" => Ok(J::Null),
                "true" => Ok(J::Bool(true)),
                "false" => Ok(J::Bool(false)),
                w => w.parse().map(J::Num).map_err(|_| format!("bad json word {w:?}")),
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum A {
    Null,
    Bool(bool),
    Int(i64),
    Bytes(Vec<u8>),
    Str(String),
    Arr(Vec<A>),
    Rec(Vec<(String, A)>),
}
impl A {
    pub fn get(&self, k: &str) -> Option<&A> {
        match self {
            A::Rec(v) => v.iter().find(|(n, _)| n == k).map(|(_, v)| v),
            _ => None,
        }
    }
}
pub struct Dec<'a> {
    pub b: &'a [u8],
    pub i: usize,
}
impl<'a> Dec<'a> {
    pub fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if n > self.b.len() - self.i {
            return Err(format!("{} bytes wanted at {}, {} left", n, self.i, self.b.len() - self.i));
        }
        let r = &self.b[self.i..self.i + n];
        self.i += n;
        Ok(r)
    }
    pub fn long(&mut self) -> Result<i64, String> {
        let mut z: u64 = 0;
        for k in 0..10 {
            let c = self.take(1)?[0];
            if k == 9 && c > 1 {
                return Err("varint overflow".into());
            }
            z |= ((c & 0x7f) as u64) << (7 * k);
            if c & 0x80 == 0 {
                return Ok(((z >> 1) as i64) ^ -((z & 1) as i64));
            }
        }
        Err("varint too long".into())
    }
    pub fn bytes(&mut self) -> Result<&'a [u8], String> {
        let n = self.long()?;
        if n < 0 {
            return Err(format!("length {n}"));
        }
        self.take(n as usize)
    }
    fn string(&mut self) -> Result<String, String> {
        let b = self.bytes()?;
        String::from_utf8(b.to_vec()).map_err(|_| "a string is not UTF-8".into())
    }
    pub fn value(&mut self, s: &J) -> Result<A, String> {
        let t = match s {
            J::Str(t) => t.as_str(),
            J::Obj(_) => match s.get("type") {
                Some(J::Str(t)) => t.as_str(),
                Some(o) => return self.value(o),
                None => return Err("schema without type".into()),
            },
            J::Arr(u) => {
                let n = self.long()?;
                let b = u.get(n as usize).ok_or("bad union branch")?;
                return self.value(b);
            }
            _ => return Err("bad schema".into()),
        };
        match t {
            "null" => Ok(A::Null),
            "boolean" => match self.take(1)?[0] {
                0 => Ok(A::Bool(false)),
                1 => Ok(A::Bool(true)),
                x => Err(format!("boolean {x}")),
            },
            "int" => {
                let v = self.long()?;
                if v < i32::MIN as i64 || v > i32::MAX as i64 {
                    return Err(format!("int {v} out of range"));
                }
                Ok(A::Int(v))
            }
            "long" => Ok(A::Int(self.long()?)),
            "bytes" => Ok(A::Bytes(self.bytes()?.to_vec())),
            "string" => Ok(A::Str(self.string()?)),
            "array" => {
                let items = s.get("items").ok_or("array without items")?;
                let mut v = Vec::new();
                loop {
                    let mut n = self.long()?;
                    if n == 0 {
                        return Ok(A::Arr(v));
                    }
                    if n < 0 {
                        let size = self.long()?;
                        if size < 0 {
                            return Err("negative block size".into());
                        }
                        n = -n;
                    }
                    if n as usize > self.b.len() {
                        return Err(format!("array block of {n} items"));
                    }
                    for _ in 0..n {
                        v.push(self.value(items)?);
                    }
                }
            }
            "record" => {
                let mut v = Vec::new();
                match s.get("fields") {
                    Some(J::Arr(f)) => {
                        for f in f {
                            let n = f.get("name").and_then(|n| n.str()).ok_or("field without name")?;
                            let t = f.get("type").ok_or("field without type")?;
                            v.push((n.to_string(), self.value(t).map_err(|e| format!("field {n}: {e}"))?));
                        }
                    }
                    _ => return Err("record without fields".into()),
                }
                Ok(A::Rec(v))
            }
            t => Err(format!("unknown type {t:?}")),
        }
    }
}
pub struct File {
    pub blocks: Vec<Vec<A>>,
    /// bytes at the end that are no complete block
    pub rest: usize,
    /// offset of the end of the header and of every complete block
    pub ends: Vec<usize>,
}
impl File {
    pub fn records(&self) -> Vec<A> {
        self.blocks.iter().flatten().cloned().collect()
    }
}
/// Reads a container file. `partial`: an incomplete last block is allowed (and reported in `rest`).
pub fn read(b: &[u8], partial: bool) -> Result<File, String> {
    let mut d = Dec { b, i: 0 };
    let head = |d: &mut Dec| -> Result<(J, Vec<u8>), String> {
        if d.take(4)? != b"Obj\x01" {
            return Err("no Avro file".into());
        }
        let mut meta: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        loop {
            let mut n = d.long()?;
            if n == 0 {
                break;
            }
            if n < 0 {
                d.long()?;
                n = -n;
            }
            for _ in 0..n {
                let k = d.string()?;
                let v = d.bytes()?.to_vec();
                meta.insert(k, v);
            }
        }
        let sync = d.take(16)?.to_vec();
        if let Some(c) = meta.get("avro.codec") {
            if c != b"null" {
                return Err("codec is not null".into());
            }
        }
        let s = meta.get("avro.schema").ok_or("no schema")?;
        let s = json(std::str::from_utf8(s).map_err(|_| "schema is not UTF-8")?)?;
        Ok((s, sync))
    };
    let (schema, sync) = match head(&mut d) {
        Ok(x) => x,
        Err(_) if partial => return Ok(File { blocks: vec![], rest: b.len(), ends: vec![] }),
        Err(e) => return Err(format!("header: {e}")),
    };
    let mut blocks = Vec::new();
    let mut ends = vec![d.i];
    loop {
        let start = d.i;
        if start == b.len() {
            return Ok(File { blocks, rest: 0, ends });
        }
        let mut block = |d: &mut Dec| -> Result<Vec<A>, (bool, String)> {
            // (true, ..): could be cut off
            let n = d.long().map_err(|e| (true, e))?;
            let size = d.long().map_err(|e| (true, e))?;
            if n <= 0 || size < 0 {
                return Err((false, format!("block of {n} records in {size} bytes")));
            }
            let data = d.take(size as usize).map_err(|e| (true, e))?;
            let mark = d.take(16).map_err(|e| (true, e))?;
            if mark != &sync[..] {
                return Err((false, "wrong sync marker".into()));
            }
            let mut e = Dec { b: data, i: 0 };
            let mut v = Vec::new();
            for k in 0..n {
                v.push(e.value(&schema).map_err(|m| (false, format!("record {k}: {m}")))?);
            }
            if e.i != data.len() {
                return Err((false, format!("{} bytes left over in a block", data.len() - e.i)));
            }
            Ok(v)
        };
        match block(&mut d) {
            Ok(v) => {
                blocks.push(v);
                ends.push(d.i);
            }
            Err((true, _)) if partial => return Ok(File { blocks, rest: b.len() - start, ends }),
            Err((_, e)) => return Err(format!("block {} at byte {start}: {e}", blocks.len())),
        }
    }
}

/// A decoded record.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Rec {
    pub test: String,
    pub thread: i64,
    pub number: i64,
    pub order: i64,
    pub start: i64,
    pub end: i64,
    pub total: i64,
    pub resolve: i64,
    pub connect: i64,
    pub write: i64,
    pub delay: i64,
    pub read: i64,
    pub name: String,
    pub method: String,
    pub url: String,
    pub version: String,
    pub headers: Vec<(String, String)>,
    pub body: String,
    pub rversion: String,
    pub status: i64,
    pub reason: String,
    pub rheaders: Vec<(String, String)>,
    pub rbody: String,
    pub asserts: Vec<(String, String, String, String, bool)>,
    pub error: String,
}
pub fn rec(a: &A) -> Result<Rec, String> {
    let s = |k: &str| match a.get(k) {
        Some(A::Str(s)) => Ok(s.clone()),
        o => Err(format!("field {k}: {o:?}")),
    };
    let n = |k: &str| match a.get(k) {
        Some(A::Int(i)) => Ok(*i),
        o => Err(format!("field {k}: {o:?}")),
    };
    let h = |k: &str| match a.get(k) {
        Some(A::Arr(v)) => v
            .iter()
            .map(|x| match x {
                A::Arr(p) => match &p[..] {
                    [A::Str(a), A::Str(b)] => Ok((a.clone(), b.clone())),
                    _ => Err(format!("field {k}: header {p:?}")),
                },
                x => Err(format!("field {k}: header {x:?}")),
            })
            .collect::<Result<Vec<_>, _>>(),
        o => Err(format!("field {k}: {o:?}")),
    };
    let asserts = match a.get("asserts") {
        Some(A::Arr(v)) => v
            .iter()
            .map(|x| match (x.get("expr"), x.get("left"), x.get("compare"), x.get("right"), x.get("result")) {
                (Some(A::Str(e)), Some(A::Str(l)), Some(A::Str(c)), Some(A::Str(r)), Some(A::Bool(b))) => Ok((e.clone(), l.clone(), c.clone(), r.clone(), *b)),
                _ => Err(format!("assertion {x:?}")),
            })
            .collect::<Result<Vec<_>, _>>()?,
        o => return Err(format!("field asserts: {o:?}")),
    };
    Ok(Rec {
        test: s("name")?,
        thread: n("thread")?,
        number: n("number")?,
        order: n("order")?,
        start: n("time_start")?,
        end: n("time_end")?,
        total: n("time_total")?,
        resolve: n("time_resolve")?,
        connect: n("time_connect")?,
        write: n("time_write")?,
        delay: n("time_delay")?,
        read: n("time_read")?,
        name: s("request_name")?,
        method: s("request_method")?,
        url: s("request_url")?,
        version: s("request_version")?,
        headers: h("request_headers")?,
        body: s("request_body")?,
        rversion: s("response_version")?,
        status: n("response_status")?,
        reason: s("response_reason")?,
        rheaders: h("response_headers")?,
        rbody: s("response_body")?,
        asserts,
        error: s("error")?,
    })
}
pub fn recs(b: &[u8]) -> Result<Vec<Rec>, String> {
    read(b, false)?.records().iter().map(rec).collect()
}
