//! Reference implementation of the language, written from its documented behaviour: lexer, parser
//! (by grammar), evaluator. Shares no code with the code under test.
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Null,
    Int(i64),
    Float(f64),
    Bool(bool),
    Str(String),
    Arr(Vec<V>),
    Map(BTreeMap<String, V>),
}
impl V {
    pub fn s(s: &str) -> V {
        V::Str(s.to_string())
    }
    /// the text inside collections and in tagged form
    pub fn debug(&self) -> String {
        match self {
            V::Null => "Null".into(),
            V::Int(i) => format!("Integer({i})"),
            V::Float(f) => format!("Float({f:?})"),
            V::Bool(b) => format!("Boolean({b})"),
            V::Str(s) => format!("String({s:?})"),
            V::Arr(a) => format!("Array([{}])", a.iter().map(|v| v.debug()).collect::<Vec<_>>().join(", ")),
            V::Map(m) => format!("Map({})", Self::pairs(m)),
        }
    }
    fn pairs(m: &BTreeMap<String, V>) -> String {
        format!("{{{}}}", m.iter().map(|(k, v)| format!("{:?}: {}", k, v.debug())).collect::<Vec<_>>().join(", "))
    }
    /// the text shown to the user
    pub fn show(&self) -> String {
        match self {
            V::Null => "null".into(),
            V::Int(i) => format!("{i}"),
            V::Float(f) => format!("{f}"),
            V::Bool(b) => format!("{b}"),
            V::Str(s) => s.clone(),
            V::Arr(a) => format!("[{}]", a.iter().map(|v| v.debug()).collect::<Vec<_>>().join(", ")),
            V::Map(m) => Self::pairs(m),
        }
    }
    pub fn truthy(&self) -> bool {
        !matches!(self, V::Null | V::Bool(false))
    }
    pub fn eq(&self, o: &V) -> bool {
        match (self, o) {
            (V::Null, V::Null) => true,
            (V::Int(a), V::Int(b)) => a == b,
            (V::Float(a), V::Float(b)) => a == b,
            (V::Int(a), V::Float(b)) | (V::Float(b), V::Int(a)) => (*a as f64) == *b,
            (V::Bool(a), V::Bool(b)) => a == b,
            (V::Str(a), V::Str(b)) => a == b,
            (V::Arr(a), V::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.eq(y)),
            (V::Map(a), V::Map(b)) => a.len() == b.len() && a.iter().zip(b).all(|((j, x), (k, y))| j == k && x.eq(y)),
            _ => false,
        }
    }
    fn less(&self, o: &V, or_equal: bool) -> bool {
        fn f(a: f64, b: f64, e: bool) -> bool {
            if e {
                a <= b
            } else {
                a < b
            }
        }
        match (self, o) {
            (V::Int(a), V::Int(b)) => {
                if or_equal {
                    a <= b
                } else {
                    a < b
                }
            }
            (V::Float(a), V::Float(b)) => f(*a, *b, or_equal),
            (V::Int(a), V::Float(b)) => f(*a as f64, *b, or_equal),
            (V::Float(a), V::Int(b)) => f(*a, *b as f64, or_equal),
            (V::Str(a), V::Str(b)) => {
                let c = a.as_bytes().cmp(b.as_bytes());
                if or_equal {
                    c.is_le()
                } else {
                    c.is_lt()
                }
            }
            _ => false,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Int(String),
    Float(String),
    Str(String),
    Tpl(String),
    Id(String),
    Kw(&'static str), // true false let if else request test
    P(&'static str),
    Bad(char),
}
const PUNCT: [&str; 30] = [
    "==", "!=", "<=", ">=", "<<", ">>", "||", "&&", "=", "!", "+", "-", "*", "/", "%", "^", "|", "&", "<", ">", ",", ";", ":", ".", "(", ")", "{", "}", "[", "]",
];
pub fn lex(text: &str) -> Vec<Tok> {
    let c: Vec<char> = text.chars().collect();
    let mut i = 0;
    let mut out = Vec::new();
    while i < c.len() {
        let ch = c[i];
        if ch.is_whitespace() {
            i += 1;
        } else if ch == '"' || ch == '`' {
            let mut j = i + 1;
            while j < c.len() && c[j] != ch {
                j += 1;
            }
            let s: String = c[i + 1..j].iter().collect();
            out.push(if ch == '"' { Tok::Str(s) } else { Tok::Tpl(s) });
            i = j + 1;
        } else if ch.is_ascii_digit() {
            let mut j = i;
            while j < c.len() && (c[j].is_ascii_digit() || c[j] == '.') {
                j += 1;
            }
            let s: String = c[i..j].iter().collect();
            out.push(if s.contains('.') { Tok::Float(s) } else { Tok::Int(s) });
            i = j;
        } else if ch.is_ascii_alphabetic() || ch == '_' {
            let mut j = i;
            while j < c.len() && (c[j].is_ascii_alphanumeric() || c[j] == '_') {
                j += 1;
            }
            let s: String = c[i..j].iter().collect();
            let kw = ["true", "false", "let", "if", "else", "request", "test"];
            out.push(match kw.iter().find(|k| **k == s) {
                Some(k) => Tok::Kw(k),
                None => Tok::Id(s),
            });
            i = j;
        } else {
            let two: String = c[i..(i + 2).min(c.len())].iter().collect();
            let one = ch.to_string();
            if let Some(p) = PUNCT.iter().find(|p| **p == two) {
                out.push(Tok::P(p));
                i += 2;
            } else if let Some(p) = PUNCT.iter().find(|p| **p == one) {
                out.push(Tok::P(p));
                i += 1;
            } else {
                out.push(Tok::Bad(ch));
                i += 1;
            }
        }
    }
    out
}

#[derive(Clone, Debug, PartialEq)]
pub enum X {
    Lit(V),
    Arr(Vec<X>),
    Map(Vec<(X, X)>),
    Index(Box<X>, Box<X>),
    Field(Box<X>, String),
    Id(String),
    Let(String, Box<X>),
    Un(&'static str, Box<X>),
    Bin(&'static str, Box<X>, Box<X>),
    Paren(Box<X>),
    If(Box<X>, Vec<X>, Vec<X>),
    Call(String, Vec<X>),
}
pub fn level(op: &str) -> u8 {
    match op {
        "||" => 1,
        "&&" => 2,
        "|" => 3,
        "^" => 4,
        "&" => 5,
        "==" | "!=" => 6,
        "<" | ">" | "<=" | ">=" => 7,
        "<<" | ">>" => 8,
        "+" | "-" => 9,
        "*" | "/" | "%" => 10,
        _ => 0,
    }
}
pub const BINOPS: [&str; 18] = ["+", "-", "*", "/", "%", "^", "|", "&", "<<", ">>", "&&", "||", "<", ">", "<=", ">=", "==", "!="];

#[derive(Default, Clone, Debug)]
pub struct Prog {
    pub exprs: Vec<X>,
    pub requests: HashMap<String, (String, Vec<X>)>,
    pub tests: HashMap<String, Vec<X>>,
}
struct P {
    t: Vec<Tok>,
    i: usize,
}
type R<T> = Result<T, ()>;
impl P {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn is(&self, p: &str) -> bool {
        matches!(self.peek(), Some(Tok::P(q)) if *q == p)
    }
    fn eat(&mut self, p: &str) -> bool {
        let b = self.is(p);
        if b {
            self.i += 1
        }
        b
    }
    fn want(&mut self, p: &str) -> R<()> {
        if self.eat(p) {
            Ok(())
        } else {
            Err(())
        }
    }
    fn ident(&mut self) -> R<String> {
        match self.peek() {
            Some(Tok::Id(s)) => {
                let s = s.clone();
                self.i += 1;
                Ok(s)
            }
            _ => Err(()),
        }
    }
    /// binary expression of operators tighter than `min`
    fn expr(&mut self, min: u8) -> R<X> {
        if matches!(self.peek(), Some(Tok::Kw("let"))) {
            self.i += 1;
            let n = self.ident()?;
            self.want("=")?;
            let v = self.expr(0)?;
            self.eat(";");
            return Ok(X::Let(n, Box::new(v)));
        }
        let mut left = self.unary()?;
        loop {
            let op = match self.peek() {
                Some(Tok::P(p)) if level(p) > min => *p,
                _ => return Ok(left),
            };
            self.i += 1;
            let right = self.expr(level(op))?;
            left = X::Bin(op, Box::new(left), Box::new(right));
        }
    }
    fn unary(&mut self) -> R<X> {
        for op in ["!", "-"] {
            if self.eat(op) {
                // a let is an operand like any other
                let r = if matches!(self.peek(), Some(Tok::Kw("let"))) { self.expr(0)? } else { self.unary()? };
                return Ok(X::Un(op, Box::new(r)));
            }
        }
        let p = self.primary()?;
        self.postfix(p)
    }
    fn postfix(&mut self, mut x: X) -> R<X> {
        loop {
            if self.eat("[") {
                let i = self.expr(0)?;
                self.want("]")?;
                x = X::Index(Box::new(x), Box::new(i));
            } else if self.eat(".") {
                x = X::Field(Box::new(x), self.ident()?);
            } else if self.is("(") {
                self.i += 1;
                let a = self.list(")")?;
                match x {
                    X::Id(n) => x = X::Call(n, a),
                    _ => return Err(()),
                }
            } else {
                return Ok(x);
            }
        }
    }
    fn list(&mut self, end: &str) -> R<Vec<X>> {
        let mut v = Vec::new();
        while !self.is(end) {
            v.push(self.expr(0)?);
            if !self.is(end) {
                self.want(",")?;
            }
        }
        self.want(end)?;
        Ok(v)
    }
    fn block(&mut self) -> R<Vec<X>> {
        self.want("{")?;
        let mut v = Vec::new();
        while !self.is("}") {
            v.push(self.expr(0)?);
            self.eat(";");
        }
        self.want("}")?;
        Ok(v)
    }
    fn primary(&mut self) -> R<X> {
        let t = self.peek().cloned().ok_or(())?;
        match t {
            Tok::Int(s) => {
                self.i += 1;
                s.parse::<i64>().map(|i| X::Lit(V::Int(i))).map_err(|_| ())
            }
            Tok::Float(s) => {
                self.i += 1;
                s.parse::<f64>().map(|i| X::Lit(V::Float(i))).map_err(|_| ())
            }
            Tok::Str(s) => {
                self.i += 1;
                Ok(X::Lit(V::Str(s)))
            }
            Tok::Kw("true") => {
                self.i += 1;
                Ok(X::Lit(V::Bool(true)))
            }
            Tok::Kw("false") => {
                self.i += 1;
                Ok(X::Lit(V::Bool(false)))
            }
            Tok::Id(s) => {
                self.i += 1;
                Ok(X::Id(s))
            }
            Tok::P("(") => {
                self.i += 1;
                let x = self.expr(0)?;
                self.want(")")?;
                Ok(X::Paren(Box::new(x)))
            }
            Tok::P("[") => {
                self.i += 1;
                Ok(X::Arr(self.list("]")?))
            }
            Tok::P("{") => {
                self.i += 1;
                let mut v = Vec::new();
                while !self.is("}") {
                    let k = self.expr(0)?;
                    self.want(":")?;
                    let x = self.expr(0)?;
                    v.push((k, x));
                    if !self.is("}") {
                        self.want(",")?;
                    }
                }
                self.want("}")?;
                Ok(X::Map(v))
            }
            Tok::Kw("if") => {
                self.i += 1;
                self.want("(")?;
                let c = self.expr(0)?;
                self.want(")")?;
                let a = self.block()?;
                let mut b = Vec::new();
                if matches!(self.peek(), Some(Tok::Kw("else"))) {
                    self.i += 1;
                    b = self.block()?;
                }
                Ok(X::If(Box::new(c), a, b))
            }
            _ => Err(()),
        }
    }
}
pub fn parse(text: &str) -> R<Prog> {
    let mut p = P { t: lex(text), i: 0 };
    let mut prog = Prog::default();
    while p.peek().is_some() {
        match p.peek() {
            Some(Tok::Kw("request")) => {
                p.i += 1;
                let n = p.ident()?;
                let m = match p.peek() {
                    Some(Tok::Tpl(s)) => s.clone(),
                    _ => return Err(()),
                };
                p.i += 1;
                let a = if p.eat("[") { p.list("]")? } else { Vec::new() };
                prog.requests.insert(n, (m, a));
            }
            Some(Tok::Kw("test")) => {
                p.i += 1;
                let n = p.ident()?;
                let b = p.block()?;
                prog.tests.insert(n, b);
            }
            _ => prog.exprs.push(p.expr(0)?),
        }
        p.eat(";");
    }
    Ok(prog)
}

/// What a request call does, decided by the check.
pub type Hook = Rc<dyn Fn(&mut Env, &str, &str) -> Option<V>>;
#[derive(Default, Clone)]
pub struct Env {
    pub vars: HashMap<String, V>,
    pub out: String,
    pub requests: HashMap<String, (String, Vec<X>)>,
    pub calls: Vec<(String, String)>, // request name, expanded message
    pub responder: Option<Hook>,
    pub steps: u64,
}
/// The placeholders of a text: byte range and name.
pub fn holes(s: &str) -> Vec<(usize, usize, String)> {
    let b: Vec<(usize, char)> = s.char_indices().collect();
    let mut v = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i].1 == '{' {
            let mut j = i + 1;
            while j < b.len() && b[j].1.is_whitespace() {
                j += 1;
            }
            let st = j;
            if j < b.len() && (b[j].1.is_ascii_alphabetic() || b[j].1 == '_') {
                while j < b.len() && (b[j].1.is_ascii_alphanumeric() || b[j].1 == '_') {
                    j += 1;
                }
                let en = j;
                while j < b.len() && b[j].1.is_whitespace() {
                    j += 1;
                }
                if j < b.len() && b[j].1 == '}' {
                    v.push((b[i].0, b[j].0 + 1, b[st..en].iter().map(|x| x.1).collect()));
                    i = j + 1;
                    continue;
                }
            }
        }
        i += 1;
    }
    v
}
pub fn fill(s: &str, mut f: impl FnMut(usize, &str) -> String) -> String {
    let mut out = String::new();
    let mut at = 0;
    for (k, (a, b, n)) in holes(s).into_iter().enumerate() {
        out.push_str(&s[at..a]);
        out.push_str(&f(k, &n));
        at = b;
    }
    out.push_str(&s[at..]);
    out
}
pub fn binop(op: &str, l: V, r: V) -> R<V> {
    use V::*;
    Ok(match op {
        "==" => Bool(l.eq(&r)),
        "!=" => Bool(!l.eq(&r)),
        "<" => Bool(l.less(&r, false)),
        "<=" => Bool(l.less(&r, true)),
        ">" => Bool(r.less(&l, false)),
        ">=" => Bool(r.less(&l, true)),
        _ => match (op, l, r) {
            ("+", Str(a), Str(b)) => Str(format!("{a}{b}")),
            (_, Int(a), Int(b)) => {
                let (x, y) = (a as i128, b as i128);
                let w: i128 = match op {
                    "+" => x + y,
                    "-" => x - y,
                    "*" => x * y,
                    "/" if y != 0 => x / y,
                    "%" if y != 0 => x % y,
                    "&" => x & y,
                    "|" => x | y,
                    "^" => x ^ y,
                    // the bits that leave the 64 are lost
                    "<<" if (0..64).contains(&b) => ((a as u64) << b) as i64 as i128,
                    ">>" if (0..64).contains(&b) => x >> y,
                    _ => return Err(()),
                };
                Int(i64::try_from(w).map_err(|_| ())?)
            }
            (_, a @ (Int(_) | Float(_)), b @ (Int(_) | Float(_))) => {
                let f = |v: V| match v {
                    Int(i) => i as f64,
                    Float(f) => f,
                    _ => 0.0,
                };
                let (x, y) = (f(a), f(b));
                Float(match op {
                    "+" => x + y,
                    "-" => x - y,
                    "*" => x * y,
                    "/" => x / y,
                    "%" => x % y,
                    _ => return Err(()),
                })
            }
            _ => return Err(()),
        },
    })
}
impl Env {
    pub fn block(&mut self, xs: &[X]) -> R<V> {
        let mut v = V::Null;
        for x in xs {
            v = self.eval(x)?;
        }
        Ok(v)
    }
    fn args(&mut self, xs: &[X]) -> R<Vec<V>> {
        let mut v = Vec::new();
        for x in xs {
            v.push(self.eval(x)?);
        }
        Ok(v)
    }
    pub fn eval(&mut self, x: &X) -> R<V> {
        self.steps += 1;
        Ok(match x {
            X::Lit(v) => v.clone(),
            X::Paren(x) => self.eval(x)?,
            X::Arr(xs) => V::Arr(self.args(xs)?),
            X::Map(ps) => {
                let mut m = BTreeMap::new();
                for (k, v) in ps {
                    let k = self.eval(k)?;
                    let v = self.eval(v)?;
                    m.insert(k.show(), v);
                }
                V::Map(m)
            }
            X::Index(a, i) => {
                let a = self.eval(a)?;
                let i = self.eval(i)?;
                match (a, i) {
                    (V::Arr(v), V::Int(i)) => {
                        if i >= 0 && (i as u64) < v.len() as u64 {
                            v[i as usize].clone()
                        } else {
                            V::Null
                        }
                    }
                    (V::Map(m), k) => m.get(&k.show()).cloned().unwrap_or(V::Null),
                    _ => return Err(()),
                }
            }
            X::Field(a, f) => match self.eval(a)? {
                V::Map(m) => m.get(f).cloned().unwrap_or(V::Null),
                _ => return Err(()),
            },
            X::Id(n) => self.vars.get(n).cloned().ok_or(())?,
            X::Let(n, x) => {
                let v = self.eval(x)?;
                self.vars.insert(n.clone(), v.clone());
                v
            }
            X::Un(op, x) => match (*op, self.eval(x)?) {
                ("!", V::Null | V::Bool(false)) => V::Bool(true),
                ("!", V::Int(i)) => V::Int(!i),
                ("!", _) => V::Bool(false),
                ("-", V::Int(i)) => V::Int(i.checked_neg().ok_or(())?),
                ("-", V::Float(f)) => V::Float(-f),
                _ => return Err(()),
            },
            X::Bin("&&", a, b) => {
                let a = self.eval(a)?;
                if a.truthy() {
                    self.eval(b)?
                } else {
                    a
                }
            }
            X::Bin("||", a, b) => {
                let a = self.eval(a)?;
                if a.truthy() {
                    a
                } else {
                    self.eval(b)?
                }
            }
            X::Bin(op, a, b) => {
                let a = self.eval(a)?;
                let b = self.eval(b)?;
                binop(op, a, b)?
            }
            X::If(c, a, b) => {
                if self.eval(c)?.truthy() {
                    self.block(a)?
                } else {
                    self.block(b)?
                }
            }
            X::Call(n, xs) => {
                let args = self.args(xs)?;
                self.call(n, args)?
            }
        })
    }
    fn format(args: Vec<V>) -> R<String> {
        match args.first() {
            Some(V::Str(s)) => {
                if holes(s).len() != args.len() - 1 {
                    return Err(());
                }
                Ok(fill(s, |k, _| args[k + 1].show()))
            }
            _ => Err(()),
        }
    }
    fn call(&mut self, n: &str, args: Vec<V>) -> R<V> {
        if let Some((msg, _)) = self.requests.get(n).cloned() {
            let text = fill(&msg, |_, n| self.vars.get(n).map(|v| v.show()).unwrap_or_else(|| "null".into()));
            self.calls.push((n.to_string(), text.clone()));
            if let Some(h) = self.responder.clone() {
                if let Some(v) = h(self, n, &text) {
                    return Ok(v);
                }
            }
            return Ok(V::Null);
        }
        match n {
            "format" => Ok(V::Str(Self::format(args)?)),
            "print" => {
                let s = Self::format(args)?;
                self.out.push_str(&s);
                Ok(V::Null)
            }
            "println" => {
                let s = Self::format(args)?;
                self.out.push_str(&s);
                self.out.push('\n');
                Ok(V::Null)
            }
            "length" => match &args[..] {
                [V::Str(s)] => Ok(V::Int(s.len() as i64)),
                [V::Arr(a)] => Ok(V::Int(a.len() as i64)),
                [V::Map(m)] => Ok(V::Int(m.len() as i64)),
                _ => Err(()),
            },
            "append" => {
                let mut it = args.into_iter();
                match it.next() {
                    Some(V::Arr(mut a)) => {
                        a.extend(it);
                        Ok(V::Arr(a))
                    }
                    _ => Err(()),
                }
            }
            _ => Err(()),
        }
    }
}
/// Result of a program text in the reference: Err(true) = does not parse.
pub fn run(env: &mut Env, text: &str) -> Result<V, bool> {
    let p = parse(text).map_err(|_| true)?;
    env.requests.extend(p.requests);
    env.block(&p.exprs).map_err(|_| false)
}

/// An expression that is, at its top, a comparison: (operator, left, right).
pub fn comparison(x: &X) -> Option<(String, X, X)> {
    match x {
        X::Bin(op, l, r) if matches!(*op, "==" | "!=" | "<" | "<=" | ">" | ">=") => Some((op.to_string(), (**l).clone(), (**r).clone())),
        _ => None,
    }
}
