//! Executes Aqua functions, statement by statement, against services given by
//! the harness. Values carry their provenance (tetraplets) as in the real
//! runtime. Syntax outside the supported subset is reported as `Unsupported`,
//! never guessed at.
use crate::aqua::{commas, declarations, lines, signature, Decls, Ty};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Debug)]
pub enum Stop {
    /// this interpreter cannot run the program
    Unsupported(String),
    /// the program itself failed (missing value, unknown service, ...)
    Fault(String),
}
type Res<X> = Result<X, Stop>;

#[derive(Clone, Debug)]
pub enum V {
    J(Value, Value),
    L(Rc<RefCell<Vec<V>>>),
}

impl V {
    pub fn lit(v: Value, who: &str) -> V {
        V::J(v, json!([{"peer_pk": who, "service_id": "", "function_name": "", "json_path": ""}]))
    }
    pub fn empty() -> V {
        V::L(Rc::new(RefCell::new(vec![])))
    }
    pub fn json(&self) -> Value {
        match self {
            V::J(v, _) => v.clone(),
            V::L(l) => Value::Array(l.borrow().iter().map(|x| x.json()).collect()),
        }
    }
    fn tetraplets(&self) -> Value {
        match self {
            V::J(_, t) => t.clone(),
            V::L(l) => Value::Array(l.borrow().iter().flat_map(|x| x.tetraplets().as_array().cloned().unwrap_or_default()).collect()),
        }
    }
    fn step(&self, v: Value, path: String) -> V {
        let mut t = self.tetraplets();
        if let Some(a) = t.as_array_mut() {
            for x in a {
                let p = x["json_path"].as_str().unwrap_or("").to_string();
                x["json_path"] = json!(if p.is_empty() { format!("$.{path}") } else { format!("{p}.{path}") });
            }
        }
        V::J(v, t)
    }
    fn field(&self, f: &str) -> Res<V> {
        match self {
            V::J(Value::Object(o), _) => match o.get(f) {
                Some(x) => Ok(self.step(x.clone(), f.to_string())),
                None => Err(Stop::Fault(format!("no field {f}"))),
            },
            _ => Err(Stop::Fault(format!("field {f} of something that is no record"))),
        }
    }
    fn index(&self, i: usize) -> Res<V> {
        let none = || Stop::Fault(format!("element {i} is missing"));
        match self {
            V::J(Value::Array(a), _) => a.get(i).map(|x| self.step(x.clone(), format!("[{i}]"))).ok_or_else(none),
            V::L(l) => l.borrow().get(i).cloned().ok_or_else(none),
            _ => Err(Stop::Fault("element of something that is no list".into())),
        }
    }
    fn items(&self) -> Res<Vec<V>> {
        match self {
            V::J(Value::Array(a), _) => (0..a.len()).map(|i| self.index(i)).collect(),
            V::L(l) => Ok(l.borrow().clone()),
            _ => Err(Stop::Fault("loop over something that is no list".into())),
        }
    }
}

#[derive(Clone, Debug)]
enum E {
    Lit(Value),
    Nil,
    Var(String),
    Arr(Vec<E>),
    Field(Box<E>, String),
    Index(Box<E>, Box<E>),
    Not(Box<E>),
    Bin(String, Box<E>, Box<E>),
    Call(Option<String>, String, Vec<E>),
}

#[derive(Clone, Debug)]
enum S {
    Return(Vec<E>),
    Assign(Vec<String>, E),
    Stream(String),
    Push(String, E),
    If(E, Vec<S>, Vec<S>),
    On(E, Vec<S>),
    For(String, E, Vec<S>),
    ServiceId(String, E),
    Do(E),
}

struct Func {
    args: Vec<(String, Ty)>,
    body: Result<Vec<S>, String>,
}

#[derive(Default)]
pub struct Program {
    funcs: BTreeMap<String, Func>,
    pub decls: Decls,
}

// ---------------------------------------------------------------- parsing

fn tokens(s: &str) -> Result<Vec<String>, String> {
    let c: Vec<char> = s.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < c.len() {
        if c[i].is_whitespace() {
            i += 1;
        } else if c[i] == '"' {
            let mut t = String::from("\"");
            i += 1;
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' {
                    return Err("escaped character".into());
                }
                t.push(c[i]);
                i += 1;
            }
            i += 1;
            out.push(t);
        } else if c[i].is_alphanumeric() || c[i] == '_' {
            let mut t = String::new();
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                t.push(c[i]);
                i += 1;
            }
            out.push(t);
        } else {
            let two: String = c[i..(i + 2).min(c.len())].iter().collect();
            if ["==", "!=", "&&", "||", "<=", ">="].contains(&two.as_str()) {
                // `x!=y` compares, as does `x! == y`
                out.push(two);
                i += 2;
            } else {
                out.push(c[i].to_string());
                i += 1;
            }
        }
    }
    Ok(out)
}

struct P {
    t: Vec<String>,
    i: usize,
}
impl P {
    fn peek(&self) -> &str {
        self.t.get(self.i).map_or("", |s| s.as_str())
    }
    fn next(&mut self) -> String {
        self.i += 1;
        self.t.get(self.i - 1).cloned().unwrap_or_default()
    }
    fn eat(&mut self, s: &str) -> Result<(), String> {
        if self.peek() == s {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("{s:?} expected before {:?}", self.peek()))
        }
    }
    fn or(&mut self) -> Result<E, String> {
        let mut a = self.and()?;
        while self.peek() == "||" {
            self.next();
            a = E::Bin("||".into(), Box::new(a), Box::new(self.and()?));
        }
        Ok(a)
    }
    fn and(&mut self) -> Result<E, String> {
        let mut a = self.cmp()?;
        while self.peek() == "&&" {
            self.next();
            a = E::Bin("&&".into(), Box::new(a), Box::new(self.cmp()?));
        }
        Ok(a)
    }
    fn cmp(&mut self) -> Result<E, String> {
        let a = self.sum()?;
        if ["==", "!=", "<", ">", "<=", ">="].contains(&self.peek()) {
            let o = self.next();
            let b = self.sum()?;
            return Ok(E::Bin(o, Box::new(a), Box::new(b)));
        }
        Ok(a)
    }
    fn sum(&mut self) -> Result<E, String> {
        let mut a = self.unary()?;
        while ["+", "-"].contains(&self.peek()) {
            let o = self.next();
            a = E::Bin(o, Box::new(a), Box::new(self.unary()?));
        }
        Ok(a)
    }
    fn unary(&mut self) -> Result<E, String> {
        if self.peek() == "!" {
            self.next();
            return Ok(E::Not(Box::new(self.unary()?)));
        }
        self.postfix()
    }
    fn args(&mut self, close: &str) -> Result<Vec<E>, String> {
        let mut v = vec![];
        while self.peek() != close {
            v.push(self.or()?);
            if self.peek() == "," {
                self.next();
            } else if self.peek() != close {
                return Err(format!("{close:?} expected before {:?}", self.peek()));
            }
        }
        self.eat(close)?;
        Ok(v)
    }
    fn postfix(&mut self) -> Result<E, String> {
        let t = self.next();
        let mut e = if let Some(s) = t.strip_prefix('"') {
            E::Lit(json!(s))
        } else if t == "(" {
            let e = self.or()?;
            self.eat(")")?;
            e
        } else if t == "[" {
            E::Arr(self.args("]")?)
        } else if t == "nil" {
            E::Nil
        } else if t == "true" || t == "false" {
            E::Lit(json!(t == "true"))
        } else if t.chars().next().map_or(false, |c| c.is_ascii_digit()) {
            E::Lit(json!(t.parse::<u64>().map_err(|_| format!("number {t}"))?))
        } else if t.chars().next().map_or(false, |c| c.is_alphabetic() || c == '_') {
            if self.peek() == "(" {
                self.next();
                E::Call(None, t, self.args(")")?)
            } else {
                E::Var(t)
            }
        } else {
            return Err(format!("{t:?} in an expression"));
        };
        loop {
            match self.peek() {
                "." => {
                    self.next();
                    let f = self.next();
                    if self.peek() == "(" {
                        self.next();
                        match e {
                            E::Var(s) => e = E::Call(Some(s), f, self.args(")")?),
                            _ => return Err("call on a value".into()),
                        }
                    } else if f.chars().next().map_or(false, |c| c.is_alphabetic() || c == '_') {
                        e = E::Field(Box::new(e), f);
                    } else {
                        return Err(format!("field {f:?}"));
                    }
                }
                "!" => {
                    self.next();
                    let n = self.peek().to_string();
                    let i = if !n.is_empty() && n.chars().all(|c| c.is_ascii_digit()) {
                        self.next();
                        E::Lit(json!(n.parse::<u64>().map_err(|_| "index")?))
                    } else if n.chars().next().map_or(false, |c| c.is_alphabetic() || c == '_') {
                        self.next();
                        E::Var(n)
                    } else {
                        E::Lit(json!(0))
                    };
                    e = E::Index(Box::new(e), Box::new(i));
                }
                "[" => {
                    self.next();
                    let i = self.or()?;
                    self.eat("]")?;
                    e = E::Index(Box::new(e), Box::new(i));
                }
                _ => return Ok(e),
            }
        }
    }
}

fn expr(s: &str) -> Result<E, String> {
    let mut p = P { t: tokens(s)?, i: 0 };
    let e = p.or().map_err(|e| format!("{s:?}: {e}"))?;
    if p.i < p.t.len() {
        return Err(format!("{s:?}: {:?} left over", p.peek()));
    }
    Ok(e)
}

fn ident(s: &str) -> bool {
    !s.is_empty() && s.chars().all(|c| c.is_alphanumeric() || c == '_') && !s.starts_with(|c: char| c.is_ascii_digit())
}

const KEYWORDS: &[&str] = &["par", "co", "join", "try", "catch", "otherwise", "parseq", "parsec", "use", "const", "switch", "while", "ability", "closure", "recover"];

fn block(ls: &[(usize, String)], services: &dyn Fn(&str) -> bool) -> Result<Vec<S>, String> {
    let mut out = vec![];
    let mut i = 0;
    while i < ls.len() {
        let (ind, l) = &ls[i];
        let mut j = i + 1;
        while j < ls.len() && ls[j].0 > *ind {
            j += 1;
        }
        let body = || block(&ls[i + 1..j], services);
        let first = l.split(|c: char| !(c.is_alphanumeric() || c == '_')).next().unwrap_or("");
        if KEYWORDS.contains(&first) {
            return Err(format!("{l:?}"));
        }
        let headed = |p: &str| l.strip_prefix(p).and_then(|r| r.trim().strip_suffix(':')).map(|r| r.trim().to_string());
        if let Some(c) = headed("if ") {
            let yes = body()?;
            let mut no = vec![];
            if j < ls.len() && ls[j].0 == *ind && ls[j].1.starts_with("else") {
                let mut k = j + 1;
                while k < ls.len() && ls[k].0 > *ind {
                    k += 1;
                }
                let e = ls[j].1.trim_end();
                if e.trim_end_matches(':').trim() == "else" {
                    no = block(&ls[j + 1..k], services)?;
                    j = k;
                } else if let Some(r) = e.strip_prefix("else ") {
                    // else if: as a nested if with everything that follows at this level
                    let mut m = k;
                    while m < ls.len() && (ls[m].0 > *ind || (ls[m].0 == *ind && ls[m].1.starts_with("else"))) {
                        m += 1;
                    }
                    let mut sub = vec![(*ind, r.trim().to_string())];
                    sub.extend_from_slice(&ls[j + 1..m]);
                    no = block(&sub, services)?;
                    j = m;
                } else {
                    return Err(format!("{e:?}"));
                }
            }
            out.push(S::If(expr(&c)?, yes, no));
            i = j;
            continue;
        }
        if let Some(c) = headed("on ") {
            let to = c.split(" via ").next().unwrap().to_string();
            out.push(S::On(expr(&to)?, body()?));
            i = j;
            continue;
        }
        if let Some(c) = headed("for ") {
            let (x, e) = c.split_once("<-").ok_or_else(|| format!("{l:?}"))?;
            let e = e.trim();
            let e = e.strip_suffix(" par").unwrap_or(e);
            if !ident(x.trim()) {
                return Err(format!("{l:?}"));
            }
            out.push(S::For(x.trim().to_string(), expr(e)?, body()?));
            i = j;
            continue;
        }
        if j > i + 1 {
            return Err(format!("{l:?} with a block"));
        }
        if let Some(r) = l.strip_prefix("<-") {
            out.push(S::Return(commas(r).iter().map(|e| expr(e)).collect::<Result<_, _>>()?));
        } else if let Some((x, e)) = l.split_once("<<-") {
            if !ident(x.trim()) {
                return Err(format!("{l:?}"));
            }
            out.push(S::Push(x.trim().into(), expr(e.trim())?));
        } else if let Some((x, e)) = l.split_once("<-") {
            let names = commas(x);
            if !names.iter().all(|n| ident(n)) {
                return Err(format!("{l:?}"));
            }
            out.push(S::Assign(names, expr(e.trim())?));
        } else if let Some((x, t)) = l.split_once(':').filter(|(x, _)| ident(x.trim())) {
            if !t.trim().starts_with('*') || t.contains('=') {
                return Err(format!("{l:?}"));
            }
            out.push(S::Stream(x.trim().into()));
        } else if let Some((x, e)) = l.split_once('=').filter(|(x, e)| ident(x.trim()) && !e.starts_with('=')) {
            out.push(S::Assign(vec![x.trim().into()], expr(e.trim())?));
        } else if let Some((s, e)) = l.split_once(' ').filter(|(s, _)| services(s)) {
            out.push(S::ServiceId(s.into(), expr(e.trim())?));
        } else {
            match expr(l)? {
                e @ E::Call(..) => out.push(S::Do(e)),
                _ => return Err(format!("{l:?}")),
            }
        }
        i = j;
    }
    Ok(out)
}

impl Program {
    pub fn parse(sources: &[String]) -> Result<Program, String> {
        let mut p = Program::default();
        for s in sources {
            declarations(s, &mut p.decls)?;
        }
        let known: Vec<String> = p.decls.services.keys().cloned().chain(["Sig", "Peer", "Op"].map(String::from)).collect();
        for s in sources {
            let ls = lines(s);
            let mut i = 0;
            while i < ls.len() {
                let mut j = i + 1;
                if let Some(h) = ls[i].1.strip_prefix("func ") {
                    while j < ls.len() && ls[j].0 > ls[i].0 {
                        j += 1;
                    }
                    let h = h.trim();
                    let (head, inline) = match h.strip_suffix(':') {
                        Some(x) => (x, false),
                        None => (h, true),
                    };
                    match signature(head) {
                        Ok((name, args, _)) => {
                            let body = if inline { Err(format!("{h:?}")) } else { block(&ls[i + 1..j], &|s| known.iter().any(|k| k == s)) };
                            p.funcs.insert(name, Func { args, body });
                        }
                        Err(e) => return Err(format!("{h:?}: {e}")),
                    }
                }
                i = j;
            }
        }
        Ok(p)
    }
    pub fn has(&self, f: &str) -> bool {
        self.funcs.contains_key(f)
    }
    pub fn arity(&self, f: &str) -> Option<usize> {
        self.funcs.get(f).map(|f| f.args.len())
    }
}

// ---------------------------------------------------------------- running

/// what the program runs on
pub trait Host {
    /// a service call on a peer; Err: there is no such peer, service or function
    fn call(&mut self, peer: &str, service: &str, function: &str, args: &[(Value, Value)]) -> Result<Value, String>;
}

pub struct Run<'a> {
    pub p: &'a Program,
    pub host: &'a mut dyn Host,
    pub init: String,
    pub relay: String,
    pub calls: u64,
    depth: usize,
}

struct Frame {
    vars: HashMap<String, V>,
    ids: HashMap<String, String>,
    peer: String,
}

impl<'a> Run<'a> {
    pub fn new(p: &'a Program, host: &'a mut dyn Host, init: &str, relay: &str) -> Run<'a> {
        Run { p, host, init: init.into(), relay: relay.into(), calls: 0, depth: 0 }
    }
    /// run a function on a peer
    pub fn function(&mut self, peer: &str, f: &str, args: Vec<V>) -> Res<Vec<V>> {
        let p = self.p;
        let f_ = p.funcs.get(f).ok_or_else(|| Stop::Unsupported(format!("function {f}")))?;
        let body = f_.body.as_ref().map_err(|e| Stop::Unsupported(format!("{f}: {e}")))?;
        if f_.args.len() != args.len() {
            return Err(Stop::Unsupported(format!("{f} takes {} arguments", f_.args.len())));
        }
        self.depth += 1;
        if self.depth > 30 {
            return Err(Stop::Unsupported("recursion".into()));
        }
        let mut fr = Frame { vars: HashMap::new(), ids: HashMap::new(), peer: peer.into() };
        for ((n, _), v) in f_.args.iter().zip(args) {
            fr.vars.insert(n.clone(), v);
        }
        let r = self.block(&mut fr, body)?.unwrap_or_default();
        self.depth -= 1;
        Ok(r)
    }
    fn block(&mut self, fr: &mut Frame, b: &[S]) -> Res<Option<Vec<V>>> {
        for s in b {
            match s {
                S::Return(e) => {
                    let v = e.iter().map(|e| self.eval(fr, e)).collect::<Res<Vec<V>>>()?;
                    return Ok(Some(v));
                }
                S::Assign(names, e) => {
                    let vs = match e {
                        E::Call(s, f, a) => self.call(fr, s.as_deref(), f, a)?,
                        e if names.len() == 1 => vec![self.eval(fr, e)?],
                        _ => return Err(Stop::Unsupported("several names for one value".into())),
                    };
                    if vs.len() < names.len() {
                        return Err(Stop::Unsupported("more names than results".into()));
                    }
                    for (n, v) in names.iter().zip(vs) {
                        fr.vars.insert(n.clone(), v);
                    }
                }
                S::Stream(n) => {
                    fr.vars.insert(n.clone(), V::empty());
                }
                S::Push(n, e) => {
                    let v = self.eval(fr, e)?;
                    match fr.vars.get(n) {
                        Some(V::L(l)) => l.borrow_mut().push(v),
                        _ => return Err(Stop::Unsupported(format!("{n} is no stream"))),
                    }
                }
                S::If(c, y, n) => {
                    let c = self.eval(fr, c)?.json();
                    let r = match c {
                        Value::Bool(true) => self.block(fr, y)?,
                        Value::Bool(false) => self.block(fr, n)?,
                        _ => return Err(Stop::Unsupported("condition that is not true or false".into())),
                    };
                    if r.is_some() {
                        return Ok(r);
                    }
                }
                S::On(e, b) => {
                    let to = match self.eval(fr, e)?.json() {
                        Value::String(s) => s,
                        _ => return Err(Stop::Fault("peer id that is no text".into())),
                    };
                    let back = std::mem::replace(&mut fr.peer, to);
                    let r = self.block(fr, b)?;
                    fr.peer = back;
                    if r.is_some() {
                        return Ok(r);
                    }
                }
                S::For(x, e, b) => {
                    for v in self.eval(fr, e)?.items()? {
                        fr.vars.insert(x.clone(), v);
                        if self.block(fr, b)?.is_some() {
                            return Err(Stop::Unsupported("return from a loop".into()));
                        }
                    }
                }
                S::ServiceId(s, e) => match self.eval(fr, e)?.json() {
                    Value::String(id) => {
                        fr.ids.insert(s.clone(), id);
                    }
                    _ => return Err(Stop::Fault("service id that is no text".into())),
                },
                S::Do(E::Call(s, f, a)) => {
                    self.call(fr, s.as_deref(), f, a)?;
                }
                S::Do(_) => return Err(Stop::Unsupported("statement".into())),
            }
        }
        Ok(None)
    }
    fn call(&mut self, fr: &mut Frame, service: Option<&str>, f: &str, args: &[E]) -> Res<Vec<V>> {
        let args = args.iter().map(|a| self.eval(fr, a)).collect::<Res<Vec<V>>>()?;
        let s = match service {
            None => return self.function(&fr.peer.clone(), f, args),
            Some(s) => s,
        };
        let id = match (fr.ids.get(s), self.p.decls.services.get(s), s) {
            (Some(id), _, _) => id.clone(),
            (_, Some(d), _) if !d.id.is_empty() => d.id.clone(),
            (_, _, "Sig") => "sig".into(),
            (_, _, "Peer") => "peer".into(),
            (_, _, "Op") => "op".into(),
            _ => return Err(Stop::Unsupported(format!("service {s}"))),
        };
        if let Some(d) = self.p.decls.services.get(s) {
            match d.funcs.iter().find(|x| x.0 == f) {
                Some(x) if x.1.len() == args.len() => {}
                _ => return Err(Stop::Unsupported(format!("{s}.{f} as called is not declared"))),
            }
        }
        self.calls += 1;
        let sent: Vec<(Value, Value)> = args.iter().map(|a| (a.json(), a.tetraplets())).collect();
        let peer = fr.peer.clone();
        let r = self.host.call(&peer, &id, f, &sent).map_err(Stop::Fault)?;
        Ok(vec![V::J(r, json!([{"peer_pk": peer, "service_id": id, "function_name": f, "json_path": ""}]))])
    }
    fn eval(&mut self, fr: &mut Frame, e: &E) -> Res<V> {
        let init = self.init.clone();
        Ok(match e {
            E::Lit(v) => V::lit(v.clone(), &init),
            E::Nil => V::empty(),
            E::Arr(x) => {
                let v = x.iter().map(|x| self.eval(fr, x)).collect::<Res<Vec<V>>>()?;
                V::L(Rc::new(RefCell::new(v)))
            }
            E::Var(n) => match (fr.vars.get(n), n.as_str()) {
                (Some(v), _) => v.clone(),
                (None, "HOST_PEER_ID") => V::lit(json!(self.relay), &init),
                (None, "INIT_PEER_ID") => V::lit(json!(init), &init),
                _ => return Err(Stop::Unsupported(format!("name {n}"))),
            },
            E::Field(x, f) => self.eval(fr, x)?.field(f)?,
            E::Index(x, i) => {
                let i = self.eval(fr, i)?.json();
                let i = i.as_u64().ok_or_else(|| Stop::Fault("index that is no number".into()))?;
                self.eval(fr, x)?.index(i as usize)?
            }
            E::Not(x) => match self.eval(fr, x)?.json() {
                Value::Bool(b) => V::lit(json!(!b), &init),
                _ => return Err(Stop::Fault("negation of something that is no boolean".into())),
            },
            E::Bin(o, a, b) => {
                let a = self.eval(fr, a)?.json();
                // both sides of && and || as in the real language: the second only if needed
                if o == "&&" || o == "||" {
                    let stop = o == "||";
                    return match a {
                        Value::Bool(x) if x == stop => Ok(V::lit(json!(x), &init)),
                        Value::Bool(_) => Ok(V::lit(self.eval(fr, b)?.json(), &init)),
                        _ => Err(Stop::Fault("logic on something that is no boolean".into())),
                    };
                }
                let b = self.eval(fr, b)?.json();
                let n = || -> Res<(u64, u64)> { a.as_u64().zip(b.as_u64()).ok_or_else(|| Stop::Unsupported("arithmetic".into())) };
                let v = match o.as_str() {
                    "==" => json!(a == b),
                    "!=" => json!(a != b),
                    "<" => json!(n()?.0 < n()?.1),
                    ">" => json!(n()?.0 > n()?.1),
                    "<=" => json!(n()?.0 <= n()?.1),
                    ">=" => json!(n()?.0 >= n()?.1),
                    "+" => json!(n()?.0.checked_add(n()?.1).ok_or_else(|| Stop::Fault("overflow".into()))?),
                    "-" => json!(n()?.0.checked_sub(n()?.1).ok_or_else(|| Stop::Fault("underflow".into()))?),
                    _ => return Err(Stop::Unsupported(o.clone())),
                };
                V::lit(v, &init)
            }
            E::Call(s, f, a) => {
                let r = self.call(fr, s.as_deref(), f, a)?;
                r.into_iter().next().ok_or_else(|| Stop::Unsupported(format!("{f} gives no value")))?
            }
        })
    }
}
