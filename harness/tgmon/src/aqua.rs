//! Reads Aqua sources: the declared types and services of the interface.
use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Bool,
    Str,
    U(u32),
    I(u32),
    F(u32),
    Arr(Box<Ty>),
    Opt(Box<Ty>),
    Stream(Box<Ty>),
    Named(String),
}

#[derive(Clone, Debug, Default)]
pub struct Service {
    pub id: String,
    /// name, arguments, result
    pub funcs: Vec<(String, Vec<(String, Ty)>, Option<Ty>)>,
}

#[derive(Clone, Debug, Default)]
pub struct Decls {
    pub data: BTreeMap<String, Vec<(String, Ty)>>,
    pub alias: BTreeMap<String, Ty>,
    pub services: BTreeMap<String, Service>,
}

/// a source line without its comment, and its indentation
pub fn lines(src: &str) -> Vec<(usize, String)> {
    let mut out = vec![];
    for l in src.lines() {
        let mut s = String::new();
        let mut quoted = false;
        let b: Vec<char> = l.chars().collect();
        let mut i = 0;
        while i < b.len() {
            if b[i] == '"' {
                quoted = !quoted;
            }
            if !quoted && b[i] == '-' && b.get(i + 1) == Some(&'-') {
                break;
            }
            s.push(b[i]);
            i += 1;
        }
        let t = s.trim_end();
        if t.trim().is_empty() {
            continue;
        }
        let ind = t.chars().take_while(|c| *c == ' ' || *c == '\t').map(|c| if c == '\t' { 4 } else { 1 }).sum();
        out.push((ind, t.trim().to_string()));
    }
    out
}

pub fn ty(s: &str) -> Result<Ty, String> {
    let s = s.trim();
    if let Some(r) = s.strip_prefix("[]") {
        return Ok(Ty::Arr(Box::new(ty(r)?)));
    }
    if let Some(r) = s.strip_prefix('?') {
        return Ok(Ty::Opt(Box::new(ty(r)?)));
    }
    if let Some(r) = s.strip_prefix('*') {
        return Ok(Ty::Stream(Box::new(ty(r)?)));
    }
    Ok(match s {
        "bool" => Ty::Bool,
        "string" => Ty::Str,
        "u8" => Ty::U(8),
        "u16" => Ty::U(16),
        "u32" => Ty::U(32),
        "u64" => Ty::U(64),
        "i8" => Ty::I(8),
        "i16" => Ty::I(16),
        "i32" => Ty::I(32),
        "i64" => Ty::I(64),
        "f32" => Ty::F(32),
        "f64" => Ty::F(64),
        n if !n.is_empty() && n.chars().all(|c| c.is_alphanumeric() || c == '_') => Ty::Named(n.into()),
        n => return Err(format!("type {n:?}")),
    })
}

/// split at commas that are not inside brackets
pub fn commas(s: &str) -> Vec<String> {
    let (mut out, mut cur, mut depth, mut quoted) = (vec![], String::new(), 0, false);
    for c in s.chars() {
        match c {
            '"' => quoted = !quoted,
            '(' | '[' | '{' if !quoted => depth += 1,
            ')' | ']' | '}' if !quoted => depth -= 1,
            ',' if !quoted && depth == 0 => {
                out.push(std::mem::take(&mut cur));
                continue;
            }
            _ => {}
        }
        cur.push(c);
    }
    if !cur.trim().is_empty() {
        out.push(cur);
    }
    out.into_iter().map(|x| x.trim().to_string()).collect()
}

/// name(args) -> result
pub fn signature(s: &str) -> Result<(String, Vec<(String, Ty)>, Vec<Ty>), String> {
    let open = s.find('(').ok_or("no argument list")?;
    let close = s.rfind(')').ok_or("no argument list")?;
    let name = s[..open].trim().to_string();
    let mut args = vec![];
    for a in commas(&s[open + 1..close]) {
        let (n, t) = a.split_once(':').ok_or("argument without type")?;
        args.push((n.trim().to_string(), ty(t)?));
    }
    let rets = match s[close + 1..].trim().strip_prefix("->") {
        Some(r) => commas(r).iter().map(|t| ty(t)).collect::<Result<_, _>>()?,
        None => vec![],
    };
    Ok((name, args, rets))
}

/// declarations of one file, added to `d`
pub fn declarations(src: &str, d: &mut Decls) -> Result<(), String> {
    let ls = lines(src);
    let mut i = 0;
    while i < ls.len() {
        let (ind, l) = &ls[i];
        let mut j = i + 1;
        while j < ls.len() && ls[j].0 > *ind {
            j += 1;
        }
        let body = &ls[i + 1..j];
        if let Some(n) = l.strip_prefix("data ") {
            let n = n.trim_end_matches(':').trim().to_string();
            let mut f = vec![];
            for (_, b) in body {
                let (a, t) = b.split_once(':').ok_or_else(|| format!("field {b:?}"))?;
                f.push((a.trim().to_string(), ty(t)?));
            }
            d.data.insert(n, f);
        } else if let Some(n) = l.strip_prefix("alias ") {
            // both spellings exist: `alias New: Old` and `alias Old : New`
            let (a, t) = n.split_once(':').ok_or_else(|| format!("alias {n:?}"))?;
            match (ty(a), ty(t)) {
                (Ok(Ty::Named(a)), Ok(t)) => {
                    d.alias.insert(a, t);
                }
                (Ok(t), Ok(Ty::Named(a))) => {
                    d.alias.insert(a, t);
                }
                _ => return Err(format!("alias {n:?}")),
            }
        } else if let Some(n) = l.strip_prefix("service ") {
            let n = n.trim_end_matches(':').trim();
            let (name, id) = match n.split_once('(') {
                Some((a, b)) => (a.trim().to_string(), b.trim_end_matches(')').trim().trim_matches('"').to_string()),
                None => (n.to_string(), String::new()),
            };
            let mut s = Service { id, funcs: vec![] };
            for (_, b) in body {
                let (f, a, r) = signature(b).map_err(|e| format!("{b:?}: {e}"))?;
                s.funcs.push((f, a, r.into_iter().next()));
            }
            d.services.insert(name, s);
        }
        i = if l.starts_with("data ") || l.starts_with("service ") { j } else { i + 1 };
    }
    Ok(())
}

impl Decls {
    pub fn resolve(&self, t: &Ty) -> Ty {
        let mut t = t.clone();
        for _ in 0..10 {
            match &t {
                Ty::Named(n) if self.alias.contains_key(n) => t = self.alias[n].clone(),
                _ => break,
            }
        }
        t
    }
    /// is `v` a value of type `t`? (what not, otherwise)
    pub fn conforms(&self, v: &Value, t: &Ty, path: &str) -> Result<(), String> {
        let no = |what: &str| Err(format!("{path}: {what} expected, got {}", v.to_string().chars().take(80).collect::<String>()));
        match self.resolve(t) {
            Ty::Bool if v.is_boolean() => Ok(()),
            Ty::Str if v.is_string() => Ok(()),
            Ty::U(b) => match v.as_u64() {
                Some(x) if b == 64 || x >> b == 0 => Ok(()),
                _ => no("an unsigned number"),
            },
            Ty::I(b) => match v.as_i64() {
                Some(x) if b == 64 || (x >= -(1 << (b - 1)) && x < 1 << (b - 1)) => Ok(()),
                _ => no("a number"),
            },
            Ty::F(_) if v.is_number() => Ok(()),
            Ty::Arr(e) | Ty::Opt(e) | Ty::Stream(e) if v.is_array() => {
                for (i, x) in v.as_array().unwrap().iter().enumerate() {
                    self.conforms(x, &e, &format!("{path}[{i}]"))?;
                }
                if matches!(t, Ty::Opt(_)) && v.as_array().unwrap().len() > 1 {
                    return no("at most one value");
                }
                Ok(())
            }
            Ty::Named(n) => match (self.data.get(&n), v.as_object()) {
                (Some(fs), Some(o)) => {
                    for (f, ft) in fs {
                        match o.get(f) {
                            Some(x) => self.conforms(x, ft, &format!("{path}.{f}"))?,
                            None => return Err(format!("{path}: field {f} of {n} missing")),
                        }
                    }
                    for k in o.keys() {
                        if !fs.iter().any(|f| f.0 == *k) {
                            return Err(format!("{path}: {n} has no field {k}"));
                        }
                    }
                    Ok(())
                }
                (None, _) => Err(format!("{path}: type {n} is not declared")),
                _ => no("a record"),
            },
            _ => no(&format!("{t:?}")),
        }
    }
    /// some value of type `t`, by field name where the name is telling
    pub fn any(&self, t: &Ty, name: &str, gen: &mut dyn FnMut(&Ty, &str) -> Option<Value>) -> Result<Value, String> {
        let t = self.resolve(t);
        if let Some(v) = gen(&t, name) {
            return Ok(v);
        }
        Ok(match &t {
            Ty::Bool => json!(true),
            Ty::Str => json!(""),
            Ty::U(_) | Ty::I(_) => json!(0),
            Ty::F(_) => json!(0.0),
            Ty::Arr(e) | Ty::Stream(e) => json!([self.any(e, name, gen)?, self.any(e, name, gen)?]),
            Ty::Opt(e) => json!([self.any(e, name, gen)?]),
            Ty::Named(n) => {
                let mut o = serde_json::Map::new();
                for (f, ft) in self.data.get(n).ok_or_else(|| format!("type {n} is not declared"))? {
                    o.insert(f.clone(), self.any(ft, f, gen)?);
                }
                Value::Object(o)
            }
        })
    }
}
