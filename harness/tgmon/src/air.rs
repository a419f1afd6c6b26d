//! A reader and executor for the small part of AIR that start-up scripts are
//! written in. What it does not know is reported as such, never guessed.
use serde_json::{json, Value};
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Sx {
    Str(String),
    Num(Value),
    Sym(String),
    List(Vec<Sx>),
    Args(Vec<Sx>),
}

pub enum Stop {
    /// not understood
    Unknown(String),
    /// an error the script could handle
    Caught(String),
    /// the script cannot go on
    Broken(String),
}

pub fn parse(text: &str) -> Result<Sx, String> {
    let c: Vec<char> = text.chars().collect();
    let mut i = 0;
    let mut stack: Vec<(char, Vec<Sx>)> = vec![];
    let mut top = vec![];
    fn put(stack: &mut Vec<(char, Vec<Sx>)>, top: &mut Vec<Sx>, x: Sx) {
        match stack.last_mut() {
            Some(s) => s.1.push(x),
            None => top.push(x),
        }
    }
    while i < c.len() {
        match c[i] {
            x if x.is_whitespace() => i += 1,
            ';' => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            }
            '(' | '[' => {
                stack.push((c[i], vec![]));
                i += 1;
            }
            ')' | ']' => {
                let (o, l) = stack.pop().ok_or("unbalanced")?;
                let x = match (o, c[i]) {
                    ('(', ')') => Sx::List(l),
                    ('[', ']') => Sx::Args(l),
                    _ => return Err("unbalanced".into()),
                };
                put(&mut stack, &mut top, x);
                i += 1;
            }
            '"' => {
                let s = i + 1;
                i = s;
                while i < c.len() && c[i] != '"' {
                    if c[i] == '\\' {
                        return Err("escape in a string".into());
                    }
                    i += 1;
                }
                if i == c.len() {
                    return Err("open string".into());
                }
                put(&mut stack, &mut top, Sx::Str(c[s..i].iter().collect()));
                i += 1;
            }
            _ => {
                let s = i;
                while i < c.len() && !c[i].is_whitespace() && !"()[];\"".contains(c[i]) {
                    i += 1;
                }
                let w: String = c[s..i].iter().collect();
                let x = match w.parse::<u64>() {
                    Ok(n) => Sx::Num(json!(n)),
                    Err(_) if w == "true" || w == "false" => Sx::Num(json!(w == "true")),
                    Err(_) => Sx::Sym(w),
                };
                put(&mut stack, &mut top, x);
            }
        }
    }
    if !stack.is_empty() || top.len() != 1 {
        return Err("unbalanced".into());
    }
    Ok(top.remove(0))
}

/// a value and where it is from: (peer, service, function)
pub type Val = (Value, (String, String, String));

pub struct Exec<'a> {
    pub vars: HashMap<String, Val>,
    pub init: String,
    /// peer, service, function, arguments -> answer
    pub call: &'a mut dyn FnMut(&str, &str, &str, Vec<Val>) -> Result<Value, String>,
    pub calls: u64,
    folds: Vec<(String, Vec<Val>, usize, Sx)>,
}

impl<'a> Exec<'a> {
    pub fn new(init: &str, vars: HashMap<String, Val>, call: &'a mut dyn FnMut(&str, &str, &str, Vec<Val>) -> Result<Value, String>) -> Exec<'a> {
        Exec { vars, init: init.into(), call, calls: 0, folds: vec![] }
    }

    fn value(&self, x: &Sx) -> Result<Val, Stop> {
        let lit = |v: Value| (v, (self.init.clone(), String::new(), String::new()));
        match x {
            Sx::Str(s) => Ok(lit(json!(s))),
            Sx::Num(v) => Ok(lit(v.clone())),
            Sx::Sym(s) if s == "%init_peer_id%" => Ok(lit(json!(self.init))),
            Sx::Sym(s) => {
                let (name, path) = match s.find(".$") {
                    Some(i) => (&s[..i], &s[i + 2..]),
                    None => (s.as_str(), ""),
                };
                let (mut v, from) = self.vars.get(name).cloned().ok_or_else(|| Stop::Broken(format!("{name} has no value")))?;
                for f in path.split('.').filter(|f| !f.is_empty()) {
                    let f = f.trim_end_matches('!');
                    if f.contains('[') || f.contains('!') {
                        return Err(Stop::Unknown(format!("path {s}")));
                    }
                    v = v.get(f).cloned().ok_or_else(|| Stop::Caught(format!("{s}: no such field")))?;
                }
                Ok((v, from))
            }
            _ => Err(Stop::Unknown(format!("value {x:?}"))),
        }
    }

    pub fn run(&mut self, x: &Sx) -> Result<(), Stop> {
        let l = match x {
            Sx::List(l) if !l.is_empty() => l,
            _ => return Err(Stop::Unknown(format!("{x:?}"))),
        };
        let op = match &l[0] {
            Sx::Sym(s) => s.as_str(),
            _ => return Err(Stop::Unknown(format!("{:?}", l[0]))),
        };
        match (op, l.len()) {
            ("null", 1) => Ok(()),
            ("seq", 3) => {
                self.run(&l[1])?;
                self.run(&l[2])
            }
            ("xor", 3) => match self.run(&l[1]) {
                Err(Stop::Caught(_)) => self.run(&l[2]),
                r => r,
            },
            ("match", 4) | ("mismatch", 4) => {
                let (a, b) = (self.value(&l[1])?.0, self.value(&l[2])?.0);
                if (a == b) == (op == "match") {
                    self.run(&l[3])
                } else {
                    Err(Stop::Caught(format!("{op} {a} {b}")))
                }
            }
            ("call", 4) | ("call", 5) => {
                let peer = self.value(&l[1])?.0;
                let (svc, f) = match &l[2] {
                    Sx::List(t) if t.len() == 2 => (self.value(&t[0])?.0, self.value(&t[1])?.0),
                    t => return Err(Stop::Unknown(format!("{t:?}"))),
                };
                let args = match &l[3] {
                    Sx::Args(a) => a.iter().map(|a| self.value(a)).collect::<Result<Vec<_>, _>>()?,
                    a => return Err(Stop::Unknown(format!("{a:?}"))),
                };
                let (peer, svc, f) = match (peer.as_str(), svc.as_str(), f.as_str()) {
                    (Some(p), Some(s), Some(f)) => (p.to_string(), s.to_string(), f.to_string()),
                    _ => return Err(Stop::Caught("not a call".into())),
                };
                self.calls += 1;
                let v = (self.call)(&peer, &svc, &f, args).map_err(Stop::Caught)?;
                if let Some(o) = l.get(4) {
                    match o {
                        Sx::Sym(s) if !s.contains(['.', '$', '%', '#']) => {
                            self.vars.insert(s.clone(), (v, (peer, svc, f)));
                        }
                        o => return Err(Stop::Unknown(format!("{o:?}"))),
                    }
                }
                Ok(())
            }
            ("fold", 4) => {
                let (v, from) = self.value(&l[1])?;
                let items = match v {
                    Value::Array(a) => a.into_iter().map(|v| (v, from.clone())).collect::<Vec<_>>(),
                    _ => return Err(Stop::Caught("fold over no list".into())),
                };
                let it = match &l[2] {
                    Sx::Sym(s) => s.clone(),
                    o => return Err(Stop::Unknown(format!("{o:?}"))),
                };
                if items.is_empty() {
                    return Ok(());
                }
                self.vars.insert(it.clone(), items[0].clone());
                self.folds.push((it.clone(), items, 0, l[3].clone()));
                let r = self.run(&l[3]);
                self.folds.pop();
                self.vars.remove(&it);
                r
            }
            ("next", 2) => {
                let it = match &l[1] {
                    Sx::Sym(s) => s.clone(),
                    o => return Err(Stop::Unknown(format!("{o:?}"))),
                };
                let i = self.folds.iter().rposition(|f| f.0 == it).ok_or_else(|| Stop::Broken(format!("next {it} outside a fold")))?;
                let at = self.folds[i].2;
                if at + 1 == self.folds[i].1.len() {
                    return Ok(());
                }
                let body = self.folds[i].3.clone();
                self.folds[i].2 = at + 1;
                let v = self.folds[i].1[at + 1].clone();
                self.vars.insert(it.clone(), v);
                let r = self.run(&body);
                self.folds[i].2 = at;
                let v = self.folds[i].1[at].clone();
                self.vars.insert(it, v);
                r
            }
            _ => Err(Stop::Unknown(format!("{op} of {} parts", l.len() - 1))),
        }
    }
}
