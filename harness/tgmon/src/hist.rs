//! Histories: generating operations, applying them to a subject and to the
//! reference model side by side, and comparing everything observable.
use crate::common::*;
use crate::model::*;
use crate::subject::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub enum Op {
    Root(Id, u32),
    Trust(T),
    Cert(Vec<T>, bool),
    Rev(R),
    Tick(u64),
}

impl Op {
    pub fn show(&self) -> String {
        match self {
            Op::Root(k, m) => format!("set_root k{k} {m}"),
            Op::Trust(t) => format!("trust {}", show_t(t)),
            Op::Cert(c, raw) => format!("cert{} [{}]", if *raw { "(text)" } else { "" }, c.iter().map(show_t).collect::<Vec<_>>().join(", ")),
            Op::Rev(r) => format!("revoke k{}->k{} at={}", r.by, r.for_, r.at),
            Op::Tick(t) => format!("time {t}"),
        }
    }
}

pub fn show_t(t: &T) -> String {
    format!("k{}->k{} exp={} iat={}", t.by, t.for_, t.exp, t.iat)
}

pub fn show_cert(c: &Cert) -> String {
    c.iter().map(|l| match &l.for_ {
        Ok(k) => format!("k{k}(exp={},iat={})", l.exp, l.iat),
        Err(e) => format!("?{e}"),
    }).collect::<Vec<_>>().join(" > ")
}

/// a disagreement between the subject and what the property texts demand
#[derive(Debug)]
pub struct Mis {
    pub class: &'static str,
    pub text: String,
}

pub fn mis(class: &'static str, text: String) -> Mis {
    Mis { class, text }
}

/// how operations are drawn
#[derive(Clone)]
pub struct Gen {
    pub root: u32,
    pub trust: u32,
    pub cert: u32,
    pub rev: u32,
    pub tick: u32,
    /// largest number of walks to any key
    pub walks: usize,
    pub limits: Vec<u32>,
    /// chance in 10 that an expiry is near
    pub near: u32,
    /// expiries up to the top of the range
    pub huge: bool,
    /// chance in 10 that a trust comes from a key with weight
    pub weighty: u32,
}

impl Gen {
    pub fn plain() -> Gen {
        Gen { root: 6, trust: 55, cert: 12, rev: 15, tick: 12, walks: 400, limits: vec![0, 1, 2, 3, 3, 4, 4, 5, 6, 16, 17, 1000, u32::MAX], near: 3, huge: true, weighty: 9 }
    }
}

pub struct Hist {
    pub w: World,
    pub m: Model,
    pub s: Subject,
    pub now: u64,
    pub ops: Vec<String>,
    /// every trust ever offered and accepted, for explaining findings
    pub ever: Vec<T>,
    pub ever_revoked: BTreeSet<(Id, Id)>,
    pub quick_walk_cap: usize,
}

pub const MODEL_CAP: usize = 20_000;

impl Hist {
    pub fn new(w: World, s: Subject, now: u64) -> Hist {
        Hist { w, m: Model::default(), s, now, ops: vec![], ever: vec![], ever_revoked: BTreeSet::new(), quick_walk_cap: MODEL_CAP }
    }

    pub fn describe(&self, x: &Mis) -> Value {
        json!({"subject": self.s.name(), "class": x.class, "what": x.text, "now": self.now, "history": self.ops,
            "keys": self.w.peers,
            "roots": self.m.roots.iter().map(|(k, v)| format!("k{k}:{v}")).collect::<Vec<_>>()})
    }

    fn pick_exp(&self, g: &Gen, rng: &mut Rng) -> u64 {
        if rng.chance(g.near, 10) {
            return self.now + rng.below(12) as u64;
        }
        if g.huge {
            match rng.below(12) {
                0 => return u64::MAX,
                1 => return i64::MAX as u64,
                2 => return i64::MAX as u64 + 1,
                3 => return u64::MAX - rng.below(5) as u64,
                4 => return (1u64 << (20 + rng.below(44))).max(self.now + 1),
                _ => {}
            }
        }
        self.now + 20 + rng.below(400) as u64
    }

    fn pick_iat(&self, by: Id, for_: Id, rng: &mut Rng) -> Option<u64> {
        let lo = self.m.floor(by, for_, self.now).map(|f| f + 1).unwrap_or(0);
        if lo > self.now {
            return None;
        }
        let cur = self.m.rel.get(&(by, for_)).map(|s| s.at());
        // the library, other than the service, takes statements dated ahead
        if !self.s.is_svc() && cur.is_none() && rng.chance(1, 25) {
            let ahead = *rng.pick(&[1, 3, 15, 50, 500, 1 << 20, 1 << 33]);
            return Some(self.now.saturating_add(rng.range(1, ahead)).max(lo));
        }
        let x = match (rng.below(10), cur) {
            (0, Some(c)) => c,
            (1, Some(c)) => c.saturating_sub(1 + rng.below(5) as u64),
            (2, Some(c)) => c + 1,
            (3, _) => rng.range(lo, self.now),
            _ => self.now.saturating_sub(rng.below(6) as u64),
        };
        Some(x.clamp(lo, self.now))
    }

    fn fits(&self, extra: &[T], walks: usize) -> bool {
        let mut m = self.m.clone();
        for t in extra {
            m.rel.insert((t.by, t.for_), St::Auth(t.clone()));
        }
        (0..self.w.n()).all(|k| m.walks(k, self.now, walks).is_some())
    }

    pub fn weights(&self) -> Vec<u32> {
        (0..self.w.n()).map(|k| self.m.weight(k, self.now, false, MODEL_CAP).unwrap_or(0)).collect()
    }

    pub fn gen_op(&mut self, g: &Gen, rng: &mut Rng) -> Option<Op> {
        let n = self.w.n();
        let total = g.root + g.trust + g.cert + g.rev + g.tick;
        let mut x = rng.below(total as usize) as u32;
        if self.m.roots.is_empty() && rng.chance(4, 5) {
            x = 0;
        }
        if x < g.root {
            let k = if self.m.roots.len() >= 3 || rng.chance(1, 3) && !self.m.roots.is_empty() { *rng.pick(&self.m.roots.keys().copied().collect::<Vec<_>>()) } else { rng.below(n) };
            return Some(Op::Root(k, *rng.pick(&g.limits)));
        }
        x -= g.root;
        if x < g.trust {
            // roots need their own trust before anything hangs below them
            let bare: Vec<Id> = self.m.roots.keys().copied().filter(|r| self.m.auth(*r, *r, self.now).is_none()).collect();
            if !bare.is_empty() && rng.chance(2, 3) {
                let r = *rng.pick(&bare);
                let iat = self.pick_iat(r, r, rng)?;
                let exp = self.pick_exp(g, rng);
                return Some(Op::Trust(self.w.trust(r, r, exp, iat)));
            }
            let ws = self.weights();
            let strong: Vec<Id> = (0..n).filter(|k| ws[*k] > 1).collect();
            let by = if !strong.is_empty() && rng.chance(g.weighty, 10) { *rng.pick(&strong) } else { rng.below(n) };
            let for_ = if rng.chance(1, 14) { by } else { rng.below(n) };
            let iat = self.pick_iat(by, for_, rng)?;
            let exp = self.pick_exp(g, rng);
            let t = self.w.trust(by, for_, exp, iat);
            if !self.fits(&[t.clone()], g.walks) {
                return None;
            }
            return Some(Op::Trust(t));
        }
        x -= g.trust;
        if x < g.cert {
            let roots: Vec<Id> = self.m.roots.keys().copied().collect();
            let r = if !roots.is_empty() && rng.chance(4, 5) { *rng.pick(&roots) } else { rng.below(n) };
            let len = 1 + rng.below(5);
            let mut ks = vec![r];
            let mut c = vec![];
            for i in 0..len {
                let (by, for_) = if i == 0 {
                    (r, r)
                } else {
                    let f = if rng.chance(1, 12) { ks[i - 1] } else { rng.below(n) };
                    (ks[i - 1], f)
                };
                // statements already in force are offered again as they are, as real certificates do
                let t = match self.m.auth(by, for_, self.now) {
                    Some(t) if rng.chance(3, 4) => t.clone(),
                    _ => {
                        let iat = self.pick_iat(by, for_, rng)?;
                        let e = self.pick_exp(g, rng);
                        self.w.trust(by, for_, e, iat)
                    }
                };
                c.push(t);
                if i > 0 {
                    ks.push(for_);
                }
            }
            if !self.fits(&c, g.walks) {
                return None;
            }
            return Some(Op::Cert(c, rng.chance(1, 2)));
        }
        x -= g.cert;
        if x < g.rev {
            // mostly somebody above, sometimes anybody
            let by = rng.below(n);
            let for_ = rng.below(n);
            let (by, for_) = if rng.chance(1, 3) {
                let auths: Vec<(Id, Id)> = self.m.rel.iter().filter(|(_, s)| matches!(s, St::Auth(_))).map(|(p, _)| *p).collect();
                if auths.is_empty() {
                    (by, for_)
                } else {
                    *rng.pick(&auths)
                }
            } else {
                (by, for_)
            };
            let at = self.pick_iat(by, for_, rng)?;
            return Some(Op::Rev(self.w.rev(by, for_, at)));
        }
        Some(Op::Tick(self.now + 1 + rng.below(8) as u64))
    }

    /// apply to both sides; the model follows what the subject accepted
    pub fn apply(&mut self, op: &Op) -> Vec<Mis> {
        let mut out = vec![];
        self.ops.push(op.show());
        let now = self.now;
        match op {
            Op::Tick(t) => self.now = (*t).max(self.now),
            Op::Root(k, m) => match self.s.set_root(&self.w, *k, *m) {
                Out::Ok(()) => self.m.set_root(*k, *m),
                o => out.push(mis(bad(&o, "root refused"), format!("{}: {o:?}", op.show()))),
            },
            Op::Rev(r) => match self.s.revoke(&self.w, r, now) {
                Out::Ok(()) => {
                    self.m.put(St::Rev(r.clone()));
                    self.ever_revoked.insert((r.by, r.for_));
                }
                o => out.push(mis(bad(&o, "genuine statement refused"), format!("{}: {o:?}", op.show()))),
            },
            Op::Trust(t) => {
                let mut m2 = self.m.clone();
                let want = m2.add_trust(t, now, MODEL_CAP).expect("graph too dense for the model");
                let got = self.s.add_trust(&self.w, t, now);
                match (&want, &got) {
                    (Ok(a), Out::Ok(b)) => {
                        if a != b {
                            out.push(mis("weight of a new trust", format!("{}: reported {b}, should be {a}", op.show())));
                        }
                    }
                    (Err(()), Out::Err(_)) => {}
                    (Err(()), Out::Ok(b)) => out.push(mis("expired statement accepted", format!("{}: weight {b}", op.show()))),
                    (_, o) => out.push(mis(bad(o, "genuine statement refused"), format!("{}: {o:?}", op.show()))),
                }
                match got {
                    Out::Ok(b) => {
                        self.m.gc(now);
                        if b > 0 {
                            self.m.put(St::Auth(t.clone()));
                            self.ever.push(t.clone());
                        }
                    }
                    _ => self.m.gc(now),
                }
            }
            Op::Cert(c, raw) => {
                let mut want_ok = true;
                for t in c {
                    match self.m.add_trust(t, now, MODEL_CAP).expect("graph too dense for the model") {
                        Ok(w) => {
                            if w > 0 {
                                self.ever.push(t.clone());
                            }
                        }
                        Err(()) => {
                            want_ok = false;
                            break;
                        }
                    }
                }
                match (want_ok, self.s.add_cert(&self.w, c, now, *raw)) {
                    (true, Out::Ok(())) | (false, Out::Err(_)) => {}
                    (false, Out::Ok(())) => out.push(mis("expired statement accepted", op.show())),
                    (_, o) => out.push(mis(bad(&o, "genuine statement refused"), format!("{}: {o:?}", op.show()))),
                }
            }
        }
        out
    }

    /// compare everything a user can ask about the given keys
    pub fn compare(&mut self, targets: &[Id], rep: &mut Report) -> Vec<Mis> {
        let now = self.now;
        let mut out = vec![];
        for &k in targets {
            let walks = match self.m.walks(k, now, MODEL_CAP) {
                Some(w) => w,
                None => continue,
            };
            self.s.budget(Some(60 * walks as u64 + 400));
            let certs = self.s.certs(&self.w, k, now);
            self.s.budget(Some(60 * walks as u64 + 400));
            let weight = self.s.weight(&self.w, k, now);
            self.s.budget(None);
            let revs = self.s.revocations(&self.w, k);
            rep.count("queries", 3);
            let expected = self.m.chains(k, now, false, MODEL_CAP).unwrap();
            rep.count("valid chains expected", expected.len() as u64);
            let nontrivial = !expected.is_empty() || self.m.rel.len() > 2;
            let state = (k, now, self.m.rel.keys().collect::<Vec<_>>().len(), expected.iter().cloned().collect::<Vec<_>>(), self.m.roots.clone(), self.ops.len(), self.w.peers[k].clone());
            rep.eval(&state, nontrivial);
            let mut limit_weight = None;
            match certs {
                Out::Ok(cs) => {
                    rep.count("certificates returned", cs.len() as u64);
                    let mut dup = BTreeSet::new();
                    for c in &cs {
                        if !dup.insert(c.clone()) {
                            out.push(mis("chain listed twice", format!("k{k}: {}", show_cert(c))));
                        }
                        out.extend(self.judge_cert(k, c, now));
                        if let Some(Ok(r)) = c.first().map(|l| &l.for_) {
                            if let Some(l) = self.m.limit(*r) {
                                let n = c.len() as u32 - 1;
                                if n <= l {
                                    limit_weight = limit_weight.max(Some(1u32 << (l - n)));
                                }
                            }
                        }
                    }
                    for e in &expected {
                        let want: Cert = self.cert_of(e, now);
                        if !cs.contains(&want) {
                            let touched = e.iter().any(|a| self.ever_revoked.iter().any(|(x, y)| x == a || y == a));
                            out.push(mis(if touched { "chain missing (revocations nearby)" } else { "chain missing" }, format!("k{k}: {}", show_cert(&want))));
                        }
                    }
                }
                o => out.push(mis(bad(&o, "query failed"), format!("certificates of k{k}: {o:?}"))),
            }
            match weight {
                Out::Ok(wt) => {
                    let want = self.m.weight(k, now, false, MODEL_CAP).unwrap();
                    let free = self.m.weight(k, now, true, MODEL_CAP).unwrap();
                    let own = self.m.own_weight(k).max(limit_weight.unwrap_or(0));
                    if wt != want {
                        let class = if wt > want && free > want && wt <= free {
                            "weight ignores a revocation"
                        } else if wt < want && !self.ever_revoked.is_empty() {
                            "weight too low (revocations nearby)"
                        } else {
                            "weight"
                        };
                        out.push(mis(class, format!("weight of k{k} is {wt}, should be {want}")));
                    } else if wt != own {
                        out.push(mis("weight", format!("weight of k{k} is {wt}, but its certificates give {own}")));
                    }
                }
                o => out.push(mis(bad(&o, "query failed"), format!("weight of k{k}: {o:?}"))),
            }
            if walks < 300 {
                for (c, f) in self.s.cert_worths(&self.w, k, now) {
                    rep.count("certificates valued alone", 1);
                    let l = match c.first().map(|l| &l.for_) {
                        Some(Ok(r)) => self.m.limit(*r),
                        _ => None,
                    };
                    let want = l.map(|l| trust_graph::MAX_WEIGHT_FACTOR.saturating_sub(l) + c.len() as u32 - 1);
                    match f {
                        Out::Ok(got) if got == want => {}
                        o => out.push(mis("weight", format!("k{k}: a certificate of {} trusts under a root of {l:?} is worth {o:?}, should be {want:?}", c.len()))),
                    }
                }
            }
            match revs {
                Out::Ok(rs) => {
                    let n = rs.len();
                    let got: BTreeSet<R> = rs.into_iter().collect();
                    let want = self.m.revocations_of(k);
                    if got != want || got.len() != n {
                        out.push(mis("revocations", format!("revocations of k{k}: got {:?}, should be {:?}", got.iter().map(|r| (r.by, r.at)).collect::<Vec<_>>(), want.iter().map(|r| (r.by, r.at)).collect::<Vec<_>>())));
                    }
                }
                o => out.push(mis(bad(&o, "query failed"), format!("revocations of k{k}: {o:?}"))),
            }
        }
        out
    }

    /// the certificate of a chain, from the statements in force
    pub fn cert_of(&self, c: &[Id], now: u64) -> Cert {
        let link = |by: Id, f: Id| {
            let t = self.m.auth(by, f, now).unwrap();
            Link { for_: Ok(f), exp: t.exp, iat: t.iat, sig: t.sig.clone(), sig_type: fmt_name(self.w.pks[by].get_key_format()).into() }
        };
        let mut v = vec![link(c[0], c[0])];
        for i in 1..c.len() {
            v.push(link(c[i - 1], c[i]));
        }
        v
    }

    fn judge_cert(&self, k: Id, c: &Cert, now: u64) -> Vec<Mis> {
        let mut out = vec![];
        let text = || format!("k{k}: {}", show_cert(c));
        let mut ids = vec![];
        for l in c {
            match &l.for_ {
                Ok(i) => ids.push(*i),
                Err(_) => {
                    out.push(mis("unsound: unknown key", text()));
                    return out;
                }
            }
        }
        if ids.is_empty() || *ids.last().unwrap() != k {
            out.push(mis("unsound: wrong subject", text()));
            return out;
        }
        match self.m.limit(ids[0]) {
            None => out.push(mis("unsound: no root", text())),
            Some(l) => {
                if ids.len() as u32 - 1 > l {
                    out.push(mis("unsound: too long", format!("{} (limit {l})", text())));
                }
            }
        }
        for (i, l) in c.iter().enumerate() {
            let by = if i == 0 { ids[0] } else { ids[i - 1] };
            match self.m.auth(by, ids[i], now) {
                Some(t) if t.exp == l.exp && t.iat == l.iat && t.sig == l.sig => {
                    if l.sig_type != fmt_name(self.w.pks[by].get_key_format()) {
                        out.push(mis("signature type", text()));
                    }
                }
                _ => {
                    let class = if l.exp <= now {
                        "unsound: expired link"
                    } else if self.m.revoked(by, ids[i]) {
                        "revoked link"
                    } else if self.ever.iter().any(|t| t.by == by && t.for_ == ids[i] && t.sig == l.sig) {
                        "unsound: superseded link"
                    } else {
                        "unsound: foreign link"
                    };
                    out.push(mis(class, format!("{} at {i}", text())));
                }
            }
        }
        let mut flat: Vec<Id> = vec![];
        for i in ids {
            if flat.last() != Some(&i) {
                flat.push(i);
            }
        }
        let set: BTreeSet<Id> = flat.iter().copied().collect();
        if set.len() != flat.len() {
            out.push(mis("unsound: repeated key", text()));
        } else if flat.len() < 2 && c.len() < 2 {
            out.push(mis("unsound: bare root", text()));
        }
        if self.m.cut(&flat) {
            out.push(mis("revoked chain", text()));
        }
        out
    }

    /// everything observable, for before/after comparisons on the subject's own answers
    pub fn snapshot(&mut self) -> Result<Snap, Mis> {
        let mut s = Snap::new();
        for k in 0..self.w.n() {
            s.insert(k, self.snap_one(k)?);
        }
        Ok(s)
    }

    pub fn snap_one(&mut self, k: Id) -> Result<(Vec<Cert>, u32, BTreeSet<R>), Mis> {
        let now = self.now;
        let mut c = match self.s.certs(&self.w, k, now) {
            Out::Ok(c) => c,
            o => return Err(mis(bad(&o, "query failed"), format!("certificates of k{k}: {o:?}"))),
        };
        c.sort();
        let w = match self.s.weight(&self.w, k, now) {
            Out::Ok(c) => c,
            o => return Err(mis(bad(&o, "query failed"), format!("weight of k{k}: {o:?}"))),
        };
        let r = match self.s.revocations(&self.w, k) {
            Out::Ok(c) => c.into_iter().collect(),
            o => return Err(mis(bad(&o, "query failed"), format!("revocations of k{k}: {o:?}"))),
        };
        Ok((c, w, r))
    }
}

pub type Snap = BTreeMap<Id, (Vec<Cert>, u32, BTreeSet<R>)>;

pub fn snap_diff(a: &Snap, b: &Snap) -> String {
    let mut o = vec![];
    for (k, x) in a {
        let y = &b[k];
        if x.1 != y.1 {
            o.push(format!("weight of k{k}: {} became {}", x.1, y.1));
        }
        if x.0 != y.0 {
            o.push(format!("certificates of k{k}: [{}] became [{}]", x.0.iter().map(show_cert).collect::<Vec<_>>().join("; "), y.0.iter().map(show_cert).collect::<Vec<_>>().join("; ")));
        }
        if x.2 != y.2 {
            o.push(format!("revocations of k{k} changed from {} to {}", x.2.len(), y.2.len()));
        }
    }
    o.join(" | ")
}

pub fn bad<X>(o: &Out<X>, err: &'static str) -> &'static str {
    match o {
        Out::Panic(p) if p.contains(BUDGET) => "does not finish",
        Out::Panic(_) => "panic",
        Out::Dead(_) => "died",
        _ => err,
    }
}
