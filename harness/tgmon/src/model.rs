//! Reference model of the trust graph, written from the property texts.
use std::collections::{BTreeMap, BTreeSet};

pub type Id = usize;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct T {
    pub by: Id,
    pub for_: Id,
    pub exp: u64,
    pub iat: u64,
    /// raw signature bytes
    pub sig: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct R {
    pub by: Id,
    pub for_: Id,
    pub at: u64,
    pub sig: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum St {
    Auth(T),
    Rev(R),
}

impl St {
    pub fn at(&self) -> u64 {
        match self {
            St::Auth(t) => t.iat,
            St::Rev(r) => r.at,
        }
    }
    pub fn pair(&self) -> (Id, Id) {
        match self {
            St::Auth(t) => (t.by, t.for_),
            St::Rev(r) => (r.by, r.for_),
        }
    }
}

pub const CAP: u32 = 16;

#[derive(Clone, Default, Debug, PartialEq, Eq)]
pub struct Model {
    pub roots: BTreeMap<Id, u32>,
    /// (issuer, subject) -> the statement in force
    pub rel: BTreeMap<(Id, Id), St>,
    /// latest issue time of an expired, forgotten statement of the pair
    pub forgotten: BTreeMap<(Id, Id), u64>,
}

/// what a chain is: the keys from the root to the subject
pub type Chain = Vec<Id>;

impl Model {
    pub fn gc(&mut self, now: u64) {
        let gone: Vec<((Id, Id), u64)> = self.rel.iter().filter_map(|(p, s)| match s {
            St::Auth(t) if t.exp <= now => Some((*p, t.iat)),
            _ => None,
        }).collect();
        for (p, iat) in gone {
            self.rel.remove(&p);
            let f = self.forgotten.entry(p).or_insert(iat);
            *f = (*f).max(iat);
        }
    }

    /// newest wins; not newer changes nothing
    pub fn put(&mut self, s: St) -> bool {
        let p = s.pair();
        match self.rel.get(&p) {
            Some(o) if o.at() >= s.at() => false,
            _ => {
                self.rel.insert(p, s);
                true
            }
        }
    }

    pub fn limit(&self, root: Id) -> Option<u32> {
        self.roots.get(&root).map(|m| (*m).min(CAP))
    }

    pub fn auth(&self, by: Id, for_: Id, now: u64) -> Option<&T> {
        match self.rel.get(&(by, for_)) {
            Some(St::Auth(t)) if t.exp > now => Some(t),
            _ => None,
        }
    }

    pub fn revoked(&self, by: Id, for_: Id) -> bool {
        matches!(self.rel.get(&(by, for_)), Some(St::Rev(_)))
    }

    pub fn revocations_of(&self, for_: Id) -> BTreeSet<R> {
        self.rel.values().filter_map(|s| match s {
            St::Rev(r) if r.for_ == for_ => Some(r.clone()),
            _ => None,
        }).collect()
    }

    pub fn cut(&self, c: &[Id]) -> bool {
        (0..c.len()).any(|i| (i + 1..c.len()).any(|j| self.revoked(c[i], c[j])))
    }

    fn issuers(&self, for_: Id, now: u64) -> Vec<Id> {
        self.rel.values().filter_map(|s| match s {
            St::Auth(t) if t.for_ == for_ && t.by != for_ && t.exp > now => Some(t.by),
            _ => None,
        }).collect()
    }

    /// all valid chains of at least one trust after the root's own;
    /// `None` if there are more than `cap` walks to look at
    pub fn chains(&self, target: Id, now: u64, ignore_revocations: bool, cap: usize) -> Option<BTreeSet<Chain>> {
        let mut out = BTreeSet::new();
        let mut seen = 0usize;
        let mut stack: Vec<Vec<Id>> = vec![vec![target]];
        while let Some(c) = stack.pop() {
            seen += 1;
            if seen > cap {
                return None;
            }
            let head = c[0];
            let n = (c.len() - 1) as u32;
            if n >= 1 && self.auth(head, head, now).is_some() && self.limit(head).map_or(false, |l| n <= l) && (ignore_revocations || !self.cut(&c)) {
                out.insert(c.clone());
            }
            for i in self.issuers(head, now) {
                if !c.contains(&i) {
                    let mut d = vec![i];
                    d.extend(&c);
                    stack.push(d);
                }
            }
        }
        Some(out)
    }

    /// repetition-free backward walks from the target, each self-signed key
    /// counting as passed with or without its own trust
    pub fn walks(&self, target: Id, now: u64, cap: usize) -> Option<usize> {
        let mut n = 0usize;
        let mut stack: Vec<(Vec<Id>, usize)> = vec![(vec![target], 1)];
        while let Some((c, mult)) = stack.pop() {
            let head = c[0];
            let m = mult * if self.auth(head, head, now).is_some() { 2 } else { 1 };
            n += m;
            if n > cap {
                return None;
            }
            for i in self.issuers(head, now) {
                if !c.contains(&i) {
                    let mut d = vec![i];
                    d.extend(&c);
                    stack.push((d, m));
                }
            }
        }
        Some(n)
    }

    pub fn chain_weight(&self, c: &[Id]) -> u32 {
        1 << (self.limit(c[0]).unwrap() - (c.len() as u32 - 1))
    }

    pub fn own_weight(&self, k: Id) -> u32 {
        self.limit(k).map_or(0, |l| 1 << l)
    }

    pub fn weight(&self, k: Id, now: u64, ignore_revocations: bool, cap: usize) -> Option<u32> {
        let c = self.chains(k, now, ignore_revocations, cap)?;
        Some(c.iter().map(|c| self.chain_weight(c)).max().unwrap_or(0).max(self.own_weight(k)))
    }

    /// weight a new trust would get
    pub fn next_weight(&self, by: Id, for_: Id, now: u64, cap: usize) -> Option<u32> {
        let w = self.weight(by, now, false, cap)?;
        Some(if by == for_ { w } else { w / 2 })
    }

    /// a genuine trust offered by its issuer at `now`
    pub fn add_trust(&mut self, t: &T, now: u64, cap: usize) -> Option<Result<u32, ()>> {
        if t.exp < now {
            return Some(Err(()));
        }
        self.gc(now);
        let w = self.next_weight(t.by, t.for_, now, cap)?;
        if w > 0 {
            self.put(St::Auth(t.clone()));
        }
        Some(Ok(w))
    }

    pub fn set_root(&mut self, k: Id, max: u32) {
        self.roots.insert(k, max);
    }

    /// expired statements of a pair may be forgotten at any time: an older one
    /// must not be offered afterwards
    pub fn floor(&self, by: Id, for_: Id, now: u64) -> Option<u64> {
        let f = self.forgotten.get(&(by, for_)).copied();
        let e = match self.rel.get(&(by, for_)) {
            Some(St::Auth(t)) if t.exp <= now => Some(t.iat),
            _ => None,
        };
        f.max(e)
    }
}
