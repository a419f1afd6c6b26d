//! G01..G11: the trust graph, as a library and as the service.
use crate::common::*;
use crate::hist::*;
use crate::model::*;
use crate::subject::*;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use trust_graph::{Auth, TrustRelation};

// ---------------------------------------------------------------- plumbing

/// a database file of one case; removed with everything SQLite puts beside it
pub struct Db(pub String);

/// the directory of one service's database files
impl Db {
    pub fn new(ctx: &Ctx, tag: &str, case: u64) -> Db {
        Db::at(format!("{}/{}-{tag}-{case}.db", ctx.scratch, ctx.property))
    }
    pub fn at(dir: String) -> Db {
        let d = Db(dir);
        d.wipe();
        d
    }
    pub fn beside(&self) -> Db {
        Db::at(format!("{}.keep", self.0))
    }
    pub fn wipe(&self) {
        let _ = std::fs::remove_dir_all(&self.0);
        std::fs::create_dir_all(&self.0).expect("scratch directory");
    }
    /// everything as it is on disk
    pub fn copy_to(&self, to: &Db) {
        to.wipe();
        for f in std::fs::read_dir(&self.0).expect("scratch directory").flatten() {
            std::fs::copy(f.path(), std::path::Path::new(&to.0).join(f.file_name())).expect("copy database");
        }
    }
}

impl Drop for Db {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn svcd(ctx: &Ctx) -> &str {
    ctx.svcd.as_deref().expect("--svcd")
}

/// (subject, its database)
pub fn subject(ctx: &Ctx, svc: bool, tag: &str, case: u64, rng: &mut Rng) -> (Subject, Option<Db>) {
    if svc {
        let db = Db::new(ctx, tag, case);
        (new_svc(svcd(ctx), &db.0), Some(db))
    } else {
        let o = if rng.chance(1, 2) { Some(rng.u64()) } else { None };
        (new_core(o), None)
    }
}

pub type Accept<'a> = &'a (dyn Fn(&str) -> bool + Sync);

fn fatal(c: &str) -> bool {
    matches!(c, "panic" | "died" | "does not finish")
}

/// hand over the disagreements this property is about; true: stop the case
pub fn report(rep: &mut Report, h: &Hist, ms: Vec<Mis>, accept: Accept) -> bool {
    let mut stop = false;
    for m in ms {
        if fatal(m.class) || accept(m.class) {
            rep.violation(m.class, h.describe(&m));
            stop = true;
        } else {
            rep.count("disagreements left to other properties", 1);
        }
        if fatal(m.class) {
            stop = true;
        }
    }
    stop
}

pub struct Plan {
    pub name: &'static str,
    pub cases: u64,
    pub svc: bool,
    pub keys: (u64, u64),
    pub ops: (u64, u64),
    pub every: usize,
}

pub fn start_time(rng: &mut Rng) -> u64 {
    match rng.below(10) {
        0 => 0,
        1 => 60,
        2 => (1u64 << 32) - 30,
        3 => (1u64 << 31) - 30,
        4 => match rng.below(5) {
            0 => (1u64 << 62) + 5,
            1 => (1u64 << 63) - 30,
            2 => (1u64 << 63) + rng.below(1000) as u64,
            3 => u64::MAX - (1 << 40),
            _ => rng.range(1 << 62, u64::MAX - (1 << 40)),
        },
        _ => 1_000 + rng.below(1_800_000_000) as u64,
    }
}

type Extra<'a> = &'a (dyn Fn(&mut Hist, &mut Rng, &mut Report) -> Vec<Mis> + Sync);

pub fn histories(ctx: &Ctx, only: &Only, p: &Plan, gen: &(dyn Fn(&mut Rng) -> Gen + Sync), accept: Accept, extra: &(dyn Fn(&mut Hist, &mut Rng, &mut Report) -> Vec<Mis> + Sync)) -> Report {
    par_cases(ctx, p.name, p.cases, only, |rep, rng, case| {
        let n = rng.range(p.keys.0, p.keys.1) as usize;
        let w = World::random(n, rng, p.svc);
        let (s, _db) = subject(ctx, p.svc, p.name, case, rng);
        let start = start_time(rng);
        let mut h = Hist::new(w, s, start);
        let g = gen(rng);
        let nops = rng.range(p.ops.0, p.ops.1) as usize;
        let all: Vec<Id> = (0..n).collect();
        let mut done = 0;
        let mut tries = 0;
        while done < nops && tries < 4 * nops {
            tries += 1;
            let op = match h.gen_op(&g, rng) {
                Some(o) => o,
                None => continue,
            };
            done += 1;
            rep.count("operations", 1);
            let ms = h.apply(&op);
            if report(rep, &h, ms, accept) {
                return;
            }
            if done % p.every == 0 || done == nops {
                let ms = h.compare(&all, rep);
                if report(rep, &h, ms, accept) {
                    return;
                }
                let ms = extra(&mut h, rng, rep);
                if report(rep, &h, ms, accept) {
                    return;
                }
            }
        }
        rep.count(&format!("histories ({})", h.s.name()), 1);
        let v = json!({"subject": h.s.name(), "operations": h.ops.iter().take(12).collect::<Vec<_>>()});
        rep.sample(|| v);
    })
}

fn no_extra(_: &mut Hist, _: &mut Rng, _: &mut Report) -> Vec<Mis> {
    vec![]
}

fn plans(ctx: &Ctx, core: u64, svc: u64) -> [Plan; 4] {
    [
        Plan { name: "library histories", cases: ctx.n(core, core * 25), svc: false, keys: (3, 8), ops: (20, 60), every: 6 },
        Plan { name: "service histories", cases: ctx.n(svc, svc * 20), svc: true, keys: (3, 6), ops: (12, 32), every: 8 },
        Plan { name: "long library histories", cases: ctx.n(core / 60 + 1, core / 3), svc: false, keys: (6, 20), ops: (250, 900), every: 40 },
        Plan { name: "long service histories", cases: ctx.n(svc / 30 + 1, svc / 2), svc: true, keys: (5, 12), ops: (150, 450), every: 60 },
    ]
}

// ---------------------------------------------------------------- graphs put straight into the storage

fn inject(h: &mut Hist, s: St) {
    let r = match &s {
        St::Auth(t) => TrustRelation::Auth(Auth { trust: h.w.to_trust(t), issued_by: h.w.pks[t.by].clone() }),
        St::Rev(r) => TrustRelation::Revocation(h.w.to_rev(r)),
    };
    let st = h.s.store().clone();
    st.0.borrow_mut().put(r);
    match &s {
        St::Auth(t) => h.ever.push(t.clone()),
        St::Rev(r) => {
            h.ever_revoked.insert((r.by, r.for_));
        }
    }
    h.m.rel.insert(s.pair(), s);
}

/// every graph over `n` keys: each ordered pair with no statement, a trust or a
/// revocation; each key with or without its own trust; several root settings
fn small_graphs(ctx: &Ctx, only: &Only, n: usize, blocks: u64, pick: &(dyn Fn(&mut Rng) -> bool + Sync), accept: Accept) -> Report {
    let pairs: Vec<(Id, Id)> = (0..n).flat_map(|a| (0..n).filter(move |b| *b != a).map(move |b| (a, b))).collect();
    let total = 3u64.pow(pairs.len() as u32);
    let rootsets: Vec<Vec<(Id, u32)>> = vec![
        vec![(0, 1)],
        vec![(0, 2)],
        vec![(0, 3)],
        vec![(0, 4), (1, 1)],
        vec![(0, 2), (1, 2)],
        vec![(0, 0), (1, 3)],
        (0..n).map(|k| (k, 1 + k as u32)).collect(),
        vec![],
    ];
    let name: &'static str = match n {
        2 => "all graphs of two keys",
        3 => "all graphs of three keys",
        _ => "graphs of four keys",
    };
    par_cases(ctx, name, blocks, only, |rep, rng, block| {
        let w = World::random(n, &mut Rng::new(77 + n as u64), false);
        let auth: Vec<T> = pairs.iter().map(|(a, b)| w.trust(*a, *b, 1000, 10)).collect();
        let rev: Vec<R> = pairs.iter().map(|(a, b)| w.rev(*a, *b, 10)).collect();
        let selfs: Vec<T> = (0..n).map(|k| w.trust(k, k, 1000, 10)).collect();
        let all: Vec<Id> = (0..n).collect();
        let mut h = Hist::new(w, new_core(None), 500);
        let mut code = block;
        while code < total {
            if pick(rng) {
                let selfmask_from = if n == 3 { 0 } else { rng.below(1 << n) };
                let selfmask_to = if n == 3 { (1 << n) - 1 } else { selfmask_from };
                for mask in selfmask_from..=selfmask_to {
                    let roots = &rootsets[rng.below(rootsets.len())];
                    let st = h.s.store().clone();
                    *st.0.borrow_mut() = StoreCtl::default();
                    if rng.chance(1, 2) {
                        st.0.borrow_mut().order = Some(rng.u64());
                    }
                    h.m = Model::default();
                    h.ops.clear();
                    h.ever.clear();
                    h.ever_revoked.clear();
                    let mut c = code;
                    for i in 0..pairs.len() {
                        match c % 3 {
                            1 => inject(&mut h, St::Auth(auth[i].clone())),
                            2 => inject(&mut h, St::Rev(rev[i].clone())),
                            _ => {}
                        }
                        c /= 3;
                    }
                    for k in 0..n {
                        if mask >> k & 1 == 1 || roots.iter().any(|r| r.0 == k) && rng.chance(3, 4) {
                            inject(&mut h, St::Auth(selfs[k].clone()));
                        }
                    }
                    h.ops.push(format!("{:?}", h.m.rel.iter().map(|(p, s)| format!("k{}{}k{}", p.0, if matches!(s, St::Rev(_)) { "-X->" } else { "->" }, p.1)).collect::<Vec<_>>()));
                    for (k, l) in roots {
                        let ms = h.apply(&Op::Root(*k, *l));
                        if report(rep, &h, ms, accept) {
                            return;
                        }
                    }
                    rep.count("small graphs", 1);
                    let ms = h.compare(&all, rep);
                    if report(rep, &h, ms, accept) {
                        return;
                    }
                }
            }
            code += blocks;
        }
    })
}

// ---------------------------------------------------------------- shapes

/// edges of a structured graph and its roots
fn shape(rng: &mut Rng) -> (usize, Vec<(Id, Id)>, Vec<(Id, u32)>, &'static str) {
    match rng.below(9) {
        8 => {
            // one line longer than any root allows, with roots along it
            let n = 12 + rng.below(15);
            let mut e: Vec<(Id, Id)> = (0..n - 1).map(|i| (i, i + 1)).collect();
            let mut r = vec![(0, *rng.pick(&[14, 15, 16, 16, 16, u32::MAX]))];
            for _ in 0..1 + rng.below(2) {
                r.push((4 + rng.below(n - 6), *rng.pick(&[8, 12, 15, 16, 16, 17])));
            }
            if rng.chance(1, 3) {
                let a = rng.below(n - 3);
                e.push((a, a + 2));
            }
            (n, e, r, "long line with several roots")
        }
        0 => {
            // one long line, limits around its length and the cap
            let n = 2 + rng.below(19);
            let e = (0..n - 1).map(|i| (i, i + 1)).collect();
            let l = *rng.pick(&[n as u32 - 2, n as u32 - 1, n as u32, 1, 15, 16, 17, 18, 1 << 20, u32::MAX]);
            (n, e, vec![(0, l)], "line")
        }
        1 => {
            // two roots of different limits feeding one line
            let n = 4 + rng.below(8);
            let mut e: Vec<(Id, Id)> = (1..n - 1).map(|i| (i, i + 1)).collect();
            e.push((0, 2));
            (n, e, vec![(0, 16), (1, rng.below(n) as u32)], "two roots, one line")
        }
        2 => {
            let n = 3 + rng.below(4);
            let e = (0..n).map(|i| (i, (i + 1) % n)).collect();
            let mut r = vec![(0, n as u32)];
            if rng.chance(1, 2) {
                r.push((rng.below(n), 2));
            }
            (n, e, r, "ring")
        }
        3 => {
            // ladder of diamonds
            let layers = 1 + rng.below(3);
            let n = 1 + 2 * layers + 1;
            let mut e = vec![(0, 1), (0, 2)];
            for l in 1..layers {
                for a in 0..2 {
                    for b in 0..2 {
                        e.push((2 * l - 1 + a, 2 * l + 1 + b));
                    }
                }
            }
            e.push((n - 3, n - 1));
            e.push((n - 2, n - 1));
            (n, e, vec![(0, layers as u32 + rng.below(3) as u32)], "diamonds")
        }
        4 => {
            // complete graph with its own trusts
            let n = 3 + rng.below(2);
            let mut e = vec![];
            for a in 0..n {
                for b in 0..n {
                    if a != b || rng.chance(1, 2) {
                        e.push((a, b));
                    }
                }
            }
            (n, e, vec![(0, 4), (1, 3)], "complete")
        }
        5 => {
            // roots trusting each other
            let n = 4;
            (n, vec![(0, 1), (1, 0), (0, 2), (1, 2), (2, 3), (3, 2), (1, 1), (2, 2)], vec![(0, rng.below(5) as u32), (1, rng.below(5) as u32)], "mutual roots")
        }
        6 => {
            // a line in which every key has its own trust
            let n = 3 + rng.below(4);
            let mut e: Vec<(Id, Id)> = (0..n - 1).map(|i| (i, i + 1)).collect();
            e.extend((0..n).map(|i| (i, i)));
            (n, e, vec![(0, n as u32 + rng.below(n) as u32)], "self-signed line")
        }
        _ => {
            // star behind a bridge
            let n = 5 + rng.below(4);
            let mut e = vec![(0, 1)];
            e.extend((2..n).map(|i| (1, i)));
            e.extend((2..n - 1).map(|i| (i, i + 1)));
            (n, e, vec![(0, 5)], "star")
        }
    }
}

fn shapes(ctx: &Ctx, only: &Only, name: &'static str, cases: u64, svc: bool, accept: Accept, extra: Extra) -> Report {
    par_cases(ctx, name, cases, only, |rep, rng, case| {
        let (n, edges, roots, what) = shape(rng);
        let w = World::random(n, rng, svc);
        let (s, _db) = subject(ctx, svc, name, case, rng);
        let mut h = Hist::new(w, s, 1_000_000);
        rep.count(&format!("shape:{what}"), 1);
        let all: Vec<Id> = (0..n).collect();
        let mut ops = vec![];
        let mut root_ops: Vec<Op> = roots.iter().map(|(k, l)| Op::Root(*k, *l)).collect();
        for (k, _) in &roots {
            root_ops.push(Op::Trust(h.w.trust(*k, *k, 2_000_000, 900_000)));
        }
        for (a, b) in &edges {
            ops.push(Op::Trust(h.w.trust(*a, *b, 1_500_000 + rng.below(1000) as u64, 999_000 + rng.below(900) as u64)));
        }
        match rng.below(3) {
            0 => {}
            1 => ops.reverse(),
            _ => rng.shuffle(&mut ops),
        }
        let again = ops.clone();
        let mut seq = root_ops;
        // a walk along the graph, offered as one certificate, before or after its trusts
        let mut cert = vec![];
        if rng.chance(1, 3) {
            let trusts: Vec<T> = seq.iter().chain(&ops).filter_map(|o| if let Op::Trust(t) = o { Some(t.clone()) } else { None }).collect();
            let mut at = roots[rng.below(roots.len())].0;
            cert.extend(trusts.iter().find(|t| t.by == at && t.for_ == at).cloned());
            for _ in 0..rng.below(30) {
                let next: Vec<&T> = trusts.iter().filter(|t| t.by == at && (t.for_ != at || n < 5)).collect();
                if next.is_empty() {
                    break;
                }
                let t = (*rng.pick(&next)).clone();
                at = t.for_;
                cert.push(t);
            }
            rep.count("walks offered as a certificate", 1);
            rep.count(if cert.len() > 16 { "of them longer than 16" } else { "of them up to 16" }, 1);
        }
        if !cert.is_empty() && rng.chance(2, 3) {
            seq.push(Op::Cert(cert.clone(), rng.chance(1, 2)));
        }
        seq.extend(ops);
        if !cert.is_empty() {
            seq.push(Op::Cert(cert, rng.chance(1, 2)));
        }
        seq.extend(again.iter().cloned());
        seq.extend(again);
        for (i, op) in seq.iter().enumerate() {
            let ms = h.apply(op);
            if report(rep, &h, ms, accept) {
                return;
            }
            if i % 9 == 8 && n < 10 {
                let t = [rng.below(n)];
                let ms = h.compare(&t, rep);
                if report(rep, &h, ms, accept) {
                    return;
                }
            }
        }
        for round in 0..4 {
            let ms = h.compare(&all, rep);
            if report(rep, &h, ms, accept) {
                return;
            }
            let ms = extra(&mut h, rng, rep);
            if report(rep, &h, ms, accept) {
                return;
            }
            let op = match rng.below(4) {
                0 => Op::Root(roots[rng.below(roots.len())].0, rng.below(n + 1) as u32),
                1 | 2 => Op::Rev(h.w.rev(rng.below(n), rng.below(n), 999_950 + round)),
                _ => {
                    // lift the latest revocation, if its revoker may still give trust
                    match h.m.rel.values().find_map(|s| match s {
                        St::Rev(r) => Some((r.by, r.for_)),
                        _ => None,
                    }) {
                        Some((a, b)) => Op::Trust(h.w.trust(a, b, 1_600_000, 999_990 + round)),
                        None => Op::Rev(h.w.rev(rng.below(n), rng.below(n), 999_950 + round)),
                    }
                }
            };
            let ms = h.apply(&op);
            if report(rep, &h, ms, accept) {
                return;
            }
        }
        let ms = h.compare(&all, rep);
        report(rep, &h, ms, accept);
        let v = json!({"shape": what, "keys": n, "edges": edges.len(), "subject": h.s.name()});
        rep.sample(|| v);
    })
}

/// graphs in which something comes in large numbers: issuers, subjects, roots,
/// revocations of a key, revocations by a key
fn crowds(ctx: &Ctx, only: &Only, name: &'static str, cases: u64, svc: bool, accept: Accept, extra: Extra) -> Report {
    par_cases(ctx, name, cases, only, |rep, rng, case| {
        // the first ones are always large, one of each kind that may hit a limit
        let large = case < 3;
        let line = 2 + rng.below(if large { 2 } else { 5 });
        let crowd = match if large { 7 } else { rng.below(7) } {
            0 | 1 => 5 + rng.below(12),
            2 | 3 => 15 + rng.below(20),
            4 | 5 => 30 + rng.below(if svc { 30 } else { 70 }),
            6 => 129 + rng.below(if svc { 20 } else { 160 }),
            _ => 258 + rng.below(if ctx.thorough { 800 } else { 60 }),
        };
        let n = line + crowd;
        let w = World::random(n, rng, svc);
        let (s, _db) = subject(ctx, svc, name, case, rng);
        let mut h = Hist::new(w, s, 1_000_000);
        let top = line - 1;
        let exp = |rng: &mut Rng| 1_500_000 + rng.below(1000) as u64;
        let iat = |rng: &mut Rng| 999_000 + rng.below(900) as u64;
        let mut seq = vec![Op::Root(0, 16), Op::Trust(h.w.trust(0, 0, exp(rng), iat(rng)))];
        for i in 0..top {
            seq.push(Op::Trust(h.w.trust(i, i + 1, exp(rng), iat(rng))));
        }
        let kind = if large { [1, 5, 3][case as usize] } else { rng.below(6) };
        let what = ["strangers revoke the line", "many issuers", "many subjects", "many roots", "one key revokes many", "everybody revokes, one matters"][kind];
        rep.count(&format!("crowd: {what}"), 1);
        let mut rest = vec![];
        for c in line..n {
            match kind {
                0 | 5 => {
                    for _ in 0..1 + rng.below(2) {
                        let k = if large { top } else { rng.below(line) };
                        rest.push(Op::Rev(h.w.rev(c, k, iat(rng))));
                    }
                }
                1 => {
                    seq.push(Op::Trust(h.w.trust(rng.below(line), c, exp(rng), iat(rng))));
                    rest.push(Op::Trust(h.w.trust(c, top, exp(rng), iat(rng))));
                }
                2 => rest.push(Op::Trust(h.w.trust(rng.below(line), c, exp(rng), iat(rng)))),
                3 => {
                    seq.push(Op::Root(c, rng.below(17) as u32));
                    rest.push(Op::Trust(h.w.trust(c, c, exp(rng), iat(rng))));
                    if rng.chance(1, 2) {
                        rest.push(Op::Trust(h.w.trust(c, rng.below(line), exp(rng), iat(rng))));
                    }
                }
                _ => {
                    rest.push(Op::Trust(h.w.trust(top, c, exp(rng), iat(rng))));
                    if rng.chance(1, 2) {
                        let by = rng.below(line);
                        rest.push(Op::Rev(h.w.rev(by, c, iat(rng))));
                    }
                }
            }
        }
        if kind == 5 {
            let a = rng.below(line);
            let b = if large { top } else { rng.below(line) };
            rest.push(Op::Rev(h.w.rev(a.min(b), a.max(b), 999_950)));
        }
        rng.shuffle(&mut rest);
        seq.extend(rest);
        for op in &seq {
            let ms = h.apply(op);
            if report(rep, &h, ms, accept) {
                return;
            }
        }
        let mut look: Vec<Id> = (0..line).collect();
        for _ in 0..6 {
            look.push(rng.range(line as u64, n as u64 - 1) as usize);
        }
        for round in 0..2 {
            let ms = h.compare(&look, rep);
            if report(rep, &h, ms, accept) {
                return;
            }
            let ms = extra(&mut h, rng, rep);
            if report(rep, &h, ms, accept) {
                return;
            }
            if round == 0 {
                let (a, b) = (rng.below(n), rng.below(n));
                let op = if rng.chance(1, 2) { Op::Rev(h.w.rev(a, b, 999_970)) } else { Op::Root(a, rng.below(6) as u32) };
                let ms = h.apply(&op);
                if report(rep, &h, ms, accept) {
                    return;
                }
            }
        }
        let v = json!({"crowd": what, "keys": n, "subject": h.s.name()});
        rep.sample(|| v);
    })
}

/// thousands of chains to one key
fn floods(ctx: &Ctx, only: &Only, name: &'static str, cases: u64, svc: bool, accept: Accept, extra: Extra) -> Report {
    par_cases(ctx, name, cases, only, |rep, rng, case| {
        let dims = *rng.pick(&if svc { [(33, 2), (11, 3), (6, 4)] } else { [(11, 3), (6, 4), (13, 3)] });
        let (width, depth) = if case == 0 && !svc || ctx.thorough && rng.chance(1, 3) { *rng.pick(&[(70, 2), (17, 3), (8, 4), (4, 6)]) } else { dims };
        let n = width * depth + 2;
        let w = World::random(n, rng, svc);
        let (s, _db) = subject(ctx, svc, name, case, rng);
        let mut h = Hist::new(w, s, 1_000_000);
        let (root, target) = (0, n - 1);
        let key = |layer: usize, i: usize| 1 + layer * width + i;
        let mut ops = vec![Op::Root(root, 16), Op::Trust(h.w.trust(root, root, 2_000_000, 900_000))];
        let mut t = |rng: &mut Rng, a: Id, b: Id| Op::Trust(h.w.trust(a, b, 1_500_000 + rng.below(1000) as u64, 999_000 + rng.below(900) as u64));
        for i in 0..width {
            ops.push(t(rng, root, key(0, i)));
        }
        for l in 1..depth {
            for a in 0..width {
                for b in 0..width {
                    ops.push(t(rng, key(l - 1, a), key(l, b)));
                }
            }
        }
        for i in 0..width {
            ops.push(t(rng, key(depth - 1, i), target));
        }
        if rng.chance(1, 2) {
            let (a, b) = (key(0, rng.below(width)), key(depth - 1, rng.below(width)));
            ops.push(Op::Rev(h.w.rev(a, b, 999_950)));
        }
        if rng.chance(1, 2) {
            ops.push(Op::Rev(h.w.rev(rng.below(n), target, 999_950)));
        }
        for op in &ops {
            let ms = h.apply(op);
            if report(rep, &h, ms, accept) {
                return;
            }
        }
        let ms = h.compare(&[target, key(depth - 1, rng.below(width))], rep);
        if report(rep, &h, ms, accept) {
            return;
        }
        let ms = extra(&mut h, rng, rep);
        report(rep, &h, ms, accept);
        rep.count("chains to one key", h.m.chains(target, h.now, false, MODEL_CAP).map_or(0, |c| c.len() as u64));
        let v = json!({"layers": depth, "keys in each": width, "subject": h.s.name()});
        rep.sample(|| v);
    })
}

/// the workloads all graph properties share, judged for one property
fn graph_check(ctx: &Ctx, only: &Only, gen: &(dyn Fn(&mut Rng) -> Gen + Sync), accept: Accept, core: u64, svc: u64) -> Report {
    let mut r = Report::default();
    for p in plans(ctx, core, svc) {
        r.merge(histories(ctx, only, &p, gen, accept, &no_extra));
        if !r.violations.is_empty() {
            return r;
        }
    }
    r.merge(small_graphs(ctx, only, 3, 64, &|_| true, accept));
    let th = ctx.thorough;
    r.merge(small_graphs(ctx, only, 4, 256, &move |rng: &mut Rng| if th { true } else { rng.chance(1, 20) }, accept));
    r.merge(shapes(ctx, only, "library shapes", ctx.n(1200, 20000), false, accept, &no_extra));
    r.merge(shapes(ctx, only, "service shapes", ctx.n(60, 1500), true, accept, &no_extra));
    r.merge(crowds(ctx, only, "library crowds", ctx.n(160, 4000), false, accept, &no_extra));
    r.merge(crowds(ctx, only, "service crowds", ctx.n(24, 600), true, accept, &no_extra));
    r.merge(floods(ctx, only, "library floods", ctx.n(8, 100), false, accept, &no_extra));
    r.merge(floods(ctx, only, "service floods", ctx.n(3, 30), true, accept, &no_extra));
    r
}

// ---------------------------------------------------------------- G01..G04

pub fn g01(ctx: &Ctx, only: &Only) -> Report {
    let gen = |rng: &mut Rng| Gen { root: 10, near: 1 + rng.below(6) as u32, ..Gen::plain() };
    graph_check(ctx, only, &gen, &|c| c.starts_with("unsound") || c == "expired statement accepted" || c == "revoked link", 1500, 240)
}

pub fn g02(ctx: &Ctx, only: &Only) -> Report {
    let gen = |rng: &mut Rng| Gen { rev: 20 + rng.below(30) as u32, near: 1, weighty: 10, limits: vec![3, 4, 5, 6, 8, 16], ..Gen::plain() };
    let accept = |c: &str| matches!(c, "revoked chain" | "revoked link" | "weight ignores a revocation" | "chain missing (revocations nearby)" | "weight too low (revocations nearby)" | "revocations" | "genuine statement refused");
    graph_check(ctx, only, &gen, &accept, 1500, 240)
}

pub fn g03(ctx: &Ctx, only: &Only) -> Report {
    let gen = |rng: &mut Rng| Gen { rev: 4 + rng.below(16) as u32, near: 1, ..Gen::plain() };
    let accept = |c: &str| matches!(c, "chain missing" | "chain missing (revocations nearby)" | "genuine statement refused" | "query failed" | "root refused");
    graph_check(ctx, only, &gen, &accept, 1500, 240)
}

pub fn g04(ctx: &Ctx, only: &Only) -> Report {
    let gen = |rng: &mut Rng| Gen { root: 10, weighty: 4 + rng.below(6) as u32, near: 2, ..Gen::plain() };
    let accept = |c: &str| c.starts_with("weight") || matches!(c, "unsound: foreign link" | "unsound: too long" | "query failed");
    graph_check(ctx, only, &gen, &accept, 1500, 240)
}

// ---------------------------------------------------------------- G05

fn from_issuer(h: &mut Hist, rng: &mut Rng, rep: &mut Report) -> Vec<Mis> {
    let mut out = vec![];
    let n = h.w.n();
    let now = h.now;
    let pairs: Vec<(Id, Id)> = if h.s.is_svc() || n > 20 { (0..if h.s.is_svc() { 10 } else { 60 }).map(|_| (rng.below(n), rng.below(n))).collect() } else { (0..n).flat_map(|a| (0..n).map(move |b| (a, b))).collect() };
    for (k, i) in pairs {
        if h.m.walks(k, now, MODEL_CAP).is_none() {
            continue;
        }
        let own = match h.s.certs(&h.w, k, now) {
            Out::Ok(c) => c,
            o => {
                out.push(mis(bad(&o, "query failed"), format!("certificates of k{k}: {o:?}")));
                continue;
            }
        };
        let mut want: Vec<Cert> = own.iter().filter(|c| c.iter().any(|l| l.for_ == Ok(i))).cloned().collect();
        want.sort();
        let model: BTreeSet<Chain> = h.m.chains(k, now, false, MODEL_CAP).unwrap().into_iter().filter(|c| c.contains(&i)).collect();
        let best = model.iter().map(|c| h.m.chain_weight(c)).max().unwrap_or(0);
        rep.eval(&("from", k, i, now, &want, h.w.peers[0].clone()), !own.is_empty());
        if !want.is_empty() {
            rep.count("restricted queries with an answer", 1);
        }
        if want.len() < own.len() {
            rep.count("restricted queries that leave something out", 1);
        }
        match h.s.certs_from(&h.w, k, i, now) {
            Out::Ok(mut c) => {
                c.sort();
                if c != want {
                    out.push(mis("restricted certificates", format!("k{k} from k{i}: got [{}], of its certificates [{}]", c.iter().map(show_cert).collect::<Vec<_>>().join("; "), own.iter().map(show_cert).collect::<Vec<_>>().join("; "))));
                }
                for e in &model {
                    let e = h.cert_of(e, now);
                    if !c.contains(&e) {
                        out.push(mis("restricted certificates", format!("k{k} from k{i}: missing {}", show_cert(&e))));
                    }
                }
            }
            o => out.push(mis(bad(&o, "query failed"), format!("certificates of k{k} from k{i}: {o:?}"))),
        }
        match h.s.weight_from(&h.w, k, i, now) {
            Out::Ok(x) => {
                if x != best {
                    out.push(mis("restricted weight", format!("weight of k{k} from k{i} is {x}, should be {best}")));
                }
            }
            o => out.push(mis(bad(&o, "query failed"), format!("weight of k{k} from k{i}: {o:?}"))),
        }
        if h.s.is_svc() {
            let mut own = own.clone();
            own.sort();
            for (issuer, want) in [(None, &own), (Some(i), &want)] {
                match h.s.host_certs(&h.w, k, issuer, now) {
                    Out::Ok(mut c) => {
                        c.sort();
                        if c != *want {
                            out.push(mis("host certificates", format!("host k{k} from {issuer:?}: got [{}], the general query gives [{}]", c.iter().map(show_cert).collect::<Vec<_>>().join("; "), want.iter().map(show_cert).collect::<Vec<_>>().join("; "))));
                        }
                    }
                    o => out.push(mis(bad(&o, "query failed"), format!("host certificates of k{k}: {o:?}"))),
                }
                rep.count("host queries", 1);
            }
        }
    }
    out
}

pub fn g05(ctx: &Ctx, only: &Only) -> Report {
    let gen = |rng: &mut Rng| Gen { rev: 3 + rng.below(10) as u32, walks: 60, near: 2, ..Gen::plain() };
    let accept = |c: &str| c.starts_with("restricted") || c == "host certificates" || c == "query failed";
    let mut r = Report::default();
    for p in plans(ctx, 1000, 200) {
        r.merge(histories(ctx, only, &p, &gen, &accept, &from_issuer));
    }
    r.merge(shapes(ctx, only, "library shapes", ctx.n(240, 8000), false, &accept, &from_issuer));
    r.merge(shapes(ctx, only, "service shapes", ctx.n(40, 1000), true, &accept, &from_issuer));
    r.merge(crowds(ctx, only, "library crowds", ctx.n(40, 1000), false, &accept, &from_issuer));
    r.merge(crowds(ctx, only, "service crowds", ctx.n(16, 400), true, &accept, &from_issuer));
    r
}

// ---------------------------------------------------------------- G06

fn all_roots(h: &mut Hist, rng: &mut Rng) -> Vec<Mis> {
    let mut out = vec![];
    for k in 0..h.w.n() {
        let l = 2 + rng.below(4) as u32;
        out.extend(h.apply(&Op::Root(k, l)));
        let t = h.w.trust(k, k, h.now + 1_000_000, 0);
        out.extend(h.apply(&Op::Trust(t)));
    }
    out
}

pub fn g06(ctx: &Ctx, only: &Only) -> Report {
    let accept = |c: &str| !matches!(c, "does not finish" | "chain listed twice" | "signature type");
    let mut r = Report::default();
    for (name, svc, cases) in [("library orders", false, ctx.n(800, 20000)), ("service orders", true, ctx.n(300, 6000))] {
        r.merge(par_cases(ctx, name, cases, only, |rep, rng, case| {
            let n = 2 + rng.below(3);
            let mut seedw = rng.clone();
            let base = if rng.chance(1, 4) { any_time(rng) >> rng.below(2) } else { 1000 };
            let base = base.clamp(60, u64::MAX - (1 << 40));
            // one multiset of statements, in several orders
            let w0 = World::random(n, &mut seedw.clone(), true);
            let npairs = 1 + rng.below(4);
            let pairs: Vec<(Id, Id)> = (0..npairs).map(|_| (rng.below(n), rng.below(n))).collect();
            let nst = 2 + rng.below(9);
            let mut sts: Vec<St> = vec![];
            let mut distinct = rng.chance(2, 3);
            // issue times of any size; the service refuses those after its own time
            let far: Option<u64> = if rng.chance(1, 3) { Some(any_time(rng).min(if svc { base - 50 } else { u64::MAX - 100 })) } else { None };
            for i in 0..nst {
                let (a, b) = *rng.pick(&pairs);
                let low = match far {
                    Some(f) if rng.chance(1, 2) => f,
                    _ => base - 50,
                };
                let iat = if distinct { low + 2 * i as u64 + 1 } else { low + rng.below(5) as u64 };
                if a != b && rng.chance(2, 5) {
                    sts.push(St::Rev(w0.rev(a, b, iat)));
                } else {
                    // expiry says nothing about which statement is newer
                    let exp = match rng.below(4) {
                        0 => u64::MAX - i as u64,
                        1 => base + 500 - 10 * i as u64,
                        _ => base + 100 + rng.below(1000) as u64,
                    };
                    sts.push(St::Auth(w0.trust(a, b, exp, iat)));
                }
            }
            distinct &= sts.iter().map(|s| s.at()).collect::<std::collections::BTreeSet<_>>().len() == sts.len();
            let mut finals: Vec<(Vec<usize>, Snap)> = vec![];
            let rounds = if svc { 2 } else { 3 };
            for round in 0..rounds {
                let w = World::random(n, &mut seedw.clone(), true);
                let (s, _db) = subject(ctx, svc, name, case * 4 + round, rng);
                let mut h = Hist::new(w, s, base);
                let mut lr = seedw.clone();
                let ms = all_roots(&mut h, &mut lr);
                if report(rep, &h, ms, &accept) {
                    return;
                }
                let mut order: Vec<usize> = (0..sts.len()).collect();
                rng.shuffle(&mut order);
                if round == 1 {
                    order.sort_by_key(|i| std::cmp::Reverse(sts[*i].at()));
                }
                // submissions may repeat
                let mut seq = order.clone();
                for _ in 0..rng.below(4) {
                    let i = rng.below(sts.len());
                    let at = rng.below(seq.len() + 1);
                    // a repeated statement must not jump before its first submission when issue times tie
                    if distinct || at > seq.iter().position(|x| *x == i).unwrap() {
                        seq.insert(at, i);
                    }
                }
                for i in seq {
                    let op = match &sts[i] {
                        St::Auth(t) if rng.chance(1, 4) => {
                            // through a certificate of its issuer
                            match h.m.auth(t.by, t.by, h.now).cloned() {
                                Some(own) if t.by != t.for_ => Op::Cert(vec![own, t.clone()], rng.chance(1, 2)),
                                _ => Op::Trust(t.clone()),
                            }
                        }
                        St::Auth(t) => Op::Trust(t.clone()),
                        St::Rev(r) => Op::Rev(r.clone()),
                    };
                    rep.count("statements offered", 1);
                    let ms = h.apply(&op);
                    if report(rep, &h, ms, &accept) {
                        return;
                    }
                    if rng.chance(1, 3) {
                        let t = [rng.below(n)];
                        let ms = h.compare(&t, rep);
                        if report(rep, &h, ms, &accept) {
                            return;
                        }
                    }
                }
                let all: Vec<Id> = (0..n).collect();
                let ms = h.compare(&all, rep);
                if report(rep, &h, ms, &accept) {
                    return;
                }
                match h.snapshot() {
                    Ok(s) => finals.push((order, s)),
                    Err(m) => {
                        report(rep, &h, vec![m], &accept);
                        return;
                    }
                }
                if distinct {
                    rep.eval(&("order", case, round), true);
                    let d = snap_diff(&finals[0].1, &finals.last().unwrap().1);
                    if !d.is_empty() {
                        rep.violation("arrival order matters", json!({"statements": sts.iter().map(|s| match s { St::Auth(t) => show_t(t), St::Rev(r) => format!("revoke k{}->k{} at={}", r.by, r.for_, r.at) }).collect::<Vec<_>>(), "orders": [finals[0].0, finals.last().unwrap().0], "difference": d}));
                        return;
                    }
                }
            }
            seedw.u64();
            rep.sample(|| json!({"statements": sts.iter().map(|s| match s { St::Auth(t) => show_t(t), St::Rev(r) => format!("revoke k{}->k{} at={}", r.by, r.for_, r.at) }).collect::<Vec<_>>()}));
        }));
    }
    for p in plans(ctx, 500, 120) {
        let gen = |_: &mut Rng| Gen { trust: 45, rev: 30, near: 1, ..Gen::plain() };
        r.merge(histories(ctx, only, &Plan { keys: (2, 4), ..p }, &gen, &accept, &no_extra));
    }
    r
}

// ---------------------------------------------------------------- G07

pub fn g07(ctx: &Ctx, only: &Only) -> Report {
    let accept = |c: &str| !matches!(c, "does not finish" | "chain listed twice" | "signature type");
    let mut r = Report::default();
    for (name, svc, cases) in [("library expiry", false, ctx.n(1200, 30000)), ("service expiry", true, ctx.n(300, 6000))] {
        r.merge(par_cases(ctx, name, cases, only, |rep, rng, case| {
            let n = 3 + rng.below(3);
            let w = World::random(n, rng, svc);
            let (s, _db) = subject(ctx, svc, name, case, rng);
            const TOP: u64 = (1 << 63) - 1;
            const LAST: u64 = u64::MAX - (1 << 40);
            let start = match rng.below(8) {
                0 => TOP - 200,
                6 => TOP - 20 + rng.below(40) as u64,
                7 => TOP + 1 + rng.below(1 << 40) as u64,
                1 => (1 << 32) - 20,
                2 => (1 << 31) - 20,
                3 => 0,
                _ => 1_000_000,
            };
            let mut h = Hist::new(w, s, start);
            let g = Gen { near: 6, trust: 60, cert: 12, rev: 10, tick: 0, root: 4, walks: 60, limits: vec![2, 3, 4, 16], ..Gen::plain() };
            for k in 0..n {
                if k == 0 || rng.chance(1, 3) {
                    let mut ms = h.apply(&Op::Root(k, 3));
                    let e = match rng.below(4) {
                        0 => u64::MAX,
                        1 => TOP,
                        2 => TOP + 1,
                        _ => start.saturating_add(15 + rng.below(30) as u64),
                    };
                    let t = h.w.trust(k, k, e, 0);
                    ms.extend(h.apply(&Op::Trust(t)));
                    if report(rep, &h, ms, &accept) {
                        return;
                    }
                }
            }
            let all: Vec<Id> = (0..n).collect();
            for step in 0..(if svc { 20 } else { 36 }) {
                let op = if rng.chance(1, 3) {
                    // right before, at and after somebody's expiry
                    let exps: Vec<u64> = h.m.rel.values().filter_map(|s| match s {
                        St::Auth(t) if t.exp > h.now => Some(t.exp),
                        _ => None,
                    }).collect();
                    if exps.is_empty() {
                        continue;
                    }
                    let e = if rng.chance(3, 4) { *exps.iter().min().unwrap() } else { *rng.pick(&exps) };
                    let t = match rng.below(4) {
                        0 => e.saturating_sub(1),
                        1 => e.saturating_add(1),
                        _ => e,
                    };
                    let t = if t.saturating_sub(h.now) > 3_000_000 && rng.chance(3, 4) { h.now + 1 } else { t };
                    Op::Tick(t.min(LAST).max(h.now))
                } else if rng.chance(1, 8) {
                    // one the graph holds, offered again as soon as it has expired
                    let held: Vec<T> = h.m.rel.values().filter_map(|s| match s {
                        St::Auth(t) if t.exp < h.now.saturating_add(3_000_000).min(LAST) => Some(t.clone()),
                        _ => None,
                    }).collect();
                    if held.is_empty() {
                        continue;
                    }
                    let t = rng.pick(&held).clone();
                    let mut ms = h.apply(&Op::Tick(h.now.max(t.exp + 1)));
                    rep.count("expired statements offered again", 1);
                    let op = if rng.chance(1, 3) { Op::Cert(vec![t.clone()], rng.chance(1, 2)) } else { Op::Trust(t.clone()) };
                    if matches!(op, Op::Cert(..)) && t.by != t.for_ {
                        continue;
                    }
                    ms.extend(h.apply(&op));
                    if report(rep, &h, ms, &accept) {
                        return;
                    }
                    continue;
                } else if rng.chance(1, 8) {
                    // already expired when offered
                    let a = rng.below(n);
                    let b = rng.below(n);
                    if h.now == 0 {
                        continue;
                    }
                    let floor = h.m.floor(a, b, h.now).map(|f| f + 1).unwrap_or(0);
                    if floor > h.now {
                        continue;
                    }
                    let exp = if rng.chance(1, 2) { h.now - 1 } else { rng.below(h.now.min(1 << 40) as usize) as u64 };
                    Op::Trust(h.w.trust(a, b, exp, h.now))
                } else {
                    match h.gen_op(&g, rng) {
                        Some(o) => o,
                        None => continue,
                    }
                };
                rep.count("operations", 1);
                if matches!(op, Op::Tick(_)) {
                    rep.count("moves of the clock", 1);
                }
                let mut ms = h.apply(&op);
                if !ms.is_empty() {
                    if report(rep, &h, std::mem::take(&mut ms), &accept) {
                        return;
                    }
                }
                // queries in between trigger the collection of expired trusts
                if rng.chance(1, 2) || step % 9 == 8 {
                    let some: Vec<Id> = if svc { vec![rng.below(n), rng.below(n)] } else { all.clone() };
                    let ms = h.compare(&some, rep);
                    if report(rep, &h, ms, &accept) {
                        return;
                    }
                }
            }
            let ms = h.compare(&all, rep);
            report(rep, &h, ms, &accept);
            let v = json!({"subject": h.s.name(), "operations": h.ops.iter().take(14).collect::<Vec<_>>()});
            rep.sample(|| v);
        }));
    }
    r
}

// ---------------------------------------------------------------- G08


fn forge_t(h: &Hist, t: &T, rng: &mut Rng) -> Option<(T, Id, String)> {
    let n = h.w.n();
    let mut f = t.clone();
    let mut by = t.by;
    let what = match rng.below(13) {
        0 => {
            f.exp = f.exp.wrapping_add(1 + rng.below(1000) as u64).max(h.now + 1);
            "later expiry"
        }
        1 => {
            f.iat = h.now.min(f.iat + 1);
            "later issue time"
        }
        2 => {
            f.iat = f.iat.wrapping_sub(1);
            "earlier issue time"
        }
        3 => {
            let i = rng.below(f.sig.len());
            f.sig[i] ^= 1 << rng.below(8);
            "signature bit"
        }
        4 => {
            f.for_ = rng.below(n);
            "another subject"
        }
        5 => {
            by = rng.below(n);
            "another issuer"
        }
        6 => {
            let o = rng.below(n);
            f.sig = h.w.trust(o, f.for_, f.exp, f.iat).sig;
            if o == by {
                return None;
            }
            "signed by somebody else"
        }
        7 => {
            f.sig = h.w.rev(t.by, t.for_, t.iat).sig;
            "signature of a revocation"
        }
        8 => {
            f.sig = vec![];
            "no signature"
        }
        9 => {
            let l = rng.below(f.sig.len());
            f.sig.truncate(l);
            "cut signature"
        }
        10 => {
            f.sig = vec![0; f.sig.len()];
            "zero signature"
        }
        11 => {
            if h.now < 2 {
                return None;
            }
            f = h.w.trust(t.by, t.for_, h.now - 1 - rng.below(h.now.min(5) as usize) as u64, h.now);
            "expired"
        }
        _ => {
            f.exp = u64::MAX;
            f.sig = rng.bytes(f.sig.len());
            "random signature"
        }
    };
    if (f == *t || what != "expired" && h.w.keys[by].public().get_key_format() == h.w.keys[t.by].public().get_key_format() && h.w.trust(by, f.for_, f.exp, f.iat).sig == f.sig) && what != "expired" {
        return None;
    }
    if by == t.by && f == *t {
        return None;
    }
    Some((f, by, what.to_string()))
}

fn forge_r(h: &Hist, r: &R, rng: &mut Rng) -> Option<(R, String)> {
    let n = h.w.n();
    let mut f = r.clone();
    let what = match rng.below(9) {
        0 => {
            f.at = (f.at + 1 + rng.below(4) as u64).min(h.now);
            "later time"
        }
        1 => {
            f.at = f.at.saturating_sub(1);
            "earlier time"
        }
        2 => {
            f.for_ = rng.below(n);
            "another subject"
        }
        3 => {
            f.by = rng.below(n);
            "another revoker"
        }
        4 => {
            let i = rng.below(f.sig.len());
            f.sig[i] ^= 1 << rng.below(8);
            "signature bit"
        }
        5 => {
            f.sig = h.w.trust(r.by, r.for_, r.at, r.at).sig;
            "signature of a trust"
        }
        6 => {
            let o = rng.below(n);
            if o == r.by {
                return None;
            }
            f.sig = h.w.rev(o, r.for_, r.at).sig;
            "signed by somebody else"
        }
        7 => {
            f.sig = vec![];
            "no signature"
        }
        _ => {
            f.sig = rng.bytes(64);
            "random signature"
        }
    };
    if f == *r || h.w.rev(f.by, f.for_, f.at).sig == f.sig {
        return None;
    }
    Some((f, what.to_string()))
}

/// one attempt to smuggle something in; what it must leave behind
fn smuggle(h: &mut Hist, rng: &mut Rng, rep: &mut Report) -> Vec<Mis> {
    let n = h.w.n();
    let now = h.now;
    let mut out = vec![];
    let before = match h.snapshot() {
        Ok(s) => s,
        Err(m) => return vec![m],
    };
    let known: Vec<(Id, Id)> = h.m.rel.keys().copied().collect();
    let ws = h.weights();
    let strong: Vec<Id> = (0..n).filter(|k| ws[*k] > 1).collect();
    let pair = |rng: &mut Rng| {
        if !known.is_empty() && rng.chance(2, 3) {
            *rng.pick(&known)
        } else {
            (if strong.is_empty() { rng.below(n) } else { *rng.pick(&strong) }, rng.below(n))
        }
    };
    let (a, b) = pair(rng);
    let iat = now.saturating_sub(rng.below(3) as u64);
    match rng.below(5) {
        0 | 1 => {
            let t = match h.m.auth(a, b, now).cloned() {
                Some(t) if rng.chance(1, 2) => t,
                _ => h.w.trust(a, b, now + 100, iat),
            };
            if let Some((f, by, what)) = forge_t(h, &t, rng) {
                rep.count(&format!("forged trust: {what}"), 1);
                h.ops.push(format!("forged trust ({what}) {} offered as k{by}'s", show_t(&f)));
                match h.s.add_trust_as(&h.w, &f, by, now) {
                    Out::Err(_) => {}
                    o => out.push(mis(bad(&o, "forged statement accepted"), format!("{what}: {} as k{by}'s: {o:?}", show_t(&f)))),
                }
                rep.eval(&("forged", &f, by), true);
            }
        }
        2 => {
            let r = h.w.rev(a, b, iat);
            if let Some((f, what)) = forge_r(h, &r, rng) {
                rep.count(&format!("forged revocation: {what}"), 1);
                h.ops.push(format!("forged revocation ({what}) k{}->k{} at {}", f.by, f.for_, f.at));
                match h.s.revoke(&h.w, &f, now) {
                    Out::Err(_) => {}
                    o => out.push(mis(bad(&o, "forged statement accepted"), format!("{what}: revocation k{}->k{}: {o:?}", f.by, f.for_))),
                }
                rep.eval(&("forged", &f), true);
            }
        }
        3 => {
            // somebody replays a genuine trust as his own, or presents it backwards
            let t = h.w.trust(a, b, now + 100, iat);
            let by = rng.below(n);
            if by == a {
                return out;
            }
            h.ops.push(format!("trust {} replayed as k{by}'s", show_t(&t)));
            rep.count("replayed trust", 1);
            match h.s.add_trust_as(&h.w, &t, by, now) {
                Out::Err(_) => {}
                o => out.push(mis(bad(&o, "forged statement accepted"), format!("{} as k{by}'s: {o:?}", show_t(&t)))),
            }
            rep.eval(&("replayed", &t, by), true);
        }
        _ => {
            // a certificate with one bad link: taken in up to it
            let len = 2 + rng.below(4);
            let r = if strong.is_empty() { rng.below(n) } else { *rng.pick(&strong) };
            let mut ks = vec![r];
            let mut c: Vec<T> = vec![];
            for i in 0..len {
                let (by, f) = if i == 0 { (r, r) } else { (ks[i - 1], rng.below(n)) };
                if h.m.floor(by, f, now).map_or(false, |x| x >= iat) {
                    return out;
                }
                let t = match h.m.auth(by, f, now).cloned() {
                    Some(t) if rng.chance(2, 3) => t,
                    _ => h.w.trust(by, f, now + 50 + rng.below(500) as u64, iat),
                };
                c.push(t);
                if i > 0 {
                    ks.push(f);
                }
            }
            let mut m = h.m.clone();
            for t in &c {
                m.rel.insert((t.by, t.for_), St::Auth(t.clone()));
            }
            if (0..n).any(|k| m.walks(k, now, 300).is_none()) {
                return out;
            }
            let at = rng.below(len);
            let (f, by, what) = match forge_t(h, &c[at].clone(), rng) {
                Some(x) => x,
                None => return out,
            };
            // within a certificate the issuer is given by the link before
            if by != c[at].by || f.for_ != c[at].for_ {
                return out;
            }
            let mut bad_cert = c.clone();
            bad_cert[at] = f;
            h.ops.push(format!("certificate with a forged link {at} ({what}): [{}]", bad_cert.iter().map(show_t).collect::<Vec<_>>().join(", ")));
            rep.count(&format!("certificate with a forged link: {what}"), 1);
            for t in &c[..at] {
                if let Some(Ok(w)) = h.m.add_trust(t, now, MODEL_CAP) {
                    if w > 0 {
                        h.ever.push(t.clone());
                    }
                }
            }
            let raw = rng.chance(1, 2);
            match h.s.add_cert(&h.w, &bad_cert, now, raw) {
                Out::Err(_) => {}
                o => out.push(mis(bad(&o, "forged statement accepted"), format!("certificate with {what} at {at}: {o:?}"))),
            }
            rep.eval(&("forged certificate", &bad_cert, at), true);
            let all: Vec<Id> = (0..n).collect();
            out.extend(h.compare(&all, rep));
            return out;
        }
    }
    match h.snapshot() {
        Ok(after) => {
            let d = snap_diff(&before, &after);
            if !d.is_empty() {
                out.push(mis("refused statement left a trace", format!("{}: {d}", h.ops.last().unwrap())));
            }
        }
        Err(m) => out.push(m),
    }
    out
}

pub fn g08(ctx: &Ctx, only: &Only) -> Report {
    let gen = |rng: &mut Rng| Gen { rev: 5 + rng.below(10) as u32, near: 2, walks: 60, ..Gen::plain() };
    let accept = |c: &str| matches!(c, "forged statement accepted" | "refused statement left a trace" | "expired statement accepted" | "chain missing" | "chain missing (revocations nearby)" | "revocations") || c.starts_with("unsound") || c.starts_with("revoked") || c.starts_with("weight");
    let extra = |h: &mut Hist, rng: &mut Rng, rep: &mut Report| {
        let mut out = vec![];
        for _ in 0..(if h.s.is_svc() { 3 } else { 6 }) {
            out.extend(smuggle(h, rng, rep));
        }
        out
    };
    let mut r = Report::default();
    let [a, b, ..] = plans(ctx, 900, 200);
    for p in [Plan { keys: (3, 6), every: 4, ..a }, Plan { keys: (3, 5), every: 5, ..b }] {
        r.merge(histories(ctx, only, &p, &gen, &accept, &extra));
    }
    r.merge(shapes(ctx, only, "library shapes", ctx.n(200, 4000), false, &accept, &no_extra));
    r.merge(shapes(ctx, only, "service shapes", ctx.n(16, 400), true, &accept, &no_extra));
    r
}

// ---------------------------------------------------------------- G09

fn ask(h: &mut Hist, rng: &mut Rng, at: u64) -> Result<(), Mis> {
    let n = h.w.n();
    let (k, i) = (rng.below(n), rng.below(n));
    let fine = |o: &str, e: String| -> Result<(), Mis> {
        match o {
            "ok" => Ok(()),
            "panic" => Err(mis("panic", e)),
            "dead" => Err(mis("died", e)),
            _ => Err(mis("query failed", e)),
        }
    };
    match rng.below(6) {
        0 => {
            let o = h.s.certs(&h.w, k, at);
            fine(o.kind(), format!("{o:?}"))
        }
        1 => {
            let o = h.s.weight(&h.w, k, at);
            fine(o.kind(), format!("{o:?}"))
        }
        2 => {
            let o = h.s.certs_from(&h.w, k, i, at);
            fine(o.kind(), format!("{o:?}"))
        }
        3 => {
            let o = h.s.weight_from(&h.w, k, i, at);
            fine(o.kind(), format!("{o:?}"))
        }
        4 => {
            let o = h.s.revocations(&h.w, k);
            fine(o.kind(), format!("{o:?}"))
        }
        _ => {
            if !h.s.is_svc() {
                return Ok(());
            }
            let o = h.s.host_certs(&h.w, k, if rng.chance(1, 2) { Some(i) } else { None }, at);
            fine(o.kind(), format!("{o:?}"))
        }
    }
}

pub fn g09(ctx: &Ctx, only: &Only) -> Report {
    let mut r = Report::default();
    for (name, svc, cases) in [("library twins", false, ctx.n(900, 25000)), ("service twins", true, ctx.n(200, 4000))] {
        r.merge(par_cases(ctx, name, cases, only, |rep, rng, case| {
            let n = 3 + rng.below(4);
            let seed = rng.u64();
            let w1 = World::random(n, &mut Rng::new(seed), svc);
            let w2 = World::random(n, &mut Rng::new(seed), svc);
            let (s1, _d1) = subject(ctx, svc, name, case * 2, rng);
            let (s2, _d2) = subject(ctx, svc, name, case * 2 + 1, rng);
            let start = start_time(rng);
            // asked twin and quiet twin
            let mut a = Hist::new(w1, s1, start);
            let mut q = Hist::new(w2, s2, start);
            let g = Gen { near: 4, walks: 80, tick: 20, ..Gen::plain() };
            let stop = |rep: &mut Report, h: &Hist, m: Mis| rep.violation(m.class, h.describe(&m));
            let nops = if svc { 18 } else { 40 };
            for step in 0..nops {
                let op = match a.gen_op(&g, rng) {
                    Some(o) => o,
                    None => continue,
                };
                let m1 = a.apply(&op);
                let m2 = q.apply(&op);
                rep.count("operations", 1);
                rep.eval(&(case, step), true);
                let (l1, l2): (Vec<String>, Vec<String>) = (m1.iter().map(|m| m.text.clone()).collect(), m2.iter().map(|m| m.text.clone()).collect());
                for m in m1.into_iter().chain(m2) {
                    if fatal(m.class) {
                        return stop(rep, &a, m);
                    }
                }
                if l1 != l2 {
                    let m = mis("an operation answers differently after queries", format!("asked twin: {l1:?}; quiet twin: {l2:?}"));
                    return stop(rep, &a, m);
                }
                for _ in 0..rng.below(if svc { 6 } else { 12 }) {
                    // now, or looking back; never ahead
                    let at = if rng.chance(2, 3) { a.now } else { a.now.saturating_sub(rng.below(30) as u64) };
                    rep.count("extra queries", 1);
                    if let Err(m) = ask(&mut a, rng, at) {
                        return stop(rep, &a, m);
                    }
                }
                if step % 6 == 5 || step + 1 == nops {
                    // the same question twice
                    let x = match a.snapshot() {
                        Ok(s) => s,
                        Err(m) => return stop(rep, &a, m),
                    };
                    let y = match a.snapshot() {
                        Ok(s) => s,
                        Err(m) => return stop(rep, &a, m),
                    };
                    rep.count("repeated snapshots", 1);
                    let d = snap_diff(&x, &y);
                    if !d.is_empty() {
                        let m = mis("asking twice gives two answers", d);
                        return stop(rep, &a, m);
                    }
                }
            }
            let x = match a.snapshot() {
                Ok(s) => s,
                Err(m) => return stop(rep, &a, m),
            };
            let y = match q.snapshot() {
                Ok(s) => s,
                Err(m) => return stop(rep, &q, m),
            };
            rep.eval(&("end", case), true);
            let d = snap_diff(&y, &x);
            if !d.is_empty() {
                let m = mis("queries changed the graph", format!("quiet twin against asked twin: {d}"));
                return stop(rep, &a, m);
            }
            // and later, when more has expired
            for later in [3u64, 40, 500] {
                a.now += later;
                q.now += later;
                match (a.snapshot(), q.snapshot()) {
                    (Ok(x), Ok(y)) => {
                        let d = snap_diff(&y, &x);
                        rep.eval(&("later", case, later), true);
                        if !d.is_empty() {
                            let m = mis("queries changed the graph", format!("{later}s later: {d}"));
                            return stop(rep, &a, m);
                        }
                    }
                    (Err(m), _) | (_, Err(m)) => return stop(rep, &a, m),
                }
            }
            // against the reference as well: nothing unexpired lost to both twins' queries
            let all: Vec<Id> = (0..n).collect();
            a.now -= 0;
            let ms = a.compare(&all, rep);
            let acc = |c: &str| matches!(c, "chain missing" | "chain missing (revocations nearby)" | "revocations" | "weight");
            report(rep, &a, ms, &acc);
            let v = json!({"subject": a.s.name(), "operations": a.ops.iter().take(12).collect::<Vec<_>>()});
            rep.sample(|| v);
        }));
    }
    r
}

// ---------------------------------------------------------------- G10

/// reads of the last library call, statements of the last service call
fn work(s: &Subject) -> u64 {
    match &s.kind {
        Kind::Core { store, .. } => {
            let c = store.0.borrow();
            c.reads + c.writes
        }
        Kind::Svc(s) => s.last_prepared,
    }
}

fn bounded(h: &mut Hist, targets: &[Id], rng: &mut Rng, rep: &mut Report) -> Vec<Mis> {
    let mut out = vec![];
    let now = h.now;
    let n = h.w.n();
    for &k in targets {
        let walks = match h.m.walks(k, now, MODEL_CAP) {
            Some(x) => x as u64,
            None => continue,
        };
        let bound = 6 * walks + 24;
        let i = rng.below(n);
        for q in 0..4 {
            h.s.budget(Some(4 * bound));
            let r: Out<Vec<Cert>> = match q {
                0 => h.s.certs(&h.w, k, now),
                1 => h.s.certs_from(&h.w, k, i, now),
                2 => h.s.weight(&h.w, k, now).map(|_| vec![]),
                _ => h.s.weight_from(&h.w, k, i, now).map(|_| vec![]),
            };
            let used = work(&h.s);
            h.s.budget(None);
            rep.eval(&(q, k, walks, used, h.m.rel.len()), walks > 1);
            rep.count("queries", 1);
            rep.count("storage accesses observed", used);
            rep.count(&format!("walks {}", if walks < 4 { "1-3" } else if walks < 20 { "4-19" } else if walks < 200 { "20-199" } else if walks < 2000 { "200-1999" } else { "2000 and more" }), 1);
            match r {
                Out::Ok(cs) => {
                    if used > bound {
                        out.push(mis("too much work", format!("query {q} of k{k}: {used} accesses for {walks} repetition-free walks")));
                    }
                    let set: BTreeSet<&Cert> = cs.iter().collect();
                    if set.len() != cs.len() {
                        out.push(mis("chain listed twice", format!("query {q} of k{k}: {} certificates, {} different", cs.len(), set.len())));
                    }
                }
                o => out.push(mis(bad(&o, "query failed"), format!("query {q} of k{k}: {}", o.kind()))),
            }
        }
    }
    out
}

pub fn g10(ctx: &Ctx, only: &Only) -> Report {
    let accept = |c: &str| matches!(c, "too much work" | "chain listed twice" | "query failed" | "unsound: repeated key");
    let mut r = par_cases(ctx, "dense library graphs", ctx.n(700, 12000), only, |rep, rng, _| {
        let n = 2 + rng.below(6);
        let w = World::random(n, rng, false);
        let mut h = Hist::new(w, new_core(if rng.chance(1, 2) { Some(rng.u64()) } else { None }), 500);
        let density = *rng.pick(&[2u32, 4, 6, 8, 10]);
        let (revs, selfs) = (rng.below(3) as u32, *rng.pick(&[0u32, 3, 10]));
        for a in 0..n {
            for b in 0..n {
                if a == b {
                    if rng.chance(selfs, 10) {
                        let t = h.w.trust(a, a, 900, 3);
                        inject(&mut h, St::Auth(t));
                    }
                } else if rng.chance(density, 10) {
                    let s = if rng.chance(revs, 10) { St::Rev(h.w.rev(a, b, 3)) } else { St::Auth(h.w.trust(a, b, 900 + rng.below(9) as u64, 3)) };
                    inject(&mut h, s);
                }
            }
        }
        for k in 0..n {
            if rng.chance(1, 2) {
                let ms = h.apply(&Op::Root(k, rng.below(18) as u32));
                if report(rep, &h, ms, &accept) {
                    return;
                }
            }
        }
        let all: Vec<Id> = (0..n).collect();
        let ms = bounded(&mut h, &all, rng, rep);
        report(rep, &h, ms, &accept);
        rep.sample(|| json!({"keys": n, "relations": h.m.rel.len()}));
    });
    // long lines and deep rings: no recursion or length trouble
    r.merge(par_cases(ctx, "deep library graphs", ctx.n(16, 200), only, |rep, rng, case| {
        let n = [40, 120, 300][case as usize % 3];
        let keys = distinct_keys(n, rng, |_| fluence_keypair::KeyFormat::Ed25519);
        let mut h = Hist::new(World::new(keys), new_core(None), 500);
        for a in 0..n {
            let b = if rng.chance(1, 2) { (a + 1) % n } else { (a + 1).min(n - 1) };
            if a != b {
                let t = h.w.trust(a, b, 900, 3);
                inject(&mut h, St::Auth(t));
            }
        }
        let t = h.w.trust(0, 0, 900, 3);
        inject(&mut h, St::Auth(t));
        let ms = h.apply(&Op::Root(0, 16));
        if report(rep, &h, ms, &accept) {
            return;
        }
        let ts = [0, 1, n / 2, n - 1];
        let ms = bounded(&mut h, &ts, rng, rep);
        report(rep, &h, ms, &accept);
        rep.count("deep graphs", 1);
    }));
    r.merge(par_cases(ctx, "dense service graphs", ctx.n(60, 1200), only, |rep, rng, case| {
        let n = 3 + rng.below(3);
        let w = World::random(n, rng, true);
        let (s, _db) = subject(ctx, true, "dense", case, rng);
        let mut h = Hist::new(w, s, 500);
        // every key a root at first, so that every trust is taken in
        let mut ms = vec![];
        for k in 0..n {
            ms.extend(h.apply(&Op::Root(k, 16)));
        }
        let dense = *rng.pick(&[5u32, 8, 10]);
        for a in 0..n {
            for b in 0..n {
                if a == b || rng.chance(dense, 10) {
                    let t = h.w.trust(a, b, 900, 3);
                    ms.extend(h.apply(&Op::Trust(t)));
                } else if rng.chance(1, 2) {
                    let x = h.w.rev(a, b, 3);
                    ms.extend(h.apply(&Op::Rev(x)));
                }
            }
        }
        if report(rep, &h, ms, &accept) {
            return;
        }
        let all: Vec<Id> = (0..n).collect();
        let ms = bounded(&mut h, &all, rng, rep);
        report(rep, &h, ms, &accept);
    }));
    let gen = |rng: &mut Rng| Gen { rev: rng.below(20) as u32, near: 1, ..Gen::plain() };
    let extra = |h: &mut Hist, rng: &mut Rng, rep: &mut Report| {
        let n = h.w.n();
        let t = [rng.below(n), rng.below(n)];
        bounded(h, &t, rng, rep)
    };
    for p in plans(ctx, 250, 60) {
        r.merge(histories(ctx, only, &p, &gen, &accept, &extra));
    }
    r
}

// ---------------------------------------------------------------- G11

/// calls whose failures are looked at
#[derive(Clone, Debug)]
enum Call {
    Do(Op),
    Certs(Id),
    CertsFrom(Id, Id),
    Weight(Id),
    WeightFrom(Id, Id),
    Revocations(Id),
    Host(Id, Option<Id>),
}

fn run_call(h: &mut Hist, c: &Call) -> Out<Value> {
    let now = h.now;
    let certs = |o: Out<Vec<Cert>>| {
        o.map(|mut c| {
            c.sort();
            json!(c.iter().map(show_cert).collect::<Vec<_>>())
        })
    };
    match c {
        Call::Do(Op::Root(k, l)) => h.s.set_root(&h.w, *k, *l).map(|_| json!(null)),
        Call::Do(Op::Trust(t)) => h.s.add_trust(&h.w, t, now).map(|w| json!(w)),
        Call::Do(Op::Cert(c, raw)) => h.s.add_cert(&h.w, c, now, *raw).map(|_| json!(null)),
        Call::Do(Op::Rev(r)) => h.s.revoke(&h.w, r, now).map(|_| json!(null)),
        Call::Do(Op::Tick(_)) => Out::Ok(json!(null)),
        Call::Certs(k) => certs(h.s.certs(&h.w, *k, now)),
        Call::CertsFrom(k, i) => certs(h.s.certs_from(&h.w, *k, *i, now)),
        Call::Weight(k) => h.s.weight(&h.w, *k, now).map(|w| json!(w)),
        Call::WeightFrom(k, i) => h.s.weight_from(&h.w, *k, *i, now).map(|w| json!(w)),
        Call::Revocations(k) => h.s.revocations(&h.w, *k).map(|r| json!(r.len())),
        Call::Host(k, i) => certs(h.s.host_certs(&h.w, *k, *i, now)),
    }
}

fn pick_call(h: &mut Hist, g: &Gen, rng: &mut Rng) -> Option<Call> {
    let n = h.w.n();
    let (k, i) = (rng.below(n), rng.below(n));
    Some(match rng.below(10) {
        0 => Call::Certs(k),
        1 => Call::CertsFrom(k, i),
        2 => Call::Weight(k),
        3 => Call::WeightFrom(k, i),
        4 => Call::Revocations(k),
        5 if h.s.is_svc() => Call::Host(k, if rng.chance(1, 2) { Some(i) } else { None }),
        _ => match h.gen_op(g, rng)? {
            Op::Tick(_) => return None,
            o => Call::Do(o),
        },
    })
}

/// snapshots of every state an interrupted call may leave
fn allowed(prefix: &[Snap], got: &Snap) -> bool {
    prefix.iter().any(|s| s == got)
}

pub fn g11(ctx: &Ctx, only: &Only) -> Report {
    let g = Gen { near: 2, walks: 40, rev: 20, ..Gen::plain() };
    let mut r = par_cases(ctx, "library storage failures", ctx.n(220, 6000), only, |rep, rng, _| {
        let n = 3 + rng.below(3);
        let w = World::random(n, rng, false);
        let mut h = Hist::new(w, new_core(None), 1_000_000);
        for _ in 0..(10 + rng.below(25)) {
            if let Some(op) = h.gen_op(&g, rng) {
                let ms = h.apply(&op);
                if report(rep, &h, ms, &|_| false) {
                    return;
                }
            }
        }
        let st = h.s.store().clone();
        for _ in 0..4 {
            let call = match pick_call(&mut h, &g, rng) {
                Some(c) => c,
                None => continue,
            };
            let mem = st.0.borrow().mem.clone();
            let before = match h.snapshot() {
                Ok(s) => s,
                Err(m) => {
                    report(rep, &h, vec![m], &|_| true);
                    return;
                }
            };
            st.0.borrow_mut().mem = mem.clone();
            // the states it may leave behind
            let mut states = vec![before.clone()];
            if let Call::Do(Op::Cert(c, raw)) = &call {
                for l in 1..c.len() {
                    st.0.borrow_mut().mem = mem.clone();
                    let _ = h.s.add_cert(&h.w, &c[..l], h.now, *raw);
                    match h.snapshot() {
                        Ok(s) => states.push(s),
                        Err(_) => return,
                    }
                }
            }
            st.0.borrow_mut().mem = mem.clone();
            {
                let mut c = st.0.borrow_mut();
                c.calls = 0;
                c.logging = true;
                c.log.clear();
            }
            let clean = run_call(&mut h, &call);
            let (total, log) = {
                let mut c = st.0.borrow_mut();
                c.logging = false;
                (c.calls, c.log.clone())
            };
            match h.snapshot() {
                Ok(s) => states.push(s),
                Err(_) => return,
            }
            rep.sample(|| json!({"call": format!("{call:?}").chars().take(160).collect::<String>(), "accesses": log.iter().take(12).collect::<Vec<_>>()}));
            if clean.is_err() {
                continue;
            }
            for at in 1..=total {
                for after in [false, true] {
                    {
                        let mut c = st.0.borrow_mut();
                        c.mem = mem.clone();
                        c.calls = 0;
                        c.fail_at = Some(at);
                        c.fail_after = after;
                        c.fired = false;
                    }
                    let got = run_call(&mut h, &call);
                    let fired = {
                        let mut c = st.0.borrow_mut();
                        c.fail_at = None;
                        c.fired
                    };
                    if !fired {
                        rep.count("failures not reached", 1);
                        continue;
                    }
                    rep.count("storage failures injected", 1);
                    rep.count(&format!("failed access: {}", log.get(at as usize - 1).cloned().unwrap_or_default()), 1);
                    rep.eval(&(format!("{call:?}"), at, after), true);
                    let d = |what: &str| json!({"call": format!("{call:?}"), "failed access": at, "of": total, "log": log, "made": after, "got": format!("{got:?}"), "what": what, "history": h.ops});
                    match &got {
                        Out::Err(_) => {}
                        Out::Ok(_) => return rep.violation("storage failure reported as success", d("no error")),
                        Out::Panic(_) => return rep.violation("storage failure crashes", d("panic")),
                        Out::Dead(_) => return rep.violation("storage failure crashes", d("dead")),
                    }
                    let details = d("state");
                    match h.snapshot() {
                        Ok(s) => {
                            if !allowed(&states, &s) {
                                let mut v = details;
                                v["difference"] = json!(snap_diff(&before, &s));
                                return rep.violation("failed operation left a half-made state", v);
                            }
                        }
                        Err(m) => {
                            report(rep, &h, vec![m], &|_| true);
                            return;
                        }
                    }
                }
            }
            st.0.borrow_mut().mem = mem;
        }
    });
    r.merge(par_cases(ctx, "service storage failures", ctx.n(60, 1500), only, |rep, rng, case| {
        let n = 3 + rng.below(2);
        let w = World::random(n, rng, true);
        let (s, db) = subject(ctx, true, "faults", case, rng);
        let db = db.unwrap();
        let mut h = Hist::new(w, s, 1_000_000);
        for _ in 0..(8 + rng.below(10)) {
            if let Some(op) = h.gen_op(&g, rng) {
                let ms = h.apply(&op);
                if report(rep, &h, ms, &|_| false) {
                    return;
                }
            }
        }
        let keep = db.beside();
        for _ in 0..2 {
            let call = match pick_call(&mut h, &g, rng) {
                Some(c) => c,
                None => continue,
            };
            let before = match h.snapshot() {
                Ok(s) => s,
                Err(m) => {
                    report(rep, &h, vec![m], &|_| true);
                    return;
                }
            };
            db.copy_to(&keep);
            let reset = |h: &mut Hist| -> bool {
                let s = h.s.svc();
                s.stop();
                db.wipe();
                keep.copy_to(&db);
                matches!(s.restart(), Out::Ok(_)) && h.snapshot().is_ok()
            };
            let mut states = vec![before.clone()];
            if let Call::Do(Op::Cert(c, raw)) = &call {
                for l in 1..c.len() {
                    if !reset(&mut h) {
                        return;
                    }
                    let _ = h.s.add_cert(&h.w, &c[..l], h.now, *raw);
                    match h.snapshot() {
                        Ok(s) => states.push(s),
                        Err(_) => return,
                    }
                }
            }
            if !reset(&mut h) {
                rep.violation("service does not come back", json!({"history": h.ops}));
                return;
            }
            h.s.svc().want_log = true;
            let clean = run_call(&mut h, &call);
            let (total, log) = (h.s.svc().last_calls, h.s.svc().last_log.clone());
            h.s.svc().want_log = false;
            let fin = match h.snapshot() {
                Ok(s) => s,
                Err(_) => return,
            };
            let mutates = fin != before;
            states.push(fin);
            if clean.is_err() || !matches!(clean, Out::Ok(_)) {
                continue;
            }
            rep.sample(|| json!({"call": format!("{call:?}").chars().take(160).collect::<String>(), "accesses": log.iter().take(12).collect::<Vec<_>>()}));
            if !reset(&mut h) {
                return;
            }
            let stride = if ctx.thorough { 1 } else { 1 + total / 60 };
            let mut at = 1 + if stride > 1 { rng.below(stride as usize) as u64 } else { 0 };
            while at <= total {
                for kind in ["fail_before", "fail_after"] {
                    let code = *rng.pick(&[5, 8, 10, 13, 11]);
                    h.s.svc().fault = Some((at, kind, code));
                    let got = run_call(&mut h, &call);
                    let fired = h.s.svc().last_fired;
                    if !fired && matches!(got, Out::Ok(_)) {
                        rep.count("failures not reached", 1);
                        if mutates && !reset(&mut h) {
                            return;
                        }
                        continue;
                    }
                    rep.count("storage failures injected", 1);
                    rep.count(&format!("failed access: {}", log.get(at as usize - 1).map(|s| s.split_whitespace().next().unwrap_or("").trim_end_matches(':').to_string()).unwrap_or_default()), 1);
                    rep.eval(&(format!("{call:?}"), at, kind), true);
                    let details = json!({"call": format!("{call:?}"), "failed access": at, "of": total, "log": log, "kind": kind, "code": code, "got": format!("{got:?}"), "history": h.ops});
                    match &got {
                        Out::Err(_) => {}
                        Out::Ok(_) => return rep.violation("storage failure reported as success", details),
                        _ => return rep.violation("storage failure crashes", details),
                    }
                    match h.snapshot() {
                        Ok(s) => {
                            if !allowed(&states, &s) {
                                let mut v = details;
                                v["difference"] = json!(snap_diff(&before, &s));
                                return rep.violation("failed operation left a half-made state", v);
                            }
                            if s != before && !reset(&mut h) {
                                return;
                            }
                        }
                        Err(m) => {
                            report(rep, &h, vec![m], &|_| true);
                            return;
                        }
                    }
                }
                at += stride;
            }
            // go on from the state before
            if !reset(&mut h) {
                return;
            }
        }
    }));
    r
}
