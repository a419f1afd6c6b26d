//! S01..S06: the service's own guarantees; and the service's share of T06.
use crate::common::*;
use crate::hist::*;
use crate::model::*;
use crate::props_g::*;
use crate::subject::*;
use fluence_keypair::{KeyFormat, Signature};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use trust_graph::{Certificate, Revocation, Trust};

fn svc_world(ctx: &Ctx, n: usize, tag: &str, case: u64, rng: &mut Rng) -> (Hist, Db) {
    let w = World::random(n, rng, true);
    let db = Db::new(ctx, tag, case);
    let s = new_svc(svcd(ctx), &db.0);
    (Hist::new(w, s, 1_000_000), db)
}

/// nothing in it
fn blank(v: &Value) -> bool {
    match v {
        Value::Null => true,
        Value::Bool(b) => !*b,
        Value::Number(n) => n.as_u64() == Some(0),
        Value::String(s) => s.is_empty(),
        Value::Array(a) => a.is_empty(),
        Value::Object(o) => o.values().all(blank),
    }
}

/// success with an empty error, or failure with an error and no payload
pub fn shape(v: &Value) -> Result<bool, String> {
    let o = v.as_object().ok_or("not a record")?;
    let s = o.get("success").and_then(|x| x.as_bool()).ok_or("no success flag")?;
    let e = o.get("error").and_then(|x| x.as_str()).ok_or("no error text")?;
    if s && !e.is_empty() {
        return Err(format!("success with an error text {e:?}"));
    }
    if !s {
        if e.is_empty() {
            return Err("failure without an error text".into());
        }
        for (k, x) in o {
            if k != "success" && k != "error" && !blank(x) {
                return Err(format!("failure with a payload in {k}"));
            }
        }
    }
    Ok(s)
}

fn stop(rep: &mut Report, h: &Hist, class: &'static str, text: String) {
    let m = mis(class, text);
    rep.violation(class, h.describe(&m));
}

macro_rules! snap {
    ($rep:expr, $h:expr) => {
        match $h.snapshot() {
            Ok(s) => s,
            Err(m) => {
                let c = m.class;
                return stop($rep, &$h, c, m.text);
            }
        }
    };
}

macro_rules! must {
    ($rep:expr, $h:expr, $ms:expr) => {
        if report($rep, &$h, $ms, &|_| true) {
            return;
        }
    };
}

// ---------------------------------------------------------------- S01

pub fn s01(ctx: &Ctx, only: &Only) -> Report {
    par_cases(ctx, "who sets roots", ctx.n(500, 10000), only, |rep, rng, case| {
        let n = 3 + rng.below(4);
        let (mut h, db) = svc_world(ctx, n, "s01", case, rng);
        let owners = [OWNER.to_string(), h.w.peers[0].clone(), h.w.peers[1].clone(), OWNER.to_string(), h.w.peers[2].clone(), String::new(), "x".to_string()];
        let owner = rng.pick(&owners).clone();
        let mut settings: BTreeMap<Id, u32> = BTreeMap::new();
        for step in 0..14 {
            let k = rng.below(n);
            let max = match rng.below(5) {
                0 => rng.below(20) as u32,
                1 => *rng.pick(&[16, 17, 31, 32, 33, 255, 256, 65535, 1 << 31, u32::MAX]),
                _ => rng.below(7) as u32,
            };
            let caller = match rng.below(9) {
                0 => h.w.peers[rng.below(n)].clone(),
                1 => String::new(),
                2 => owner.to_lowercase(),
                3 => format!("{owner} "),
                4 => owner[..owner.len().saturating_sub(1)].to_string(),
                5 => format!("{owner}x"),
                _ => owner.clone(),
            };
            // who the host is makes no difference
            h.s.host = rng.below(n);
            let mut cp = call_params(&h.w, h.s.host, &caller, &owner, "set_root", 2);
            if rng.chance(1, 4) {
                cp["tetraplets"] = json!([clock(&owner), clock(&owner)]);
            }
            if rng.chance(1, 6) {
                cp["particle_id"] = json!(owner);
                cp["service_id"] = json!(owner);
            }
            let malformed = rng.chance(1, 10);
            let peer = if malformed { format!("{}1", h.w.peers[k]) } else { h.w.peers[k].clone() };
            let before = snap!(rep, h);
            let r = h.s.svc().call("set_root", json!([peer, max]), Some(cp));
            h.ops.push(format!("set_root k{k} {max} by {caller:?} (owner {owner:?}){}", if malformed { " malformed" } else { "" }));
            rep.count(if caller == owner { "settings by the owner" } else { "settings by others" }, 1);
            rep.eval(&(case, step, &caller, k, max), true);
            let v = match r {
                Out::Ok(v) => v,
                o => return stop(rep, &h, bad(&o, "query failed"), format!("{o:?}")),
            };
            let ok = match shape(&v) {
                Ok(b) => b,
                Err(e) => return stop(rep, &h, "result shape", e),
            };
            let should = caller == owner && !malformed;
            if ok != should {
                return stop(rep, &h, if should { "the owner cannot set a root" } else { "somebody else sets a root" }, v.to_string());
            }
            if should {
                settings.insert(k, max);
                h.m.set_root(k, max);
            } else {
                let after = snap!(rep, h);
                let d = snap_diff(&before, &after);
                if !d.is_empty() {
                    return stop(rep, &h, "refused setting has an effect", d);
                }
            }
            // what is in force: weights first, then how far chains reach
            let all: Vec<Id> = (0..n).collect();
            let ms = h.compare(&all, rep);
            must!(rep, h, ms);
            if rng.chance(1, 5) {
                let op = match rng.below(2) {
                    0 => {
                        let t = h.w.trust(k, k, 2_000_000, 5);
                        Op::Trust(t)
                    }
                    _ => {
                        let t = h.w.trust(k, rng.below(n), 2_000_000, 5 + step);
                        Op::Trust(t)
                    }
                };
                let ms = h.apply(&op);
                must!(rep, h, ms);
            }
            if rng.chance(1, 10) {
                h.ops.push("restart".into());
                match h.s.svc().restart() {
                    Out::Ok(_) => {}
                    o => return stop(rep, &h, "service does not come back", format!("{o:?}")),
                }
                let ms = h.compare(&all, rep);
                must!(rep, h, ms);
            }
        }
        let _ = db;
        // the last word on each root: a line exactly as long as it allows
        let k = match settings.keys().next() {
            Some(k) => *k,
            None => return,
        };
        let l = (settings[&k].min(CAP) as usize).min(n - 1);
        let mut line = vec![k];
        line.extend((0..n).filter(|x| *x != k));
        let mut ms = vec![];
        let t = h.w.trust(k, k, 3_000_000, 900_000);
        ms.extend(h.apply(&Op::Trust(t)));
        for i in 0..(l + 1).min(n - 1) {
            let t = h.w.trust(line[i], line[i + 1], 3_000_000, 900_000);
            ms.extend(h.apply(&Op::Trust(t)));
        }
        let all: Vec<Id> = (0..n).collect();
        ms.extend(h.compare(&all, rep));
        must!(rep, h, ms);
        let v = json!(h.ops.iter().take(8).collect::<Vec<_>>());
        rep.sample(|| v);
    })
}

// ---------------------------------------------------------------- S02

const TIMED: [&str; 11] = ["insert_cert_raw", "insert_cert", "get_all_certs", "get_all_certs_from", "get_host_certs", "get_host_certs_from", "get_weight", "get_weight_from", "verify_trust", "add_trust", "revoke"];

/// arguments with which the call succeeds (and, for submissions, has an effect)
fn good_args(h: &Hist, f: &str, fresh: u64) -> Value {
    let w = &h.w;
    let now = h.now;
    match f {
        "insert_cert_raw" => json!([w.cert_text(&[w.trust(0, 0, now + 900, now - 50 + fresh), w.trust(0, 2, now + 900, now - 50 + fresh)]), now]),
        "insert_cert" => json!([{"chain": [w.trust_dto(&w.trust(0, 0, now + 900, now - 50 + fresh)), w.trust_dto(&w.trust(0, 2, now + 900, now - 50 + fresh))]}, now]),
        "get_all_certs" => json!([w.peers[1], now]),
        "get_all_certs_from" => json!([w.peers[1], w.peers[0], now]),
        "get_host_certs" => json!([now]),
        "get_host_certs_from" => json!([w.peers[0], now]),
        "get_weight" => json!([w.peers[1], now]),
        "get_weight_from" => json!([w.peers[1], w.peers[0], now]),
        "verify_trust" => json!([w.trust_dto(&w.trust(0, 2, now + 900, now - 50)), w.peers[0], now]),
        "add_trust" => json!([w.trust_dto(&w.trust(0, 2, now + 900, now - 50 + fresh)), w.peers[0], now]),
        "revoke" => json!([w.rev_dto(&w.rev(0, 1, now - 50 + fresh)), now]),
        _ => unreachable!(),
    }
}

pub fn s02(ctx: &Ctx, only: &Only) -> Report {
    par_cases(ctx, "where times come from", ctx.n(330, 6600), only, |rep, rng, case| {
        let f = TIMED[case as usize % TIMED.len()];
        let (mut h, _db) = svc_world(ctx, 4, "s02", case, rng);
        let mut ms = h.apply(&Op::Root(0, 4));
        for op in [h.w.trust(0, 0, 2_000_000, 10), h.w.trust(0, 1, 2_000_000, 10)] {
            ms.extend(h.apply(&Op::Trust(op)));
        }
        must!(rep, h, ms);
        h.s.host = if f.starts_with("get_host") { 1 } else { rng.below(4) };
        let host = h.w.peers[h.s.host].clone();
        let init = match rng.below(3) {
            0 => host.clone(),
            1 => h.w.peers[(h.s.host + 1) % 4].clone(),
            _ => OWNER.to_string(),
        };
        let other = h.w.peers[(h.s.host + 1) % 4].clone();
        let idx = time_arg(f).unwrap();
        let good = good_args(&h, f, 0);
        let nargs = good.as_array().unwrap().len();
        let tet = |p: &str, s: &str, f: &str| json!([{"peer_pk": p, "service_id": s, "function_name": f, "json_path": ""}]);
        let lit = literal(&init);
        let base: Vec<Value> = (0..nargs).map(|i| if i == idx { clock(&host) } else { lit.clone() }).collect();
        let at = |v: Value| {
            let mut b = base.clone();
            b[idx] = v;
            json!(b)
        };
        // (what is wrong, tetraplets)
        let mut wrong: Vec<(String, Value)> = vec![
            ("no tetraplets at all".into(), json!([])),
            ("no tetraplet for the time".into(), json!(base[..idx].to_vec())),
            ("an empty list for the time".into(), at(json!([]))),
            ("a literal".into(), at(lit.clone())),
            ("another peer's clock".into(), at(clock(&other))),
            ("the caller's own clock".into(), at(clock(OWNER))),
            ("no peer".into(), at(clock(""))),
            ("another service".into(), at(tet(&host, "peers", "timestamp_sec"))),
            ("a service of the same prefix".into(), at(tet(&host, "pee", "timestamp_sec"))),
            ("a service in other case".into(), at(tet(&host, "Peer", "timestamp_sec"))),
            ("this service".into(), at(tet(&host, "trust-graph", "timestamp_sec"))),
            ("another function".into(), at(tet(&host, "peer", "timestamp_ms"))),
            ("a function of the same prefix".into(), at(tet(&host, "peer", "timestamp_sec2"))),
            ("a longer path".into(), at(tet(&host, "peer", "is_connected"))),
            ("service and function swapped".into(), at(tet(&host, "timestamp_sec", "peer"))),
            ("no function".into(), at(tet(&host, "peer", ""))),
            ("no service".into(), at(tet(&host, "", "timestamp_sec"))),
            ("everything empty".into(), at(tet("", "", ""))),
            ("a proof behind another value's record".into(), at(json!([lit[0], clock(&host)[0]]))),
            ("only the peer right".into(), at(tet(&host, "op", "identity"))),
            ("a foreign clock, then the host".into(), at(json!([clock(&other)[0], tet(&host, "op", "identity")[0]]))),
            ("the host, then a foreign clock".into(), at(json!([tet(&host, "op", "identity")[0], clock(&other)[0]]))),
            ("service, function and peer from three records".into(), at(json!([tet(&other, "peer", "x")[0], tet(&other, "y", "timestamp_sec")[0], tet(&host, "z", "z")[0]]))),
        ];
        // names that only look right
        for _ in 0..8 {
            let mut t = ["".to_string() + &host, "peer".into(), "timestamp_sec".into()];
            let i = rng.below(3);
            let v = t[i].clone();
            t[i] = match rng.below(9) {
                0 => format!("{}{}", rng.pick(&[" ", "x", "a:", "b/", "c.", "d-", "\0", "\t"]), v),
                1 => format!("{}{}", v, rng.pick(&[" ", "x", ":a", "/b", ".c", "-d", "\0", "\n"])),
                2 => v[1..].to_string(),
                3 => v[..v.len() - 1].to_string(),
                4 => v.to_uppercase(),
                5 => format!("{v}{v}"),
                6 => format!("{v},{other}"),
                7 => v.chars().rev().collect(),
                _ => v.replace(|c| c == 'e' || c == 'K', "x"),
            };
            if t != ["".to_string() + &host, "peer".into(), "timestamp_sec".into()] {
                wrong.push((format!("not quite {t:?}"), at(tet(&t[0], &t[1], &t[2]))));
            }
        }
        for j in 0..nargs + 2 {
            if j != idx {
                let mut b: Vec<Value> = (0..nargs.max(j + 1)).map(|_| lit.clone()).collect();
                b[j] = clock(&host);
                wrong.push((format!("the proof of argument {j} instead"), json!(b)));
            }
        }
        // any records anywhere, only not the right one in the right place
        let pool = [lit[0].clone(), clock(&host)[0].clone(), clock(&other)[0].clone(), tet(&host, "peer", "timestamp_ms")[0].clone(), tet(&host, "op", "identity")[0].clone(), tet("", "", "")[0].clone()];
        for _ in 0..12 {
            let n = rng.below(nargs + 5);
            let mut b: Vec<Vec<Value>> = (0..n).map(|_| (0..*rng.pick(&[0, 1, 1, 1, 2, 3])).map(|_| rng.pick(&pool).clone()).collect()).collect();
            if let Some(x) = b.get_mut(idx) {
                x.retain(|t| *t != pool[1]);
            }
            wrong.push((format!("records {:?}", b.iter().map(|x| x.iter().map(|t| pool.iter().position(|p| p == t).unwrap()).collect::<Vec<_>>()).collect::<Vec<_>>()), json!(b)));
        }
        let mut cp = call_params(&h.w, h.s.host, &init, OWNER, f, nargs);
        rng.shuffle(&mut wrong);
        let before = snap!(rep, h);
        let mut fresh = 0;
        if f.starts_with("insert_cert") {
            // hosts insert certificates themselves, with no request to prove anything
            wrong.clear();
        }
        for (what, tets) in wrong.into_iter().take(if ctx.thorough { 99 } else { 20 }) {
            let mut tets = tets;
            if rng.chance(1, 2) {
                // whatever part of a value each of them stands for
                for t in tets.as_array_mut().unwrap().iter_mut().flat_map(|l| l.as_array_mut().unwrap().iter_mut()) {
                    t["json_path"] = json!(*rng.pick(&["", "$", "$.a", "$.value.[0]", ".length"]));
                }
            }
            cp["tetraplets"] = tets.clone();
            fresh += 1;
            let args = good_args(&h, f, fresh);
            h.ops.push(format!("{f} with {what}"));
            rep.count(&format!("calls with a wrong proof: {f}"), 1);
            rep.eval(&(f, &what, &init == &host), true);
            let v = match h.s.svc().call(f, args, Some(cp.clone())) {
                Out::Ok(v) => v,
                o => return stop(rep, &h, bad(&o, "query failed"), format!("{o:?}")),
            };
            match shape(&v) {
                Ok(true) => {
                    let sig = format!("{f} believes a time of unproven origin");
                    let m = mis("unproven time believed", format!("{what}: {tets}"));
                    rep.violation(sig, h.describe(&m));
                    break;
                }
                Ok(false) => {}
                Err(e) => return stop(rep, &h, "result shape", e),
            }
            let after = snap!(rep, h);
            let d = snap_diff(&before, &after);
            if !d.is_empty() {
                return stop(rep, &h, "refused call has an effect", d);
            }
        }
        // and the right proof is enough, whatever the other arguments' origin
        for extra in 0..4 {
            let mut b = base.clone();
            match extra {
                1 => {
                    for (i, x) in b.iter_mut().enumerate() {
                        if i != idx {
                            *x = json!([]);
                        }
                    }
                }
                2 => {
                    for x in b.iter_mut() {
                        *x = clock(&host);
                    }
                }
                3 => b.push(clock(&other)),
                _ => {}
            }
            cp["tetraplets"] = json!(b);
            fresh += 1;
            let args = good_args(&h, f, fresh);
            h.ops.push(format!("{f} with the right proof"));
            rep.count(&format!("calls with the right proof: {f}"), 1);
            rep.eval(&(f, "right", extra), true);
            match h.s.svc().call(f, args, Some(cp.clone())) {
                Out::Ok(v) => match shape(&v) {
                    Ok(true) => {}
                    Ok(false) => return stop(rep, &h, "proven time refused", v.to_string()),
                    Err(e) => return stop(rep, &h, "result shape", e),
                },
                o => return stop(rep, &h, bad(&o, "query failed"), format!("{o:?}")),
            }
        }
        let v = json!({"function": f, "host": host});
        rep.sample(|| v);
    })
}

// ---------------------------------------------------------------- S03

pub fn s03(ctx: &Ctx, only: &Only) -> Report {
    par_cases(ctx, "future-dated statements", ctx.n(500, 10000), only, |rep, rng, case| {
        let n = 3 + rng.below(3);
        let (mut h, _db) = svc_world(ctx, n, "s03", case, rng);
        h.now = match rng.below(4) {
            0 => 3 + rng.below(20) as u64,
            1 => (1 << 32) - 3,
            2 => (1 << 63) - 500 + rng.below(1000) as u64,
            _ => 1_000_000,
        };
        let mut ms = h.apply(&Op::Root(0, 5));
        let t = h.w.trust(0, 0, u64::MAX - 5, 1);
        ms.extend(h.apply(&Op::Trust(t)));
        let t = h.w.trust(0, 1, u64::MAX - 6, 1);
        ms.extend(h.apply(&Op::Trust(t)));
        must!(rep, h, ms);
        for step in 0..10u64 {
            let now = h.now;
            let ahead = match rng.below(6) {
                0 => now + 1,
                1 => now + 2 + rng.below(1000) as u64,
                2 => u64::MAX,
                3 => ((1u64 << 63) + rng.below(3) as u64).max(now + 1),
                4 => now + (1 << 32),
                _ => now + 60,
            };
            let (a, b) = (*rng.pick(&[0, 0, 1]), rng.below(n));
            // the host's clock was ahead for a while: nothing of that may count at the time given now
            if rng.chance(1, 2) && ahead < u64::MAX - 2000 {
                let later = ahead + rng.below(900) as u64;
                for _ in 0..1 + rng.below(3) {
                    let old = h.w.trust(0, rng.below(2), u64::MAX - 5, 1);
                    let mut bent = h.w.rev(a, (a + 1) % n, 1);
                    bent.sig[9] ^= 1;
                    let what = match rng.below(4) {
                        0 => format!("weight of k{b}: {:?}", h.s.weight(&h.w, b, later)),
                        1 => format!("a trust as old as can be: {:?}", h.s.add_trust(&h.w, &old, later)),
                        2 => format!("a bent revocation: {:?}", h.s.revoke(&h.w, &bent, later)),
                        _ => {
                            let own = h.w.trust(0, 0, u64::MAX - 5, 1);
                            format!("an old certificate: {:?}", h.s.add_cert(&h.w, &[own, old], later, rng.chance(1, 2)))
                        }
                    };
                    h.ops.push(format!("at {later}: {what}"));
                    rep.count("calls at a later time before", 1);
                }
            }
            let before = snap!(rep, h);
            let exp = u64::MAX - rng.below(4) as u64;
            let (what, got): (String, Out<()>) = match rng.below(4) {
                0 => {
                    let t = h.w.trust(a, b, exp, ahead);
                    (format!("trust {}", show_t(&t)), h.s.add_trust(&h.w, &t, now).map(|_| ()))
                }
                1 => {
                    let r = h.w.rev(a, b, ahead);
                    (format!("revocation k{a}->k{b} at {ahead}"), h.s.revoke(&h.w, &r, now))
                }
                x => {
                    let len = if rng.chance(1, 4) { 5 + rng.below(30) } else { 2 + rng.below(3) };
                    let late = rng.below(len);
                    let mut by = 0;
                    let mut c = vec![];
                    for i in 0..len {
                        let f = if i == 0 { 0 } else { (by + 1) % n };
                        c.push(h.w.trust(by, f, exp, if i == late { ahead } else { now - 1 }));
                        by = f;
                    }
                    (format!("certificate{} with link {late} of {len} dated {ahead}", if x == 2 { " text" } else { "" }), h.s.add_cert(&h.w, &c, now, x == 2))
                }
            };
            h.ops.push(format!("at {now}: {what}"));
            rep.count("future-dated statements offered", 1);
            rep.eval(&(case, step, &what), true);
            match got {
                Out::Err(_) => {}
                o => return stop(rep, &h, bad(&o, "future-dated statement accepted"), format!("{what}: {o:?}")),
            }
            let after = snap!(rep, h);
            let d = snap_diff(&before, &after);
            if !d.is_empty() {
                return stop(rep, &h, "refused statement left a trace", format!("{what}: {d}"));
            }
            // dated now or before: taken, and it ranks by its own date
            let iat = match rng.below(3) {
                0 => now,
                _ => now - rng.below(3) as u64,
            };
            let iat = iat.max(h.m.floor(a, b, now).map_or(0, |f| f + 1));
            let op = match rng.below(4) {
                0 => Op::Rev(h.w.rev(a, b, iat)),
                1 => {
                    let own = h.w.trust(0, 0, u64::MAX - 5, iat);
                    let t = h.w.trust(0, b, exp, iat);
                    Op::Cert(vec![own, t], rng.chance(1, 2))
                }
                _ => Op::Trust(h.w.trust(a, b, exp, iat)),
            };
            rep.count("timely statements offered", 1);
            let mut ms = h.apply(&op);
            let all: Vec<Id> = (0..n).collect();
            ms.extend(h.compare(&all, rep));
            must!(rep, h, ms);
            h.now += rng.below(4) as u64;
        }
        let v = json!(h.ops.iter().take(8).collect::<Vec<_>>());
        rep.sample(|| v);
    })
}

// ---------------------------------------------------------------- S04

fn bytes_of(v: &Value) -> Vec<u8> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(999) as u8).collect()).unwrap_or_default()
}

pub fn s04(ctx: &Ctx, only: &Only) -> Report {
    let mut r = par_cases(ctx, "documents through the service", ctx.n(500, 12000), only, |rep, rng, case| {
        let n = 4;
        let (mut h, _db) = svc_world(ctx, n, "s04", case, rng);
        let w_keys: Vec<_> = h.w.keys.clone();
        for step in 0..8 {
            let (by, to) = (rng.below(n), rng.below(n));
            let (exp, iat) = (any_time(rng), any_time(rng));
            let now = if rng.chance(1, 2) { exp } else { any_time(rng) };
            let subject = h.w.peers[to].clone();
            let issuer = h.w.peers[by].clone();
            rep.count("documents", 1);
            macro_rules! call {
                ($f:expr, $a:expr) => {
                    match h.s.svc_call(&h.w, $f, $a) {
                        Out::Ok(v) => {
                            if let Err(e) = shape(&v) {
                                return stop(rep, &h, "result shape", format!("{}: {e}: {v}", $f));
                            }
                            v
                        }
                        o => return stop(rep, &h, bad(&o, "query failed"), format!("{}: {o:?}", $f)),
                    }
                };
            }
            // a trust
            let v = call!("get_trust_bytes", json!([subject, exp, iat]));
            let lib = Trust::signature_bytes(&h.w.pks[to], secs(exp), secs(iat));
            let bytes = bytes_of(&v["result"]);
            rep.eval(&("trust bytes", to, exp, iat, case), true);
            if v["success"] != true || bytes != lib {
                return stop(rep, &h, "bytes to sign", format!("trust bytes for k{to} {exp} {iat}: {v}"));
            }
            let sig = w_keys[by].sign(&bytes).unwrap();
            let raw = sig.to_vec().to_vec();
            let v = call!("issue_trust", json!([subject, exp, iat, raw]));
            let t = v["trust"].clone();
            rep.eval(&("issue", to, exp, iat, &raw), true);
            if v["success"] != true || t["issued_for"] != json!(subject) || t["expires_at"] != json!(exp) || t["issued_at"] != json!(iat) || t["signature"] != json!(bs58::encode(&raw).into_string()) || ![by, to].iter().any(|k| t["sig_type"] == json!(fmt_name(h.w.pks[*k].get_key_format()))) {
                return stop(rep, &h, "issued document differs", format!("asked for k{to} {exp} {iat}: {v}"));
            }
            // as the library verifies it
            for (who, time) in [(by, now), (by, exp), (by, exp.saturating_add(1)), ((by + 1) % n, now)] {
                let v = call!("verify_trust", json!([t, h.w.peers[who], time]));
                let lt = Trust::new(h.w.pks[to].clone(), secs(exp), secs(iat), Signature::from_bytes(KeyFormat::Ed25519, raw.clone()));
                let want = who == by && time <= exp;
                let lib = Trust::verify(&lt, &h.w.pks[who], secs(time)).is_ok();
                rep.eval(&("verify", who == by, time <= exp, &raw), true);
                if (v["success"] == true) != want || lib != want {
                    return stop(rep, &h, "verification differs", format!("k{by}->k{to} exp={exp} iat={iat} as k{who}'s at {time}: service {v}, library {lib}"));
                }
            }
            // a changed field is a changed document
            let mut forged = t.clone();
            match rng.below(3) {
                0 => forged["expires_at"] = json!(exp ^ (1 << rng.below(64))),
                1 => forged["issued_at"] = json!(iat ^ (1 << rng.below(64))),
                _ => forged["issued_for"] = json!(h.w.peers[(to + 1) % n]),
            }
            let v = call!("verify_trust", json!([forged, issuer, 0]));
            if v["success"] == true {
                return stop(rep, &h, "verification differs", format!("forged {forged} verifies"));
            }
            // a revocation
            let v = call!("get_revocation_bytes", json!([subject, iat]));
            let bytes = bytes_of(&v["result"]);
            if v["success"] != true || bytes != Revocation::signature_bytes(&h.w.pks[to], secs(iat)) {
                return stop(rep, &h, "bytes to sign", format!("revocation bytes for k{to} {iat}: {v}"));
            }
            let raw = w_keys[by].sign(&bytes).unwrap().to_vec().to_vec();
            let v = call!("issue_revocation", json!([issuer, subject, iat, raw]));
            let rv = v["revocation"].clone();
            rep.eval(&("issue revocation", to, by, iat, &raw), true);
            if v["success"] != true || rv["revoked_peer_id"] != json!(subject) || rv["revoked_by"] != json!(issuer) || rv["revoked_at"] != json!(iat) || rv["signature"] != json!(bs58::encode(&raw).into_string()) || rv["sig_type"] != json!(fmt_name(h.w.pks[by].get_key_format())) {
                return stop(rep, &h, "issued document differs", format!("revocation by k{by} of k{to} at {iat}: {v}"));
            }
            // through the store and back (times the service can be asked at)
            let iat = iat >> 1;
            h.now = iat.max(h.now);
            if step < 4 && exp > h.now {
                let mut ms = vec![];
                for k in [by, to] {
                    ms.extend(h.apply(&Op::Root(k, 4)));
                }
                let own = h.w.trust(by, by, u64::MAX, 0);
                ms.extend(h.apply(&Op::Trust(own)));
                must!(rep, h, ms);
                let b2 = bytes_of(&call!("get_trust_bytes", json!([subject, exp, iat]))["result"]);
                let raw2 = w_keys[by].sign(&b2).unwrap().to_vec().to_vec();
                let t2 = call!("issue_trust", json!([subject, exp, iat, raw2]))["trust"].clone();
                if h.m.floor(by, to, h.now).map_or(true, |f| f < iat) {
                    let v = call!("add_trust", json!([t2, issuer, h.now]));
                    let mt = T { by, for_: to, exp, iat, sig: raw2.clone() };
                    let want = h.m.add_trust(&mt, h.now, MODEL_CAP).unwrap();
                    if (v["success"] == true) != want.is_ok() || want.is_ok() && v["weight"] != json!(want.unwrap()) {
                        return stop(rep, &h, "adding differs", format!("{t2} by k{by} at {}: {v}, should be {want:?}", h.now));
                    }
                    if by != to && h.m.auth(by, to, h.now) == Some(&mt) {
                        let v = call!("get_all_certs", json!([subject, h.now]));
                        let found = v["certificates"].as_array().unwrap().iter().any(|c| c["chain"].as_array().unwrap().iter().any(|l| *l == t2));
                        rep.eval(&("read back", &raw2), true);
                        rep.count("trusts read back", 1);
                        if !found && h.m.chains(to, h.now, false, MODEL_CAP).map_or(false, |c| c.iter().any(|c| c.windows(2).any(|p| p == [by, to]))) {
                            return stop(rep, &h, "read back differs", format!("{t2} not among {v}"));
                        }
                    }
                }
                let b3 = bytes_of(&call!("get_revocation_bytes", json!([subject, h.now]))["result"]);
                let raw3 = w_keys[by].sign(&b3).unwrap().to_vec().to_vec();
                let r3 = call!("issue_revocation", json!([issuer, subject, h.now, raw3]))["revocation"].clone();
                if h.m.floor(by, to, h.now).map_or(true, |f| f < h.now) {
                    let v = call!("revoke", json!([r3, h.now]));
                    if v["success"] != true {
                        return stop(rep, &h, "adding differs", format!("{r3}: {v}"));
                    }
                    let newer = h.m.put(St::Rev(R { by, for_: to, at: h.now, sig: raw3.clone() }));
                    let v = call!("export_revocations", json!([subject]));
                    let found = v["revocations"].as_array().unwrap().iter().any(|x| *x == r3);
                    rep.eval(&("revocation read back", &raw3), true);
                    rep.count("revocations read back", 1);
                    if found != newer && h.m.revocations_of(to).iter().any(|x| x.sig == raw3) != found {
                        return stop(rep, &h, "read back differs", format!("{r3} not among {v}"));
                    }
                }
            }
        }
        let v = json!({"keys": h.w.peers});
        rep.sample(|| v);
    });
    // many documents about one key
    r.merge(par_cases(ctx, "crowded documents", ctx.n(8, 200), only, |rep, rng, case| {
        let n = if case < 2 { 290 + rng.below(50) } else { 60 + rng.below(80) };
        // mostly revocations, or mostly trusts
        let of5 = if case % 2 == 0 { 4 } else { 1 };
        let (mut h, _db) = svc_world(ctx, n, "s04m", case, rng);
        let now = h.now;
        let mut ms = h.apply(&Op::Root(0, 5));
        let t = h.w.trust(0, 0, now + 900, now - 50);
        ms.extend(h.apply(&Op::Trust(t)));
        let mut revs = BTreeSet::new();
        for k in 2..n {
            let t = h.w.trust(0, k, now + 900, now - 50);
            ms.extend(h.apply(&Op::Trust(t)));
            let op = if rng.chance(of5, 5) {
                let r = h.w.rev(k, 1, now - 40 + rng.below(40) as u64);
                revs.insert(h.w.rev_dto(&r).to_string());
                Op::Rev(r)
            } else {
                Op::Trust(h.w.trust(k, 1, now + 900, now - 40))
            };
            ms.extend(h.apply(&op));
        }
        must!(rep, h, ms);
        let v = match h.s.svc_call(&h.w, "export_revocations", json!([h.w.peers[1]])) {
            Out::Ok(v) => v,
            o => return stop(rep, &h, bad(&o, "query failed"), format!("{o:?}")),
        };
        let got: Vec<Value> = v["revocations"].as_array().cloned().unwrap_or_default();
        let set: BTreeSet<String> = got.iter().map(|x| x.to_string()).collect();
        rep.eval(&("crowd", case), true);
        rep.count("revocations of one key exported", revs.len() as u64);
        if set != revs || got.len() != revs.len() {
            return stop(rep, &h, "read back differs", format!("{} revocations made, {} exported, {} as made", revs.len(), got.len(), set.intersection(&revs).count()));
        }
        let ms = h.compare(&[1, 2, n - 1], rep);
        must!(rep, h, ms);
    }));
    // what refusals look like
    r.merge(par_cases(ctx, "refusals in every field", ctx.n(100, 2500), only, |rep, rng, case| {
        let (mut h, _db) = svc_world(ctx, 4, "s04r", case, rng);
        let mut ms = h.apply(&Op::Root(0, 4));
        for t in [h.w.trust(0, 0, 2_000_000, 1), h.w.trust(0, 1, 2_000_000, 1)] {
            ms.extend(h.apply(&Op::Trust(t)));
        }
        must!(rep, h, ms);
        for i in 0..40 {
            let (f, args, cp) = if rng.chance(1, 2) {
                odd_call(&h.w, rng)
            } else {
                // a proper call that meets a storage failure
                let f = *rng.pick(&TIMED);
                let args = good_args(&h, f, i % 40);
                let n = args.as_array().unwrap().len();
                h.s.svc().fault = Some((1 + rng.below(24) as u64, *rng.pick(&["fail_before", "fail_after"]), *rng.pick(&[5, 8, 10, 11, 13])));
                (f, args, call_params(&h.w, 1, OWNER, OWNER, f, n))
            };
            let shown = args.to_string();
            let r = h.s.svc().call(f, args, Some(cp));
            h.s.svc().fault = None;
            rep.eval(&("refusal", f, &shown, case), true);
            match r {
                Out::Ok(v) => match shape(&v) {
                    Ok(ok) => rep.count(&format!("{}: {f}", if ok { "successes" } else { "refusals" }), 1),
                    Err(e) => return stop(rep, &h, "result shape", format!("{f} {shown}: {e}: {v}")),
                },
                o => return stop(rep, &h, bad(&o, "query failed"), format!("{f} {shown}: {o:?}")),
            }
        }
    }));
    // the same questions to the library and to the service
    r.merge(par_cases(ctx, "library against service", ctx.n(250, 6000), only, |rep, rng, case| {
        let n = 3 + rng.below(4);
        let seed = rng.u64();
        let lw = World::random(n, &mut Rng::new(seed), true);
        let sw = World::random(n, &mut Rng::new(seed), true);
        let db = Db::new(ctx, "diff", case);
        let start = start_time(rng);
        let mut l = Hist::new(lw, new_core(None), start);
        let mut s = Hist::new(sw, new_svc(svcd(ctx), &db.0), start);
        let g = Gen { near: 3, walks: 80, ..Gen::plain() };
        for step in 0..24 {
            let op = match s.gen_op(&g, rng) {
                Some(o) => o,
                None => continue,
            };
            let a: Vec<String> = l.apply(&op).iter().map(|m| m.class.to_string()).collect();
            let b: Vec<String> = s.apply(&op).iter().map(|m| m.class.to_string()).collect();
            rep.eval(&(case, step), true);
            if a != b {
                return stop(rep, &s, "library and service disagree", format!("{}: {a:?} / {b:?}", op.show()));
            }
            // refusals too
            if rng.chance(1, 4) {
                let (a, b) = (rng.below(n), rng.below(n));
                let mut t = s.w.trust(a, b, s.now + 100, s.now);
                match rng.below(3) {
                    0 => t.exp += 1,
                    1 => {
                        let i = rng.below(t.sig.len());
                        t.sig[i] ^= 1;
                    }
                    _ => t = s.w.trust(a, b, s.now.saturating_sub(1), s.now),
                }
                if t.exp < s.now || t.sig != s.w.trust(a, b, t.exp, t.iat).sig {
                    let x = l.s.add_trust(&l.w, &t, l.now);
                    let y = s.s.add_trust(&s.w, &t, s.now);
                    rep.count("refusals compared", 1);
                    if x.kind() != y.kind() {
                        return stop(rep, &s, "library and service disagree", format!("{}: {x:?} / {y:?}", show_t(&t)));
                    }
                }
            }
            if step % 6 == 5 {
                let x = snap!(rep, l);
                let y = snap!(rep, s);
                rep.count("snapshots compared", 1);
                let d = snap_diff(&x, &y);
                if !d.is_empty() {
                    return stop(rep, &s, "library and service disagree", format!("library against service: {d}"));
                }
                // weights, in every field of the answer
                let (k, i) = (rng.below(n), rng.below(n));
                let from = rng.chance(1, 2);
                let (f, args) = if from { ("get_weight_from", json!([s.w.peers[k], s.w.peers[i], s.now])) } else { ("get_weight", json!([s.w.peers[k], s.now])) };
                let want = if from { l.s.weight_from(&l.w, k, i, l.now) } else { l.s.weight(&l.w, k, l.now) };
                rep.count("weight answers compared", 1);
                match (want, s.s.svc_call(&s.w, f, args)) {
                    (Out::Ok(x), Out::Ok(v)) => {
                        if v["success"] != true || v["error"] != "" || v["weight"] != json!(x) || v["peer_id"] != json!(s.w.peers[k]) {
                            return stop(rep, &s, "library and service disagree", format!("{f} of k{k} (from k{i}): library {x}, service {v}"));
                        }
                    }
                    (x, y) => return stop(rep, &s, "library and service disagree", format!("{f} of k{k} (from k{i}): {x:?} / {y:?}")),
                }
            }
        }
        let x = snap!(rep, l);
        let y = snap!(rep, s);
        let d = snap_diff(&x, &y);
        if !d.is_empty() {
            return stop(rep, &s, "library and service disagree", format!("library against service: {d}"));
        }
    }));
    r
}

// ---------------------------------------------------------------- S05

pub fn s05(ctx: &Ctx, only: &Only) -> Report {
    let g = Gen { near: 2, walks: 40, rev: 20, tick: 6, ..Gen::plain() };
    let mut r = par_cases(ctx, "restarts", ctx.n(150, 3000), only, |rep, rng, case| {
        let n = 3 + rng.below(3);
        let (mut h, _db) = svc_world(ctx, n, "s05r", case, rng);
        let all: Vec<Id> = (0..n).collect();
        for step in 0..24 {
            if let Some(op) = h.gen_op(&g, rng) {
                let ms = h.apply(&op);
                must!(rep, h, ms);
            }
            if rng.chance(1, 6) {
                let before = if rng.chance(1, 2) { Some(snap!(rep, h)) } else { None };
                let times = 1 + rng.below(2);
                for _ in 0..times {
                    // right after the acknowledgement, without a farewell
                    h.ops.push("kill and restart".into());
                    match h.s.svc().restart() {
                        Out::Ok(_) => {}
                        o => return stop(rep, &h, "service does not come back", format!("{o:?}")),
                    }
                }
                if rng.chance(1, 4) {
                    // start-up code once more on the running service
                    match h.s.svc().call("main", json!([]), None) {
                        Out::Ok(_) => {}
                        o => return stop(rep, &h, "service does not come back", format!("{o:?}")),
                    }
                }
                rep.count("restarts", 1);
                rep.eval(&(case, step), true);
                if let Some(b) = before {
                    let a = snap!(rep, h);
                    let d = snap_diff(&b, &a);
                    if !d.is_empty() {
                        return stop(rep, &h, "restart changes answers", d);
                    }
                }
                let ms = h.compare(&all, rep);
                must!(rep, h, ms);
            }
        }
        let ms = h.compare(&all, rep);
        must!(rep, h, ms);
        let v = json!(h.ops.iter().take(10).collect::<Vec<_>>());
        rep.sample(|| v);
    });
    r.merge(par_cases(ctx, "crashes", ctx.n(70, 1500), only, |rep, rng, case| {
        let n = 3 + rng.below(2);
        let (mut h, db) = svc_world(ctx, n, "s05c", case, rng);
        for _ in 0..(6 + rng.below(10)) {
            if let Some(op) = h.gen_op(&g, rng) {
                let ms = h.apply(&op);
                must!(rep, h, ms);
            }
        }
        let keep = db.beside();
        for _ in 0..2 {
            let op = match h.gen_op(&g, rng) {
                Some(Op::Tick(_)) | None => continue,
                Some(o) => o,
            };
            let before = snap!(rep, h);
            h.s.svc().stop();
            db.copy_to(&keep);
            macro_rules! reset {
                () => {{
                    let s = h.s.svc();
                    s.stop();
                    keep.copy_to(&db);
                    match s.restart() {
                        Out::Ok(_) => {}
                        o => return stop(rep, &h, "service does not come back", format!("{o:?}")),
                    }
                }};
            }
            let now = h.now;
            fn run(h: &mut Hist, op: &Op, now: u64) -> Out<()> {
                match op {
                    Op::Root(k, l) => h.s.set_root(&h.w, *k, *l),
                    Op::Trust(t) => h.s.add_trust(&h.w, t, now).map(|_| ()),
                    Op::Cert(c, raw) => h.s.add_cert(&h.w, c, now, *raw),
                    Op::Rev(r) => h.s.revoke(&h.w, r, now),
                    Op::Tick(_) => Out::Ok(()),
                }
            }
            let mut states = vec![before.clone()];
            if let Op::Cert(c, raw) = &op {
                for l in 1..c.len() {
                    reset!();
                    let _ = h.s.add_cert(&h.w, &c[..l], now, *raw);
                    states.push(snap!(rep, h));
                }
            }
            reset!();
            // the first call of a process also opens the database
            h.s.svc().want_log = true;
            let clean = run(&mut h, &op, now);
            let (total, log) = (h.s.svc().last_calls, h.s.svc().last_log.clone());
            let system = h.s.svc().last_system_calls;
            h.s.svc().want_log = false;
            states.push(snap!(rep, h));
            if !matches!(clean, Out::Ok(_)) {
                reset!();
                continue;
            }
            let fin = states.last().unwrap().clone();
            let v = json!({"operation": op.show(), "accesses": total, "log": log.iter().take(12).collect::<Vec<_>>()});
            rep.sample(|| v);
            // at the accesses the service makes, and at the file changes SQLite makes for them
            let mut points: Vec<(u64, &'static str)> = vec![];
            for (total, kinds) in [(total, ["crash_before", "crash_after"]), (system, ["system_call", "torn_write"])] {
                let stride = if ctx.thorough { 1 } else { 1 + total / 30 };
                let mut at = 1 + rng.below(stride as usize) as u64;
                while at <= total {
                    points.extend(kinds.iter().map(|k| (at, *k)));
                    at += stride;
                }
            }
            rep.count("file changes by SQLite seen", system);
            for (at, kind) in points {
                {
                    reset!();
                    h.s.svc().fault = Some((at, kind, 0));
                    let got = run(&mut h, &op, now);
                    match got {
                        Out::Dead(86) => {}
                        Out::Dead(x) => return stop(rep, &h, "died", format!("status {x}")),
                        o => {
                            rep.count("crashes not reached", 1);
                            let _ = o;
                            continue;
                        }
                    }
                    rep.count("crashes injected", 1);
                    let what = match kind {
                        "system_call" | "torn_write" => kind.to_string(),
                        _ => log.get(at as usize - 1).cloned().unwrap_or_default(),
                    };
                    rep.count(&format!("crash at {}", what.split_whitespace().next().unwrap_or("")), 1);
                    rep.eval(&(op.show(), at, kind), true);
                    // sometimes the start-up dies as well
                    if rng.chance(1, 3) {
                        h.s.svc().respawn();
                        let n = 1 + rng.below(8) as u64;
                        h.s.svc().fault = Some((n, if rng.chance(1, 2) { "crash_before" } else { "crash_after" }, 0));
                        let _ = h.s.svc().call("main", json!([]), None);
                        rep.count("crashes during start-up", 1);
                    }
                    h.ops.push(format!("{} dies at access {at} of {total} ({what}, {kind})", op.show()));
                    match h.s.svc().restart() {
                        Out::Ok(_) => {}
                        o => return stop(rep, &h, "service does not come back", format!("{o:?}")),
                    }
                    let s = snap!(rep, h);
                    if !states.contains(&s) {
                        return stop(rep, &h, "half-made state after a crash", snap_diff(&before, &s));
                    }
                    rep.count(if s == before { "found undone" } else if s == fin { "found done" } else { "found a prefix" }, 1);
                    // what was interrupted can be done again
                    if s == before || rng.chance(1, 4) {
                        match run(&mut h, &op, now) {
                            Out::Ok(()) => {}
                            o => return stop(rep, &h, "operation refused after a crash", format!("{o:?}")),
                        }
                        let again = snap!(rep, h);
                        // done once more on what was already there, an operation may get
                        // further than it did at first: compare with the same without a crash
                        let mut expected = vec![];
                        for (i, st) in states.iter().enumerate().filter(|(_, st)| **st == s) {
                            let want = match (&op, i) {
                                (_, 0) => fin.clone(),
                                (Op::Cert(c, raw), l) => {
                                    reset!();
                                    let _ = h.s.add_cert(&h.w, &c[..l.min(c.len())], now, *raw);
                                    let _ = run(&mut h, &op, now);
                                    snap!(rep, h)
                                }
                                _ => st.clone(),
                            };
                            if want == again {
                                expected.clear();
                                break;
                            }
                            expected.push(want);
                        }
                        if let Some(want) = expected.first() {
                            return stop(rep, &h, "different outcome after a crash", snap_diff(want, &again));
                        }
                    }
                    h.ops.pop();
                }
            }
            reset!();
            let ms = h.apply(&op);
            must!(rep, h, ms);
        }
    }));
    r.merge(par_cases(ctx, "first start", ctx.n(60, 600), only, |rep, rng, case| {
        // dying while the database is first set up
        let w = World::random(3, rng, true);
        let db = Db::new(ctx, "s05f", case);
        let mut s = Svc::raw(svcd(ctx), &db.0);
        for _ in 0..1 + rng.below(3) {
            s.fault = Some((1 + rng.below(12) as u64, *rng.pick(&["crash_before", "crash_after", "system_call", "torn_write"]), 0));
            let _ = s.call("main", json!([]), None);
            rep.count("crashes during the first start", 1);
            s.respawn();
        }
        match s.restart() {
            Out::Ok(_) => {}
            o => return rep.violation("service does not come back", json!({"got": format!("{o:?}")})),
        }
        rep.eval(&("first", case), true);
        let mut h = Hist::new(w, Subject { kind: Kind::Svc(Box::new(s)), host: 0 }, 1000);
        let mut ms = h.apply(&Op::Root(0, 3));
        let t = h.w.trust(0, 0, 5000, 1);
        ms.extend(h.apply(&Op::Trust(t)));
        let t = h.w.trust(0, 1, 5000, 1);
        ms.extend(h.apply(&Op::Trust(t)));
        ms.extend(h.compare(&[0, 1, 2], rep));
        must!(rep, h, ms);
    }));
    r
}

// ---------------------------------------------------------------- S06

pub fn shipped(ctx: &Ctx) -> Result<Vec<(String, String, u32, Vec<Value>)>, String> {
    let read = |p: &str| -> Result<String, String> { std::fs::read_to_string(format!("{}/{p}", ctx.repo)).map_err(|e| format!("{p}: {e}")) };
    let parse = |p: &str| -> Result<Value, String> { serde_json::from_str(&read(p)?).map_err(|e| format!("{p}: {e}")) };
    let d = parse("distro/init_certs.json")?;
    let b = parse("builtin-package/on_start.json")?;
    let air = read("builtin-package/on_start.air")?;
    // (call relay ("trust-graph" "set_root") ["<peer>" <max>] res)
    let i = air.find("\"set_root\"").ok_or("on_start.air sets no root")?;
    let rest = &air[i..];
    let open = rest.find('[').ok_or("on_start.air: set_root has no arguments")?;
    let close = rest[open..].find(']').ok_or("on_start.air: set_root has no arguments")? + open;
    let args: Vec<&str> = rest[open + 1..close].split_whitespace().collect();
    if args.len() != 2 {
        return Err(format!("on_start.air: set_root {args:?}"));
    }
    let root = args[0].trim_matches('"').to_string();
    let max: u32 = args[1].parse().map_err(|_| format!("on_start.air: set_root {args:?}"))?;
    let certs = |v: &Value, p: &str| v["certs"].as_array().cloned().ok_or_else(|| format!("{p}: no certificates"));
    Ok(vec![
        ("distro/init_certs.json".into(), d["root_node"].as_str().ok_or("distro: no root")?.into(), d["max_chain_length"].as_u64().and_then(|x| u32::try_from(x).ok()).ok_or("distro: no maximum")?, certs(&d, "distro")?),
        ("builtin-package/on_start.json".into(), root, max, certs(&b, "builtin-package")?),
    ])
}

fn to_lib(c: &Value) -> Result<Certificate, String> {
    let mut chain = vec![];
    for t in c["chain"].as_array().ok_or("no chain")? {
        let p: libp2p_identity::PeerId = t["issued_for"].as_str().ok_or("no subject")?.parse().map_err(|e| format!("{e:?}"))?;
        let pk = fluence_keypair::PublicKey::try_from(p).map_err(|e| e.to_string())?;
        let f: KeyFormat = t["sig_type"].as_str().ok_or("no signature type")?.parse().map_err(|e| format!("{e:?}"))?;
        let sig = bs58::decode(t["signature"].as_str().ok_or("no signature")?).into_vec().map_err(|e| e.to_string())?;
        chain.push(Trust::new(pk, secs(t["expires_at"].as_u64().ok_or("no expiry")?), secs(t["issued_at"].as_u64().ok_or("no issue time")?), Signature::from_bytes(f, sig)));
    }
    Ok(Certificate::new_unverified(chain))
}

pub fn s06(ctx: &Ctx, only: &Only) -> Report {
    let sets = match shipped(ctx) {
        Ok(s) => s,
        Err(e) => {
            let mut r = Report::default();
            r.evaluations = 1;
            r.violation("shipped files cannot be read", json!({"workload": "shipped certificates", "what": e}));
            return r;
        }
    };
    let mut r = par_cases(ctx, "shipped certificates", ctx.n(120, 2000), only, |rep, rng, case| {
        let (name, root, max, certs) = &sets[case as usize % sets.len()];
        let fail = |rep: &mut Report, sig: &str, what: String| rep.violation(sig, json!({"file": name, "what": what}));
        let rootpk = match root.parse::<libp2p_identity::PeerId>().ok().and_then(|p| fluence_keypair::PublicKey::try_from(p).ok()) {
            Some(k) => k,
            None => return fail(rep, "shipped root is no key", root.clone()),
        };
        if certs.is_empty() {
            return fail(rep, "nothing is shipped", String::new());
        }
        let times = |c: &Value| {
            let ch = c["chain"].as_array().cloned().unwrap_or_default();
            (ch.iter().filter_map(|t| t["issued_at"].as_u64()).max().unwrap_or(0), ch.iter().filter_map(|t| t["expires_at"].as_u64()).min().unwrap_or(0))
        };
        let (mut lo, mut hi) = (0, u64::MAX);
        for (i, c) in certs.iter().enumerate() {
            let (a, b) = times(c);
            lo = lo.max(a);
            hi = hi.min(b);
            if a >= b {
                return fail(rep, "shipped certificate has no time to be valid", format!("certificate {i}: {a}..{b}"));
            }
            let cert = match to_lib(c) {
                Ok(c) => c,
                Err(e) => return fail(rep, "shipped certificate cannot be read", format!("certificate {i}: {e}")),
            };
            let mid = rng.range(a, b);
            for t in [a, b, mid] {
                rep.eval(&(name, i, t), true);
                rep.count("verifications of shipped certificates", 1);
                match guard(|| Certificate::verify(&cert, &[rootpk.clone()], secs(t))) {
                    Ok(Ok(())) => {}
                    o => return fail(rep, "shipped certificate does not verify", format!("certificate {i} at {t}: {o:?}")),
                }
            }
            // every link is what the chain says, not only accepted
            if cert.chain.len() < 2 || cert.chain.len() as u32 - 1 > (*max).min(CAP) {
                return fail(rep, "shipped certificate is longer than the shipped root allows", format!("certificate {i}: {} trusts, maximum {max}", cert.chain.len()));
            }
        }
        if lo >= hi {
            return fail(rep, "shipped certificates are never valid together", format!("{lo}..{hi}"));
        }
        let now = match case / sets.len() as u64 % 4 {
            0 => lo,
            1 => hi - 1,
            _ => rng.range(lo, hi - 1),
        };
        let db = Db::new(ctx, "s06", case);
        let host = World::new(distinct_keys(1, rng, |_| KeyFormat::Ed25519));
        let mut s = new_svc(svcd(ctx), &db.0);
        match s.svc_call(&host, "set_root", json!([root, max])) {
            Out::Ok(v) if v["success"] == true => {}
            o => return fail(rep, "shipped root refused", format!("{o:?}")),
        }
        // place of every named peer: its best chain
        let mut place: BTreeMap<String, u32> = BTreeMap::new();
        for c in certs {
            for (i, t) in c["chain"].as_array().unwrap().iter().enumerate() {
                let p = place.entry(t["issued_for"].as_str().unwrap().to_string()).or_insert(i as u32);
                *p = (*p).min(i as u32);
            }
        }
        let raw = rng.chance(1, 4);
        // the host deploys them itself: nothing proves where the time is from
        let bare = rng.chance(1, 2);
        for (i, c) in certs.iter().enumerate() {
            let (f, args) = if raw { ("insert_cert_raw", json!([to_lib(c).unwrap().to_string(), now])) } else { ("insert_cert", json!([c, now])) };
            let r = if bare {
                let mut cp = call_params(&host, 0, OWNER, OWNER, f, 2);
                cp["tetraplets"] = json!([[], []]);
                s.svc().call(f, args, Some(cp))
            } else {
                s.svc_call(&host, f, args)
            };
            match r {
                Out::Ok(v) if v["success"] == true => {}
                o => return fail(rep, "shipped certificate refused", format!("certificate {i} at {now}: {o:?}")),
            }
        }
        for later in [now, rng.range(now, hi - 1)] {
            for (p, i) in &place {
                let want = 1u32 << ((*max).min(CAP) - i);
                rep.eval(&(name, p, later), true);
                rep.count("weights of named peers", 1);
                match s.svc_call(&host, "get_weight", json!([p, later])) {
                    Out::Ok(v) if v["success"] == true && v["weight"] == json!(want) => {}
                    o => return fail(rep, "named peer has the wrong weight", format!("{p} at {later}: {o:?}, should be {want}")),
                }
            }
        }
        rep.sample(|| json!({"file": name, "certificates": certs.len(), "peers": place.len(), "time": now}));
    });
    r.merge(start_script(ctx, only, &sets));
    r.merge(distribution(ctx, only));
    r
}

/// the distribution crate hands out what is shipped, and nothing else
fn distribution(ctx: &Ctx, only: &Only) -> Report {
    par_cases(ctx, "distribution crate", 1, only, |rep, _, _| {
        let path = match &ctx.distro {
            Some(p) if std::path::Path::new(p).exists() => p,
            _ => return rep.count("distribution crate not built", 1),
        };
        let out = match std::process::Command::new(path).output() {
            Ok(o) => o,
            Err(e) => return rep.count(&format!("distribution crate not run: {e}"), 1),
        };
        let got: Value = match serde_json::from_slice(&out.stdout) {
            Ok(v) if out.status.success() => v,
            _ => return rep.violation("the distribution crate cannot read what it ships", json!({"status": out.status.code(), "stderr": String::from_utf8_lossy(&out.stderr)})),
        };
        let read = |p: &str| std::fs::read_to_string(format!("{}/distro/{p}", ctx.repo)).unwrap_or_default();
        let file: Value = serde_json::from_str(&read("init_certs.json")).unwrap_or_default();
        let want = json!({"certs": file, "modules": {"trust-graph": "trust-graph", "sqlite3": "sqlite3"}, "config": read("Config.toml")});
        for k in ["certs", "modules", "config"] {
            rep.check(&("distribution", k), got[k] == want[k], "the distribution crate hands out something else", || json!({"what": k, "got": got[k], "want": want[k]}));
        }
        rep.count("distribution crate run", 1);
    })
}

/// the builtin package's start-up script, executed on a fresh service
fn start_script(ctx: &Ctx, only: &Only, sets: &[(String, String, u32, Vec<Value>)]) -> Report {
    use crate::air::*;
    let text = std::fs::read_to_string(format!("{}/builtin-package/on_start.air", ctx.repo)).unwrap_or_default();
    let data: Value = std::fs::read_to_string(format!("{}/builtin-package/on_start.json", ctx.repo)).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or_default();
    let (_, root, max, certs) = &sets[1];
    let script = match parse(&text) {
        Ok(s) => s,
        Err(e) => {
            let mut r = Report::default();
            r.count(&format!("start script not run: {e}"), 1);
            return r;
        }
    };
    par_cases(ctx, "start script", ctx.n(60, 600), only, |rep, rng, case| {
        let chains: Vec<Vec<Value>> = certs.iter().filter_map(|c| c["chain"].as_array().cloned()).collect();
        let lo = chains.iter().flatten().filter_map(|t| t["issued_at"].as_u64()).max().unwrap_or(0);
        let hi = chains.iter().flatten().filter_map(|t| t["expires_at"].as_u64()).min().unwrap_or(0);
        if lo >= hi || chains.is_empty() {
            return;
        }
        // what goes wrong: nothing, somebody else's service, some certificates too old
        let trouble = rng.below(4);
        let now = if trouble == 2 { hi + 1 } else { rng.range(lo, hi - 1) };
        let host = World::new(distinct_keys(1, rng, |_| KeyFormat::Ed25519));
        let relay = host.peers[0].clone();
        let db = Db::new(ctx, "s06s", case);
        let mut s = new_svc(svcd(ctx), &db.0);
        let mut returned: Vec<Value> = vec![];
        let mut failed: Vec<String> = vec![];
        let mut odd: Option<String> = None;
        let mut unknown = false;
        let mut clock_now = now;
        let res = {
            let svc = s.svc();
            let mut call = |peer: &str, service: &str, f: &str, args: Vec<Val>| -> Result<Value, String> {
                if peer != relay {
                    odd = Some(format!("a call on {peer}"));
                    return Err("no such peer".into());
                }
                match (service, f) {
                    ("op", "return") => {
                        returned.extend(args.into_iter().map(|a| a.0));
                        Ok(Value::Null)
                    }
                    ("peer", "timestamp_sec") => {
                        clock_now += rng.below(2) as u64;
                        Ok(json!(if trouble == 2 { clock_now } else { clock_now.min(hi - 1) }))
                    }
                    ("trust-graph", f) => {
                        let mut cp = call_params(&host, 0, OWNER, if trouble == 1 { "somebody else" } else { OWNER }, f, args.len());
                        cp["tetraplets"] = json!(args.iter().map(|a| json!([{"peer_pk": a.1 .0, "service_id": a.1 .1, "function_name": a.1 .2, "json_path": ""}])).collect::<Vec<_>>());
                        match svc.call_checked(f, json!(args.into_iter().map(|a| a.0).collect::<Vec<_>>()), Some(cp)) {
                            Out::Ok(v) => {
                                if v["success"] != true {
                                    failed.push(v["error"].as_str().unwrap_or("").to_string());
                                }
                                Ok(v)
                            }
                            Out::Err(e) => {
                                odd = Some(format!("{f}: {e}"));
                                Err(e)
                            }
                            o => {
                                odd = Some(format!("{f}: {o:?}"));
                                Err(format!("{o:?}"))
                            }
                        }
                    }
                    _ => {
                        unknown = true;
                        Err(format!("{service}.{f}"))
                    }
                }
            };
            let lit = |v: &Value| (v.clone(), (OWNER.to_string(), String::new(), String::new()));
            let mut vars: std::collections::HashMap<String, Val> = data.as_object().map(|o| o.iter().map(|(k, v)| (k.clone(), lit(v))).collect()).unwrap_or_default();
            vars.insert("relay".into(), lit(&json!(relay)));
            let mut e = Exec::new(OWNER, vars, &mut call);
            let r = e.run(&script);
            rep.count("calls made by the start script", e.calls);
            r
        };
        let kind = ["smooth", "refused", "too late", "smooth"][trouble];
        let v = json!({"run": kind, "time": now, "returned": returned.len(), "failed calls": failed.len()});
        rep.sample(|| v);
        match res {
            Err(Stop::Unknown(e)) => return rep.count(&format!("start script not run: {e}"), 1),
            _ if unknown => return rep.count("start script not run: other services", 1),
            Err(Stop::Caught(e)) | Err(Stop::Broken(e)) => return rep.violation("the start script breaks off", json!({"what": odd.unwrap_or(e), "time": now})),
            Ok(()) => {}
        }
        rep.eval(&("script", case, now), true);
        rep.count(&format!("start script runs: {kind}"), 1);
        if let Some(o) = odd {
            return rep.violation("the start script breaks off", json!({"what": o, "time": now}));
        }
        if trouble == 1 || trouble == 2 {
            // every failure is told
            let told: BTreeSet<String> = returned.iter().filter_map(|v| v.as_str().map(String::from)).collect();
            if failed.is_empty() || failed.iter().any(|f| !told.contains(f)) {
                return rep.violation("the start script hides a failure", json!({"failed": failed, "returned": returned, "time": now}));
            }
            return;
        }
        if !failed.is_empty() || returned != [json!(true)] {
            return rep.violation("the start script fails", json!({"failed": failed, "returned": returned, "time": now}));
        }
        let mut place: BTreeMap<String, u32> = BTreeMap::new();
        for c in &chains {
            for (i, t) in c.iter().enumerate() {
                let p = place.entry(t["issued_for"].as_str().unwrap_or("").to_string()).or_insert(i as u32);
                *p = (*p).min(i as u32);
            }
        }
        let later = rng.range(now, hi - 1).max(clock_now.min(hi - 1));
        for (p, i) in &place {
            let want = 1u32 << ((*max).min(CAP) - i);
            rep.eval(&("script", p, later), true);
            match s.svc_call(&host, "get_weight", json!([p, later])) {
                Out::Ok(v) if v["success"] == true && v["weight"] == json!(want) => {}
                o => return rep.violation("named peer has the wrong weight after the start script", json!({"peer": p, "root": root, "got": format!("{o:?}"), "want": want})),
            }
        }
    })
}

// ---------------------------------------------------------------- T06 at the service

fn odd_peer(w: &World, rng: &mut Rng) -> String {
    let good = rng.pick(&w.peers).clone();
    match rng.below(13) {
        11 => {
            // right, but for what is around it or in it
            let c = *rng.pick(&[" ", "\n", "\t", "\u{0}", "0", "/", "\u{a0}", ".", "\r\n"]);
            match rng.below(4) {
                0 => format!("{c}{good}"),
                1 => format!("{good}{c}"),
                2 => format!("{c}{good}{c}"),
                _ => {
                    let i = rng.below(good.len());
                    format!("{}{c}{}", &good[..i], &good[i..])
                }
            }
        }
        0 => String::new(),
        1 => "1".repeat(1 + rng.below(60)),
        2 => rsa_key(rng.below(3)).public().to_peer_id().to_base58(),
        3 => good[..rng.below(good.len())].to_string(),
        4 => format!("{good}{}", (b'1' + rng.below(9) as u8) as char),
        5 => {
            let mut b = good.into_bytes();
            let i = rng.below(b.len());
            b[i] = b'1' + rng.below(9) as u8;
            String::from_utf8(b).unwrap()
        }
        6 => "ünïcode\u{0}\n".into(),
        7 => {
            let n = rng.below(80);
            bs58::encode(rng.bytes(n)).into_string()
        }
        8 => {
            // an identity multihash with arbitrary content
            let n = rng.below(50);
            let mut v = vec![0u8, n as u8];
            v.extend(rng.bytes(n));
            bs58::encode(v).into_string()
        }
        9 => {
            // a well-formed protobuf of a key type with arbitrary content
            let n = *rng.pick(&[0usize, 1, 31, 32, 33, 34]);
            let mut pb = vec![8, rng.below(5) as u8, 18, n as u8];
            pb.extend(rng.bytes(n));
            let mut v = vec![0u8, pb.len() as u8];
            v.extend(pb);
            bs58::encode(v).into_string()
        }
        10 => "Q".repeat(5000),
        _ => good,
    }
}

fn odd_sig(rng: &mut Rng) -> String {
    match rng.below(6) {
        0 => String::new(),
        1 => "0OIl".into(),
        2 => "é".into(),
        3 => "1".repeat(rng.below(200)),
        _ => {
            let n = *rng.pick(&[0usize, 1, 2, 63, 64, 65, 70, 72, 128, 300]);
            bs58::encode(rng.bytes(n)).into_string()
        }
    }
}

fn odd_type(rng: &mut Rng) -> String {
    rng.pick(&["ed25519", "rsa", "secp256k1", "", "ED25519", "dsa", "\u{0}", "ed25519 "]).to_string()
}

fn odd_trust(w: &World, rng: &mut Rng) -> Value {
    let t = w.trust(rng.below(w.n()), rng.below(w.n()), any_time(rng), any_time(rng));
    let mut v = w.trust_dto(&t);
    for _ in 0..1 + rng.below(2) {
        match rng.below(5) {
            0 => v["issued_for"] = json!(odd_peer(w, rng)),
            1 => v["signature"] = json!(odd_sig(rng)),
            2 => v["sig_type"] = json!(odd_type(rng)),
            3 => v["expires_at"] = json!(any_time(rng)),
            _ => v["issued_at"] = json!(any_time(rng)),
        }
    }
    v
}

/// a peer id that names a key
fn names_key(p: &str) -> bool {
    p.parse::<libp2p_identity::PeerId>().ok().map_or(false, |p| p.as_ref().code() == 0 && libp2p_identity::PublicKey::try_decode_protobuf(p.as_ref().digest()).is_ok())
}

/// is there something in this call that no reading of it can accept?
fn bad_call(f: &str, args: &[Value], host: &str) -> Option<&'static str> {
    let text = |v: &Value| v.as_str().unwrap_or("").to_string();
    let peers: &[usize] = match f {
        "set_root" | "get_all_certs" | "get_weight" | "get_host_certs_from" | "get_trust_bytes" | "issue_trust" | "get_revocation_bytes" | "export_revocations" => &[0],
        "get_all_certs_from" | "get_weight_from" | "issue_revocation" => &[0, 1],
        "verify_trust" | "add_trust" => &[1],
        _ => &[],
    };
    if peers.iter().any(|i| !names_key(&text(&args[*i]))) || (f.starts_with("get_host_certs") && !names_key(host)) {
        return Some("no key");
    }
    let mut docs: Vec<&Value> = vec![];
    match f {
        "verify_trust" | "add_trust" | "revoke" => docs.push(&args[0]),
        "insert_cert" => {
            let c = args[0]["chain"].as_array().unwrap();
            if c.is_empty() {
                return Some("an empty chain");
            }
            docs.extend(c);
        }
        "insert_cert_raw" => {
            let t = text(&args[0]);
            let n = t.lines().count();
            if n < 2 || (n - 2) % 4 != 0 || n == 2 {
                return Some("number of lines");
            }
        }
        _ => {}
    }
    for d in docs {
        for p in ["issued_for", "revoked_peer_id", "revoked_by"] {
            if d.get(p).map_or(false, |p| !names_key(&text(p))) {
                return Some("no key in the document");
            }
        }
        if !["ed25519", "rsa", "secp256k1"].contains(&d["sig_type"].as_str().unwrap_or("")) {
            return Some("no signature type");
        }
        if bs58::decode(text(&d["signature"])).into_vec().is_err() {
            return Some("no base58");
        }
    }
    None
}

/// a call with something odd about it
fn odd_call(w: &World, rng: &mut Rng) -> (&'static str, Value, Value) {
    let time = any_time(rng);
    let f = *rng.pick(&["set_root", "insert_cert_raw", "insert_cert", "get_all_certs", "get_all_certs_from", "get_host_certs", "get_host_certs_from", "get_weight", "get_weight_from", "get_trust_bytes", "issue_trust", "verify_trust", "add_trust", "get_revocation_bytes", "issue_revocation", "revoke", "export_revocations"]);
    let nbytes = *rng.pick(&[0usize, 1, 63, 64, 65, 72, 300]);
    let args = match f {
        "set_root" => json!([odd_peer(w, rng), rng.u64() as u32]),
        "insert_cert_raw" => {
            let c = [w.trust(0, 0, 2_000_000, 5), w.trust(0, 2, 2_000_000, 5), w.trust(2, 3, 2_000_000, 5)];
            let t = w.cert_text(&c[..rng.below(4)]);
            let t = crate::props_t::mangle_text(&t, rng);
            json!([t, time])
        }
        "insert_cert" => {
            let n = rng.below(5);
            json!([{"chain": (0..n).map(|_| odd_trust(w, rng)).collect::<Vec<_>>()}, time])
        }
        "get_all_certs" | "get_weight" => json!([odd_peer(w, rng), time]),
        "get_all_certs_from" | "get_weight_from" => json!([odd_peer(w, rng), odd_peer(w, rng), time]),
        "get_host_certs" => json!([time]),
        "get_host_certs_from" => json!([odd_peer(w, rng), time]),
        "get_trust_bytes" => json!([odd_peer(w, rng), any_time(rng), any_time(rng)]),
        "issue_trust" => json!([odd_peer(w, rng), any_time(rng), any_time(rng), rng.bytes(nbytes)]),
        "verify_trust" | "add_trust" => json!([odd_trust(w, rng), odd_peer(w, rng), time]),
        "get_revocation_bytes" => json!([odd_peer(w, rng), any_time(rng)]),
        "issue_revocation" => json!([odd_peer(w, rng), odd_peer(w, rng), any_time(rng), rng.bytes(nbytes)]),
        "revoke" => {
            let mut v = w.rev_dto(&w.rev(rng.below(4), rng.below(4), any_time(rng)));
            match rng.below(5) {
                0 => v["revoked_peer_id"] = json!(odd_peer(w, rng)),
                1 => v["revoked_by"] = json!(odd_peer(w, rng)),
                2 => v["signature"] = json!(odd_sig(rng)),
                3 => v["sig_type"] = json!(odd_type(rng)),
                _ => {}
            }
            json!([v, time])
        }
        _ => json!([odd_peer(w, rng)]),
    };
    let n = args.as_array().unwrap().len();
    let host = rng.below(4);
    let mut cp = call_params(w, host, OWNER, OWNER, f, n);
    if rng.chance(1, 8) {
        // a host that is no key, strange provenance records
        let odd = odd_peer(w, rng);
        cp["host_id"] = json!(odd);
        cp["tetraplets"] = json!((0..n).map(|_| clock(&odd)).collect::<Vec<_>>());
    } else if rng.chance(1, 10) {
        cp["tetraplets"] = json!([[], [], []]);
    }
    (f, args, cp)
}

pub fn t06_service(ctx: &Ctx, only: &Only) -> Report {
    par_cases(ctx, "malformed service calls", ctx.n(160, 4000), only, |rep, rng, case| {
        let (mut h, _db) = svc_world(ctx, 4, "t06", case, rng);
        let mut ms = h.apply(&Op::Root(0, 4));
        for t in [h.w.trust(0, 0, 2_000_000, 1), h.w.trust(0, 1, 2_000_000, 1)] {
            ms.extend(h.apply(&Op::Trust(t)));
        }
        if report(rep, &h, ms, &|_| false) {
            return;
        }
        for _ in 0..60 {
            let (f, args, cp) = odd_call(&h.w, rng);
            rep.eval(&("service", f, args.to_string()), true);
            rep.count(&format!("service calls: {f}"), 1);
            let shown = args.to_string();
            let bad = bad_call(f, args.as_array().unwrap(), cp["host_id"].as_str().unwrap_or(""));
            let r = h.s.svc().call(f, args, Some(cp));
            match r {
                Out::Ok(v) => {
                    if let Err(e) = shape(&v) {
                        return rep.violation("malformed service call", json!({"function": f, "arguments": shown, "what": e}));
                    }
                    if let Some(why) = bad {
                        rep.count("refusals expected: service calls", 1);
                        if v["success"] != false {
                            return rep.violation("service call accepts malformed input", json!({"function": f, "arguments": shown, "why": why, "answer": v}));
                        }
                    }
                }
                o => return rep.violation("service call crashes", json!({"function": f, "arguments": shown, "outcome": format!("{o:?}")})),
            }
        }
        // still in working order
        h.m = Model::default();
        for k in 0..4 {
            let o = h.s.weight(&h.w, k, 1_000_000);
            if !matches!(o, Out::Ok(_)) {
                return rep.violation("service unusable after malformed calls", json!({"outcome": format!("{o:?}")}));
            }
        }
    })
}

// ---------------------------------------------------------------- S07

pub const EXPORTS: [&str; 17] = ["set_root", "insert_cert_raw", "insert_cert", "get_all_certs", "get_all_certs_from", "get_host_certs", "get_host_certs_from", "get_weight", "get_weight_from", "get_trust_bytes", "issue_trust", "verify_trust", "add_trust", "get_revocation_bytes", "issue_revocation", "revoke", "export_revocations"];

pub fn s07(ctx: &Ctx, only: &Only) -> Report {
    use crate::aqua::*;
    let mut d = Decls::default();
    let early = |sig: &str, what: String| {
        let mut r = Report::default();
        r.eval(&0, true);
        r.violation(sig, json!({"workload": "published interface", "what": what}));
        r
    };
    let path = format!("{}/aqua/trust-graph.aqua", ctx.repo);
    match std::fs::read_to_string(&path) {
        Ok(t) => {
            if let Err(e) = declarations(&t, &mut d) {
                // not a file of plain declarations any more: nothing to compare with
                let mut r = Report::default();
                r.eval(&0, true);
                r.count(&format!("interface file not understood: {e}"), 1);
                return r;
            }
        }
        Err(e) => return early("interface file cannot be read", e.to_string()),
    }
    let funcs: Vec<_> = d.services.values().filter(|s| s.id == "trust-graph").flat_map(|s| s.funcs.clone()).collect();
    for e in EXPORTS {
        if !funcs.iter().any(|f| f.0 == e) {
            return early("an exported call is not declared", e.into());
        }
    }
    let mut total = par_cases(ctx, "published interface", ctx.n(1500, 20000), only, |rep, rng, case| {
        let (mut h, _db) = svc_world(ctx, 4, "s07", case, rng);
        let mut ms = h.apply(&Op::Root(0, 4));
        for t in [h.w.trust(0, 0, 2_000_000, 1), h.w.trust(0, 1, 2_000_000, 1), h.w.trust(1, 2, 2_000_000, 1)] {
            ms.extend(h.apply(&Op::Trust(t)));
        }
        let r = h.w.rev(1, 3, 7);
        ms.extend(h.apply(&Op::Rev(r)));
        if report(rep, &h, ms, &|_| false) {
            return;
        }
        for _ in 0..30 {
            let (f, args, ret) = rng.pick(&funcs).clone();
            let odd = rng.chance(1, 4);
            let now = 1_000_000 + rng.below(100) as u64;
            let w = &h.w;
            let mut gen = |t: &Ty, name: &str| -> Option<Value> {
                let v = match t {
                    Ty::Named(_) if odd => return None,
                    Ty::Named(n) => {
                        let by = rng.below(3);
                        match n.as_str() {
                            "Trust" => w.trust_dto(&w.trust(by, rng.below(4), 1_500_000, 900_000 + rng.below(1000) as u64)),
                            "Revocation" => w.rev_dto(&w.rev(by, 3, 900_000 + rng.below(1000) as u64)),
                            "Certificate" => json!({"chain": [w.trust_dto(&w.trust(0, 0, 1_500_000, 900_000)), w.trust_dto(&w.trust(0, by, 1_500_000, 900_000 + rng.below(9) as u64))]}),
                            _ => return None,
                        }
                    }
                    Ty::Str if odd => match rng.below(4) {
                        0 => json!(odd_sig(rng)),
                        1 => json!(odd_type(rng)),
                        _ => json!(odd_peer(w, rng)),
                    },
                    Ty::Str => match name {
                        "sig_type" => json!("ed25519"),
                        "signature" => json!(odd_sig(rng)),
                        "certificate" => json!(w.cert_text(&[w.trust(0, 0, 1_500_000, 900_000), w.trust(0, 1, 1_500_000, 900_000 + rng.below(9) as u64)])),
                        _ => json!(w.peers[rng.below(3)]),
                    },
                    Ty::U(64) if name == "timestamp_sec" && !odd => json!(now),
                    Ty::U(64) => json!(any_time(rng)),
                    Ty::U(32) if rng.chance(1, 3) => json!(u32::MAX - rng.below(2) as u32),
                    Ty::U(b) => json!(rng.u64() & ((1u64 << b) - 1) & 0xfff),
                    Ty::Bool => json!(rng.chance(1, 2)),
                    Ty::Arr(e) if **e == Ty::U(8) => {
                        let n = *rng.pick(&[0usize, 1, 64, 65]);
                        json!(rng.bytes(n))
                    }
                    Ty::Arr(_) if odd && rng.chance(1, 4) => json!([]),
                    _ => return None,
                };
                Some(v)
            };
            let mut vals = vec![];
            for (a, t) in &args {
                match d.any(t, a, &mut gen).and_then(|v| d.conforms(&v, t, a).map(|_| v)) {
                    Ok(v) => vals.push(v),
                    Err(e) => return rep.violation("interface declares a call nobody can make", json!({"function": f, "what": e})),
                }
            }
            let host = rng.below(4);
            let tets: Vec<Value> = args.iter().map(|a| if a.0 == "timestamp_sec" { clock(&h.w.peers[host]) } else { literal(OWNER) }).collect();
            let mut cp = call_params(&h.w, host, OWNER, OWNER, &f, vals.len());
            cp["tetraplets"] = json!(tets);
            let shown = json!(vals).to_string();
            rep.eval(&(&f, &shown), true);
            match h.s.svc().call_checked(&f, json!(vals), Some(cp)) {
                Out::Ok(v) => {
                    let ok = v["success"] == true;
                    rep.count(&format!("{f}: {}", if ok { "succeeded" } else { "failed" }), 1);
                    let r = match &ret {
                        Some(t) => d.conforms(&v, t, "result"),
                        None => Ok(()),
                    };
                    if let Err(e) = r {
                        return rep.violation("answer is not of the declared type", json!({"function": f, "arguments": shown, "answer": v, "what": e}));
                    }
                    if case < 4 {
                        rep.sample(|| json!({"function": f, "arguments": shown.chars().take(200).collect::<String>(), "answer": v}));
                    }
                }
                Out::Err(e) if e.contains("no such function") && !EXPORTS.contains(&f.as_str()) => rep.count(&format!("not exported under this name to the harness: {f}"), 1),
                Out::Err(e) => return rep.violation("declared arguments do not fit the call", json!({"function": f, "arguments": shown, "what": e})),
                o => return rep.violation("declared call crashes", json!({"function": f, "arguments": shown, "outcome": format!("{o:?}")})),
            }
        }
    });
    total.merge(par_cases(ctx, "argument names", ctx.n(200, 3000), only, |rep, rng, case| {
        // root k0 -> k1 -> k2; every argument is given by its declared name
        let (mut h, _db) = svc_world(ctx, 4, "s07n", case, rng);
        let now = 1_000_000 + rng.below(1000) as u64;
        h.now = now;
        let mut ms = h.apply(&Op::Root(0, 4));
        for t in [h.w.trust(0, 0, 2_000_000, 1), h.w.trust(0, 1, 2_000_000, 1), h.w.trust(1, 2, 2_000_000, 1)] {
            ms.extend(h.apply(&Op::Trust(t)));
        }
        let rev = h.w.rev(1, 3, 7);
        ms.extend(h.apply(&Op::Rev(rev.clone())));
        must!(rep, h, ms);
        let (exp, iat) = (1_500_000 + rng.below(1000) as u64, 900_000 + rng.below(1000) as u64);
        let w = &h.w;
        let (p1, p2, p3) = (json!(w.peers[1]), json!(w.peers[2]), json!(w.peers[3]));
        let lib_trust = Trust::signature_bytes(&w.pks[3], secs(exp), secs(iat));
        let lib_rev = Revocation::signature_bytes(&w.pks[3], secs(iat));
        let (ts, rs) = (w.trust(2, 3, exp, iat), w.rev(2, 3, iat));
        let certs = |v: &Value| v["certificates"].as_array().map_or(99, |c| c.len());
        let own = w.trust(0, 0, exp, iat);
        let link = w.trust(0, 3, exp, iat);
        type Judge<'a> = Box<dyn Fn(&Value) -> bool + 'a>;
        // (call, arguments by name, what the answer must be like)
        let asks: Vec<(&str, Value, Judge)> = vec![
            ("get_weight_from", json!({"peer_id": p2, "issuer": p1}), Box::new(|v| v["weight"] == 4 && v["peer_id"] == p2)),
            ("get_weight_from", json!({"peer_id": p1, "issuer": p2}), Box::new(|v| v["weight"] == 0 && v["peer_id"] == p1)),
            ("get_weight", json!({"peer_id": p2}), Box::new(|v| v["weight"] == 4 && v["peer_id"] == p2)),
            ("get_all_certs", json!({"issued_for": p2}), Box::new(move |v| certs(v) == 1)),
            ("get_all_certs_from", json!({"issued_for": p2, "issuer": p1}), Box::new(move |v| certs(v) == 1)),
            ("get_all_certs_from", json!({"issued_for": p1, "issuer": p2}), Box::new(move |v| certs(v) == 0)),
            ("get_host_certs", json!({}), Box::new(move |v| certs(v) == 1)),
            ("get_host_certs_from", json!({"issuer": p1}), Box::new(move |v| certs(v) == 1)),
            ("get_host_certs_from", json!({"issuer": p3}), Box::new(move |v| certs(v) == 0)),
            ("get_trust_bytes", json!({"issued_for_peer_id": p3, "expires_at_sec": exp, "issued_at_sec": iat}), Box::new(|v| bytes_of(&v["result"]) == lib_trust)),
            ("issue_trust", json!({"issued_for_peer_id": p3, "expires_at_sec": exp, "issued_at_sec": iat, "trust_bytes": ts.sig}), Box::new(|v| v["trust"]["issued_for"] == p3 && v["trust"]["expires_at"] == json!(exp) && v["trust"]["issued_at"] == json!(iat) && v["trust"]["signature"] == json!(bs58::encode(&ts.sig).into_string()))),
            ("verify_trust", json!({"trust": w.trust_dto(&ts), "issuer_peer_id": p2}), Box::new(|v| v["success"] == true)),
            ("get_revocation_bytes", json!({"revoked_peer_id": p3, "revoked_at": iat}), Box::new(|v| bytes_of(&v["result"]) == lib_rev)),
            ("issue_revocation", json!({"revoked_by_peer_id": p2, "revoked_peer_id": p3, "revoked_at_sec": iat, "signature_bytes": rs.sig}), Box::new(|v| v["revocation"]["revoked_by"] == p2 && v["revocation"]["revoked_peer_id"] == p3 && v["revocation"]["revoked_at"] == json!(iat))),
            ("export_revocations", json!({"issued_for": p3}), Box::new(|v| v["revocations"] == json!([w.rev_dto(&rev)]))),
            ("insert_cert", json!({"certificate": {"chain": [w.trust_dto(&own), w.trust_dto(&link)]}}), Box::new(|v| v["success"] == true)),
            ("insert_cert_raw", json!({"certificate": w.cert_text(&[own.clone(), link.clone()])}), Box::new(|v| v["success"] == true)),
            ("add_trust", json!({"trust": w.trust_dto(&ts), "issuer_peer_id": p2}), Box::new(|v| v["success"] == true && v["weight"] == 2)),
            ("revoke", json!({"revoke": w.rev_dto(&rs)}), Box::new(|v| v["success"] == true)),
            ("set_root", json!({"peer_id": p3, "max_chain_len": 3}), Box::new(|v| v["success"] == true)),
        ];
        let mut order: Vec<usize> = (0..15).collect();
        rng.shuffle(&mut order);
        order.extend(15..asks.len());
        let mut svc = match h.s.kind {
            Kind::Svc(ref mut s) => s,
            _ => return,
        };
        for i in order {
            let (f, by_name, judge) = &asks[i];
            let args = match funcs.iter().find(|x| x.0 == *f) {
                Some(x) => x.1.clone(),
                None => continue,
            };
            let mut vals = vec![];
            for (a, _) in &args {
                match by_name.get(a).cloned().or_else(|| (a == "timestamp_sec").then(|| json!(now))) {
                    Some(v) => vals.push(v),
                    None => {
                        rep.count(&format!("unknown argument: {f} {a}"), 1);
                        break;
                    }
                }
            }
            if vals.len() != args.len() {
                continue;
            }
            let tets: Vec<Value> = args.iter().map(|a| if a.0 == "timestamp_sec" { clock(&w.peers[2]) } else { literal(OWNER) }).collect();
            let mut cp = call_params(w, 2, OWNER, OWNER, f, vals.len());
            cp["tetraplets"] = json!(tets);
            rep.eval(&(f, i, case), true);
            match svc.call_checked(f, json!(vals), Some(cp)) {
                Out::Ok(v) => {
                    rep.count("answers to arguments given by name", 1);
                    if v["success"] != true || !judge(&v) {
                        return rep.violation("an argument is not what its name says", json!({"function": f, "arguments": by_name, "answer": v}));
                    }
                }
                o => return rep.violation("declared arguments do not fit the call", json!({"function": f, "arguments": by_name, "what": format!("{o:?}")})),
            }
        }
    }));
    if only.is_none() && total.violations.is_empty() {
        for (f, _, _) in &funcs {
            let n = |k: &str| total.counters.get(&format!("{f}: {k}")).copied().unwrap_or(0);
            if n("failed") > 100 && n("succeeded") == 0 {
                total.violation("a declared call never succeeds", json!({"workload": "published interface", "function": f, "tries": n("failed")}));
            }
        }
    }
    total
}
