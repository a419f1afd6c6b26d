//! S08: the published Aqua functions, executed over a small network of service
//! processes, against a twin network on which the harness does by hand what
//! each function is documented to do.
use crate::model::Id;
use crate::aquarun::*;
use crate::common::*;
use crate::props_g::*;
use crate::props_s::shipped;
use crate::subject::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub type Signatures = Rc<RefCell<HashMap<(Id, Vec<u8>), Vec<u8>>>>;

pub struct Net {
    pub w: Rc<World>,
    pub client: String,
    /// peer -> its service process and the service's creator
    pub nodes: BTreeMap<String, (Svc, String)>,
    pub clocks: BTreeMap<String, u64>,
    /// identities the client can sign for
    pub signers: BTreeSet<Id>,
    /// of these, the ones that refuse to
    pub refusing: BTreeSet<Id>,
    pub signatures: Signatures,
    /// canned answer to host certificate queries
    pub stub: Option<Value>,
    /// a service function that is out of order, on one peer or everywhere
    pub broken: Option<(Option<String>, String)>,
    pub trouble: Option<String>,
}

/// the answer of a function that is out of order
fn out_of_order() -> Value {
    json!({
        "success": false,
        "error": "out of order",
        "weight": 0,
        "peer_id": "",
        "result": [],
        "certificates": [],
        "trust": {"issued_for": "", "expires_at": 0, "signature": "", "sig_type": "", "issued_at": 0},
        "revocation": {"revoked_peer_id": "", "revoked_at": 0, "signature": "", "sig_type": "", "revoked_by": ""},
    })
}

impl Net {
    pub fn direct(&mut self, node: &str, f: &str, args: Value) -> Result<Value, String> {
        let cl = self.client.clone();
        let a: Vec<(Value, Value)> = args.as_array().unwrap().iter().enumerate().map(|(i, v)| (v.clone(), if Some(i) == time_arg(f) { clock(node) } else { literal(&cl) })).collect();
        self.call(node, "trust-graph", f, &a)
    }
    fn sign(&mut self, id: Id, bytes: &[u8]) -> Vec<u8> {
        let w = self.w.clone();
        self.signatures.borrow_mut().entry((id, bytes.to_vec())).or_insert_with(|| w.keys[id].sign(bytes).expect("signing").to_vec().to_vec()).clone()
    }
}

impl Host for Net {
    fn call(&mut self, peer: &str, service: &str, function: &str, args: &[(Value, Value)]) -> Result<Value, String> {
        let missing = || Err(format!("no {service}.{function} with {} arguments on {peer}", args.len()));
        match (service, function) {
            ("peer", "timestamp_sec") if args.is_empty() => self.clocks.get(peer).map(|t| json!(t)).ok_or_else(|| format!("no peer {peer}")),
            ("op", "array_length") if args.len() == 1 => args[0].0.as_array().map(|a| json!(a.len())).ok_or_else(|| "length of something that is no list".into()),
            ("trust-graph", f) => {
                if let (Some(s), true) = (&self.stub, f.starts_with("get_host_certs")) {
                    return Ok(s.clone());
                }
                if let Some((p, b)) = &self.broken {
                    if b == f && p.as_deref().map_or(true, |p| p == peer) && self.nodes.contains_key(peer) {
                        return Ok(out_of_order());
                    }
                }
                let client = self.client.clone();
                let (svc, owner) = match self.nodes.get_mut(peer) {
                    Some(n) => n,
                    None => return missing(),
                };
                let tets: Vec<Value> = args.iter().map(|a| a.1.clone()).collect();
                let vals: Vec<Value> = args.iter().map(|a| a.0.clone()).collect();
                let cp = json!({"init_peer_id": client, "service_id": "trust-graph", "service_creator_peer_id": owner.clone(), "host_id": peer, "particle_id": "p", "tetraplets": tets});
                match svc.call_checked(f, json!(vals), Some(cp)) {
                    Out::Ok(v) => Ok(v),
                    Out::Err(e) => Err(e),
                    o => {
                        self.trouble = Some(format!("{f}: {o:?}"));
                        Err(format!("{f}: {o:?}"))
                    }
                }
            }
            (id, "sign") if args.len() == 1 => {
                let who = match (id, self.w.peer(id)) {
                    ("sig", _) => self.w.peer(peer),
                    (_, Some(i)) if peer == self.client && self.signers.contains(&i) => Some(i),
                    _ => None,
                };
                let who = match who {
                    Some(w) => w,
                    None => return missing(),
                };
                let bytes: Option<Vec<u8>> = args[0].0.as_array().and_then(|a| a.iter().map(|x| x.as_u64().and_then(|x| u8::try_from(x).ok())).collect());
                let bytes = match bytes {
                    Some(b) => b,
                    None => return Err("signing something that is no bytes".into()),
                };
                if self.refusing.contains(&who) {
                    return Ok(json!({"success": false, "signature": [], "error": ["signing refused"]}));
                }
                let s = self.sign(who, &bytes);
                Ok(json!({"success": true, "signature": [s], "error": []}))
            }
            _ => missing(),
        }
    }
}

/// what a function is documented to answer
enum Want {
    /// exactly this
    Same(Value),
    /// lists of certificates compare as sets
    Certs(Value),
    /// an optional value and an optional error: the value, if it went well
    Made(Option<Value>),
    /// an optional error: whether there is one
    Error(bool),
}

fn ok(v: &Value) -> bool {
    v["success"] == true
}

/// by hand, on the twin
struct Ref<'a> {
    n: &'a mut Net,
    relay: String,
}

impl Ref<'_> {
    fn issue_trust(&mut self, issuer: Id, for_: &str, exp: u64) -> Result<Option<Value>, String> {
        let relay = self.relay.clone();
        let iat = self.n.clocks[&relay];
        let b = self.n.direct(&relay, "get_trust_bytes", json!([for_, exp, iat]))?;
        if !ok(&b) || self.n.refusing.contains(&issuer) {
            return Ok(None);
        }
        let bytes: Vec<u8> = b["result"].as_array().ok_or("bytes")?.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect();
        let s = self.n.sign(issuer, &bytes);
        let t = self.n.direct(&relay, "issue_trust", json!([for_, exp, iat, s]))?;
        Ok(ok(&t).then(|| t["trust"].clone()))
    }
    fn issue_revocation(&mut self, by: Id, revoked: &str) -> Result<Option<Value>, String> {
        let relay = self.relay.clone();
        let at = self.n.clocks[&relay];
        let b = self.n.direct(&relay, "get_revocation_bytes", json!([revoked, at]))?;
        if !ok(&b) || self.n.refusing.contains(&by) {
            return Ok(None);
        }
        let bytes: Vec<u8> = b["result"].as_array().ok_or("bytes")?.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect();
        let s = self.n.sign(by, &bytes);
        let by = self.n.w.peers[by].clone();
        let t = self.n.direct(&relay, "issue_revocation", json!([by, revoked, at, s]))?;
        Ok(ok(&t).then(|| t["revocation"].clone()))
    }
    fn import_trust(&mut self, node: &str, t: &Value, issuer: &str) -> Result<bool, String> {
        let now = self.n.clocks[node];
        Ok(ok(&self.n.direct(node, "add_trust", json!([t, issuer, now]))?))
    }
    fn timed(&mut self, node: &str, f: &str, mut args: Vec<Value>) -> Result<Value, String> {
        args.push(json!(self.n.clocks[node]));
        self.n.direct(node, f, json!(args))
    }
}

fn sorted(v: &Value) -> Value {
    let mut v = v.clone();
    if let Some(a) = v.get_mut("certificates").and_then(|c| c.as_array_mut()) {
        a.sort_by_key(|c| c.to_string());
    }
    v
}

/// everything a node answers
fn state(n: &mut Net, node: &str) -> Result<Value, String> {
    let w = n.w.clone();
    let now = n.clocks[node];
    let mut out = vec![];
    for p in &w.peers {
        out.push(n.direct(node, "get_weight", json!([p, now]))?);
        out.push(sorted(&n.direct(node, "get_all_certs", json!([p, now]))?));
        let mut r = n.direct(node, "export_revocations", json!([p]))?;
        if let Some(a) = r["revocations"].as_array_mut() {
            a.sort_by_key(|x| x.to_string());
        }
        out.push(r);
    }
    Ok(json!(out))
}

pub const API: [(&str, usize); 16] = [
    ("set_root", 2),
    ("issue_trust", 3),
    ("import_trust", 2),
    ("add_trust", 4),
    ("add_root_trust", 4),
    ("verify_trust", 2),
    ("get_weight", 1),
    ("get_weight_from", 2),
    ("issue_revocation", 2),
    ("import_revocation", 1),
    ("revoke", 3),
    ("get_host_certs_from", 1),
    ("get_all_certs", 1),
    ("get_all_certs_from", 2),
    ("get_host_certs", 0),
    ("insert_cert", 1),
];

fn one(vs: &[V], i: usize) -> Option<Value> {
    vs.get(i).map(|v| v.json())
}

/// does an answer fit?
fn judge(got: &[V], want: &Want) -> Result<(), String> {
    let option = |v: Option<Value>| -> Result<Option<Value>, String> {
        match v {
            Some(Value::Array(mut a)) if a.len() < 2 => Ok(a.pop()),
            v => Err(format!("not an optional value: {v:?}")),
        }
    };
    let error = |v: Option<Value>| -> Result<bool, String> {
        match option(v)? {
            Some(Value::String(s)) if !s.is_empty() => Ok(true),
            None => Ok(false),
            v => Err(format!("not an error text: {v:?}")),
        }
    };
    let same = |a: &Option<Value>, b: &Option<Value>| if a == b { Ok(()) } else { Err(format!("answer {a:?}, should be {b:?}")) };
    match want {
        Want::Same(v) => same(&one(got, 0), &Some(v.clone())),
        Want::Certs(v) => same(&one(got, 0).map(|v| sorted(&v)), &Some(sorted(v))),
        Want::Made(v) => {
            let (r, e) = (option(one(got, 0))?, error(one(got, 1))?);
            same(&r, v)?;
            if e == v.is_none() {
                Ok(())
            } else {
                Err(format!("error {:?} with value {r:?}", one(got, 1)))
            }
        }
        Want::Error(w) => {
            let e = error(one(got, 0))?;
            if e == *w {
                Ok(())
            } else {
                Err(format!("error {:?}, should {}be one", one(got, 0), if *w { "" } else { "not " }))
            }
        }
    }
}

pub fn s08(ctx: &Ctx, only: &Only) -> Report {
    let early = |what: String| {
        let mut r = Report::default();
        r.eval(&0, true);
        r.count(&format!("not run: {what}"), 1);
        r
    };
    let mut sources = vec![];
    let dir = format!("{}/aqua", ctx.repo);
    match std::fs::read_dir(&dir) {
        Ok(d) => {
            let mut names: Vec<_> = d.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().map_or(false, |e| e == "aqua")).collect();
            names.sort();
            for n in names {
                sources.push(std::fs::read_to_string(&n).unwrap_or_default());
            }
        }
        Err(e) => return early(format!("{dir}: {e}")),
    }
    if let Err(e) = Program::parse(&sources) {
        return early(format!("Aqua sources: {e}"));
    }
    let sets = shipped(ctx).unwrap_or_default();
    par_cases(ctx, "Aqua functions", ctx.n(220, 4000), only, |rep, rng, case| {
        let prog = Program::parse(&sources).unwrap();
        for (f, n) in API.iter().copied().chain([("isFluencePeer", 0)]) {
            if !prog.has(f) {
                rep.violation("a published function is missing", json!({"function": f}));
                return;
            }
            if prog.arity(f) != Some(n) {
                rep.violation("a published function takes other arguments", json!({"function": f, "takes": prog.arity(f)}));
                return;
            }
        }
        if case % 4 == 3 {
            fluence_peer(ctx, rep, rng, case, &prog, &sets);
        } else {
            network(ctx, rep, rng, case, &prog);
        }
    })
}

fn unsupported(rep: &mut Report, e: String) {
    rep.count(&format!("not run: {e}"), 1);
}

fn network(ctx: &Ctx, rep: &mut Report, rng: &mut Rng, case: u64, prog: &Program) {
    // 0: the client, 1..4: identities it signs for, 5: the relay, 6,7: nodes, 8: a stranger
    let w = Rc::new(World::random(9, rng, true));
    let (client, relay) = (w.peers[0].clone(), w.peers[5].clone());
    let signatures: Signatures = Default::default();
    let mut dbs = vec![];
    let base = if rng.chance(1, 8) { 1 << 33 } else { 1_000_000 };
    let mut clocks: BTreeMap<String, u64> = w.peers.iter().map(|p| (p.clone(), base)).collect();
    let skewed = rng.chance(1, 2);
    if skewed {
        for c in clocks.values_mut() {
            *c = *c + rng.below(40) as u64 - 20;
        }
    }
    let owners: Vec<String> = (5..8).map(|i| if rng.chance(if i == 5 { 11 } else { 9 }, 12) { client.clone() } else { w.peers[8].clone() }).collect();
    let refusing: BTreeSet<Id> = (1..5).filter(|_| rng.chance(1, 12)).collect();
    let mut nets: Vec<Net> = (0..2)
        .map(|side| {
            let nodes = (5..8)
                .map(|i| {
                    let db = Db::new(ctx, &format!("s08-{side}-{i}"), case);
                    let s = Svc::start(svcd(ctx), &db.0);
                    dbs.push(db);
                    (w.peers[i].clone(), (s, owners[i - 5].clone()))
                })
                .collect();
            Net { w: w.clone(), client: client.clone(), nodes, clocks: clocks.clone(), signers: (0..5).collect(), refusing: refusing.clone(), signatures: signatures.clone(), stub: None, broken: None, trouble: None }
        })
        .collect();
    let mut twin = nets.pop().unwrap();
    let mut net = nets.pop().unwrap();
    let mut history: Vec<String> = vec![];
    let mut trusts: Vec<(Value, Id)> = vec![];
    let mut revs: Vec<Value> = vec![];
    let name = |p: &str| w.peer(p).map_or_else(|| format!("{p:?}"), |i| format!("p{i}"));
    for step in 0..14 + rng.below(14) {
        // time goes on
        for p in w.peers.iter() {
            let d = if skewed { rng.below(6) as u64 } else { 1 };
            let t = clocks.get_mut(p).unwrap();
            *t += d + if step % 9 == 8 { 20 } else { 0 };
        }
        net.clocks = clocks.clone();
        twin.clocks = clocks.clone();
        let mut node = w.peers[5 + rng.below(3)].clone();
        if step > 5 && rng.chance(1, 5) {
            let f = rng.pick(&["get_trust_bytes", "issue_trust", "add_trust", "set_root", "verify_trust", "get_weight", "get_weight_from", "get_revocation_bytes", "issue_revocation", "revoke", "issue_trust", "issue_revocation"]).to_string();
            let b = Some((if rng.chance(1, 2) { None } else { Some(w.peers[5 + rng.below(3)].clone()) }, f));
            net.broken = b.clone();
            twin.broken = b;
        }
        // most steps follow a thread, so that chains come to something
        let thread = rng.chance(3, 4);
        let mut signer = rng.below(5);
        if thread && (step < 6 || rng.chance(1, 2)) {
            signer = rng.below(2);
            node = w.peers[5].clone();
        }
        let now = clocks[&node];
        let any = |rng: &mut Rng| if thread && rng.chance(1, 2) { w.peers[[0, 1, 5, 6][rng.below(4)]].clone() } else if rng.chance(1, 14) { "not a peer".to_string() } else { w.peers[rng.below(9)].clone() };
        let exp = match if step < 6 { 3 + rng.below(3) } else { rng.below(5) } {
            0 => now + rng.below(60) as u64,
            1 => now.saturating_sub(rng.below(10) as u64),
            2 => u64::MAX - rng.below(2) as u64,
            _ => now + 100_000,
        };
        let (f, _) = match step {
            0 | 1 => ("add_root_trust", 0),
            2..=5 => ("add_trust", 0),
            7 | 11 => (*rng.pick(&["get_host_certs", "get_host_certs_from"]), 0),
            _ => *rng.pick(&API),
        };
        let len = *rng.pick(if step < 6 { &[1u32, 2, 3, 16] } else { &[0u32, 1, 2, 3, 16, u32::MAX] });
        let mut r = Ref { n: &mut twin, relay: relay.clone() };
        // where it runs, with what, and what must come of it
        let plan: Result<(String, Vec<Value>, Want), String> = (|| {
            Ok(match f {
                "set_root" => {
                    let p = any(rng);
                    let v = r.n.direct(&node, f, json!([p, len]))?;
                    (node.clone(), vec![json!(p), json!(len)], Want::Same(v))
                }
                "issue_trust" => {
                    let p = any(rng);
                    let t = r.issue_trust(signer, &p, exp)?;
                    if let Some(t) = &t {
                        trusts.push((t.clone(), signer));
                    }
                    (client.clone(), vec![json!(w.peers[signer]), json!(p), json!(exp)], Want::Made(t))
                }
                "add_trust" => {
                    let p = if step < 6 && thread {
                        w.peers[5 + rng.below(2)].clone()
                    } else if step < 6 {
                        w.peers[rng.below(9)].clone()
                    } else {
                        any(rng)
                    };
                    let bad = match r.issue_trust(signer, &p, exp)? {
                        Some(t) => {
                            trusts.push((t.clone(), signer));
                            !r.import_trust(&node, &t, &w.peers[signer])?
                        }
                        None => true,
                    };
                    (client.clone(), vec![json!(node), json!(w.peers[signer]), json!(p), json!(exp)], Want::Error(bad))
                }
                "add_root_trust" => {
                    let bad = match r.issue_trust(signer, &w.peers[signer].clone(), exp)? {
                        Some(t) => {
                            let s = r.n.direct(&node, "set_root", json!([w.peers[signer], len]))?;
                            !ok(&s) || !r.import_trust(&node, &t, &w.peers[signer])?
                        }
                        None => true,
                    };
                    (client.clone(), vec![json!(node), json!(w.peers[signer]), json!(len), json!(exp)], Want::Error(bad))
                }
                "import_trust" | "verify_trust" => {
                    let (t, by) = if trusts.is_empty() || rng.chance(1, 4) {
                        let (by, for_) = (rng.below(9), rng.below(9));
                        (w.trust_dto(&w.trust(by, for_, exp, now.saturating_sub(30) + rng.below(40) as u64)), by)
                    } else {
                        rng.pick(&trusts).clone()
                    };
                    let by = if rng.chance(1, 6) { any(rng) } else { w.peers[by].clone() };
                    if f == "verify_trust" {
                        let v = r.timed(&node, f, vec![t.clone(), json!(by)])?;
                        (node.clone(), vec![t, json!(by)], Want::Same(v))
                    } else {
                        let good = r.import_trust(&node, &t, &by)?;
                        (node.clone(), vec![t, json!(by)], Want::Error(!good))
                    }
                }
                "issue_revocation" => {
                    let p = any(rng);
                    let v = r.issue_revocation(signer, &p)?;
                    revs.extend(v.clone());
                    (client.clone(), vec![json!(w.peers[signer]), json!(p)], Want::Made(v))
                }
                "import_revocation" => {
                    let v = if revs.is_empty() || rng.chance(1, 4) {
                        let (by, for_) = (rng.below(9), rng.below(9));
                        w.rev_dto(&w.rev(by, for_, now.saturating_sub(30) + rng.below(40) as u64))
                    } else {
                        rng.pick(&revs).clone()
                    };
                    let a = r.timed(&node, "revoke", vec![v.clone()])?;
                    (node.clone(), vec![v], Want::Error(!ok(&a)))
                }
                "revoke" => {
                    let p = any(rng);
                    let bad = match r.issue_revocation(signer, &p)? {
                        Some(v) => {
                            revs.push(v.clone());
                            !ok(&r.timed(&node, "revoke", vec![v])?)
                        }
                        None => true,
                    };
                    (client.clone(), vec![json!(node), json!(w.peers[signer]), json!(p)], Want::Error(bad))
                }
                "insert_cert" => {
                    let n = 1 + rng.below(4);
                    let mut by = signer;
                    let mut chain = vec![w.trust_dto(&w.trust(by, by, exp, now.saturating_sub(5)))];
                    for _ in 0..n {
                        let to = rng.below(9);
                        chain.push(w.trust_dto(&w.trust(by, to, exp, now.saturating_sub(30) + rng.below(32) as u64)));
                        by = to;
                    }
                    let c = json!({"chain": chain});
                    let v = r.timed(&node, f, vec![c.clone()])?;
                    (node.clone(), vec![c], Want::Same(v))
                }
                _ => {
                    let n = API.iter().find(|x| x.0 == f).unwrap().1;
                    let args: Vec<Value> = (0..n).map(|_| json!(any(rng))).collect();
                    let v = r.timed(&node, f, args.clone())?;
                    if v["certificates"].as_array().map_or(false, |c| !c.is_empty()) {
                        rep.count(&format!("answers with certificates:{f}"), 1);
                    }
                    (node.clone(), args, if v.get("certificates").is_some() { Want::Certs(v) } else { Want::Same(v) })
                }
            })
        })();
        let (at, args, want) = match plan {
            Ok(p) => p,
            Err(e) => return unsupported(rep, format!("reference: {e}")),
        };
        let shown: Vec<String> = args.iter().map(|a| a.as_str().map_or_else(|| a.to_string(), &name)).collect();
        history.push(format!("on {}: {f}({}) relay={} node={}", name(&at), shown.join(", "), clocks[&relay], now));
        let argv: Vec<V> = args.iter().map(|a| V::lit(a.clone(), &client)).collect();
        let mut run = Run::new(prog, &mut net, &client, &relay);
        let got = run.function(&at, f, argv);
        rep.count("service calls made by Aqua functions", run.calls);
        rep.count(&format!("runs:{f}"), 1);
        let tell = |what: String| json!({"function": f, "what": what, "history": history, "clocks": clocks.iter().map(|(p, t)| format!("{}={t}", name(p))).collect::<Vec<_>>(), "owners": owners.iter().map(|o| name(o)).collect::<Vec<_>>()});
        if net.broken.take().is_some() {
            rep.count("runs with a function out of order", 1);
        }
        twin.broken = None;
        if let Some(t) = net.trouble.take() {
            return unsupported(rep, format!("service: {t}"));
        }
        let fp = (case, step, f);
        match got {
            Err(Stop::Unsupported(e)) => return unsupported(rep, e),
            Err(Stop::Fault(e)) => {
                rep.check(&fp, false, "a published function breaks off", || tell(e));
                return;
            }
            Ok(v) => {
                let j = judge(&v, &want);
                rep.count(match &want { Want::Error(true) | Want::Made(None) => "outcome:error expected", Want::Same(v) | Want::Certs(v) if !ok(v) => "outcome:error expected", _ => "outcome:success expected" }, 1);
                if !rep.check(&fp, j.is_ok(), "a published function answers wrongly", || tell(j.clone().unwrap_err())) {
                    return;
                }
            }
        }
        if !f.starts_with("get_") && !f.starts_with("verify") {
            for i in 5..8 {
                let (a, b) = (state(&mut net, &w.peers[i]), state(&mut twin, &w.peers[i]));
                match (a, b) {
                    (Ok(a), Ok(b)) => {
                        rep.count("node states compared", 1);
                        if !rep.check(&(fp, i), a == b, "a published function has the wrong effect", || tell(format!("on p{i}: {a} should be {b}"))) {
                            return;
                        }
                    }
                    (a, b) => return unsupported(rep, format!("state: {:?} {:?}", a.err(), b.err())),
                }
            }
        }
    }
    rep.sample(|| json!({"history": history}));
}

fn fluence_peer(ctx: &Ctx, rep: &mut Report, rng: &mut Rng, case: u64, prog: &Program, sets: &[(String, String, u32, Vec<Value>)]) {
    let w = Rc::new(World::random(4, rng, true));
    let run = |net: &mut Net, host: &str| {
        let (c, r) = (net.client.clone(), w.peers[1].clone());
        Run::new(prog, net, &c, &r).function(host, "isFluencePeer", vec![])
    };
    let verdict = |got: &Res2| -> Result<(Option<bool>, bool), String> {
        let r = one(got, 0).and_then(|v| v.as_array().cloned()).ok_or("no list of results")?;
        let e = one(got, 1).and_then(|v| v.as_array().cloned()).ok_or("no list of errors")?;
        // several equal results are as good as one
        if r.windows(2).any(|x| x[0] != x[1]) {
            return Err(format!("results {r:?}"));
        }
        Ok((r.first().and_then(|v| v.as_bool()), !e.is_empty()))
    };
    // the shipped certificates on the peers they name, and on others
    if let Some((file, root, max, certs)) = sets.get(case as usize / 4 % sets.len().max(1)) {
        let chains: Vec<Vec<Value>> = certs.iter().filter_map(|c| c["chain"].as_array().cloned()).collect();
        let at = |t: &Value, f: &str| t[f].as_u64().unwrap_or(0);
        let lo = chains.iter().flatten().map(|t| at(t, "issued_at")).max().unwrap_or(0);
        let hi = chains.iter().flatten().map(|t| at(t, "expires_at")).min().unwrap_or(0);
        let subject = |c: &[Value], i: usize| c.get(i).and_then(|t| t["issued_for"].as_str()).unwrap_or("").to_string();
        if lo < hi && !chains.is_empty() {
            let now = rng.range(lo, hi - 1);
            let db = Db::new(ctx, "s08-f", case);
            let c = rng.pick(&chains).clone();
            let named = subject(&c, c.len() - 1);
            let mut net = Net { w: w.clone(), client: w.peers[0].clone(), nodes: BTreeMap::new(), clocks: BTreeMap::new(), signers: BTreeSet::new(), refusing: BTreeSet::new(), signatures: Default::default(), stub: None, broken: None, trouble: None };
            net.nodes.insert(named.clone(), (Svc::start(svcd(ctx), &db.0), net.client.clone()));
            let label = subject(&c, 1);
            let late = rng.chance(1, 3);
            let mut loaded = matches!(net.direct(&named, "set_root", json!([root, max])), Ok(v) if ok(&v));
            for c in certs {
                loaded &= matches!(net.direct(&named, "insert_cert", json!([c, now])), Ok(v) if ok(&v));
            }
            if !loaded {
                return unsupported(rep, format!("{file} does not load"));
            }
            // the same service answering for another host
            let other = w.peers[2].clone();
            for (host, here) in [(named.clone(), true), (other, false)] {
                if let Some(n) = net.nodes.remove(&named) {
                    net.nodes.insert(host.clone(), n);
                } else if let Some((k, _)) = net.nodes.clone_first() {
                    let n = net.nodes.remove(&k).unwrap();
                    net.nodes.insert(host.clone(), n);
                }
                let t = if late { u64::MAX / 2 } else { now };
                net.clocks.insert(host.clone(), t);
                let want = here && chains.iter().any(|c| c.len() == 3 && subject(c, 2) == host && subject(c, 0) == *root && c.iter().all(|x| at(x, "expires_at") > t));
                match run(&mut net, &host) {
                    Err(Stop::Unsupported(e)) => return unsupported(rep, e),
                    Err(Stop::Fault(e)) => {
                        rep.check(&(case, &host), false, "isFluencePeer breaks off", || json!({"host": host, "what": e}));
                    }
                    Ok(v) => {
                        let g = verdict(&v);
                        rep.count(if want { "shipped peers recognised" } else { "strangers and late questions" }, 1);
                        rep.check(&("shipped", &host, t), g == Ok((Some(want), false)), "isFluencePeer answers wrongly", || json!({"file": file, "host": host, "label": label, "now": t, "got": format!("{g:?}"), "want": want}));
                    }
                }
            }
        }
    }
    // answers the host's graph might give
    let (root, label) = match sets.first().and_then(|s| {
        let c = s.3.iter().find(|c| c["chain"].as_array().map_or(0, |x| x.len()) == 3)?;
        Some((s.1.clone(), c["chain"][1]["issued_for"].as_str()?.to_string()))
    }) {
        Some(x) => x,
        None => return unsupported(rep, "nothing shipped".into()),
    };
    let host = w.peers[2].clone();
    let db = Db::new(ctx, "s08-g", case);
    let mut net = Net { w: w.clone(), client: w.peers[0].clone(), nodes: BTreeMap::new(), clocks: BTreeMap::new(), signers: BTreeSet::new(), refusing: BTreeSet::new(), signatures: Default::default(), stub: None, broken: None, trouble: None };
    net.nodes.insert(host.clone(), (Svc::start(svcd(ctx), &db.0), net.client.clone()));
    net.clocks.insert(host.clone(), 1_000_000);
    for k in 0..16 {
        // the label itself may ask, too
        let host = if k < 12 { host.clone() } else { label.clone() };
        if k == 12 {
            let n = net.nodes.remove(&w.peers[2]).unwrap();
            net.nodes.insert(host.clone(), n);
            net.clocks.insert(host.clone(), 1_000_000);
        }
        let fails = rng.chance(1, 8);
        let n = if fails { 0 } else { rng.below(4) };
        let mut want = false;
        let mut certs = vec![];
        for _ in 0..n {
            let mid = rng.below(4);
            let mut c = vec![if rng.chance(2, 3) { root.clone() } else { w.peers[3].clone() }];
            for _ in 0..mid {
                c.push(w.peers[rng.below(2)].clone());
            }
            // the label is somewhere between the root and the host
            let i = 1 + rng.below(c.len());
            if host == label && rng.chance(2, 3) {
                // only as the last
            } else if rng.chance(1, 12) {
                c[0] = label.clone();
            } else {
                c.insert(i, label.clone());
            }
            c.push(host.clone());
            want |= c.len() == 3 && c[0] == root && c[1] == label;
            certs.push(json!({"chain": c.iter().map(|p| json!({"issued_for": p, "expires_at": 2_000_000u64, "signature": "1", "sig_type": "ed25519", "issued_at": 1})).collect::<Vec<_>>()}));
        }
        net.stub = Some(json!({"success": !fails, "certificates": certs, "error": if fails { "no" } else { "" }}));
        match run(&mut net, &host) {
            Err(Stop::Unsupported(e)) => return unsupported(rep, e),
            Err(Stop::Fault(e)) => {
                rep.check(&(case, k), false, "isFluencePeer breaks off", || json!({"given": net.stub, "what": e}));
            }
            Ok(v) => {
                let g = verdict(&v);
                let exp = if fails { (None, true) } else { (Some(want), false) };
                rep.count(if fails { "isFluencePeer:failing" } else if want { "isFluencePeer:yes" } else { "isFluencePeer:no" }, 1);
                rep.check(&(certs.iter().map(|c| c.to_string()).collect::<Vec<_>>(), fails), g == Ok(exp), "isFluencePeer answers wrongly", || json!({"given": net.stub, "got": format!("{g:?}"), "want": format!("{exp:?}")}));
            }
        }
    }
}

type Res2 = Vec<V>;

trait First {
    fn clone_first(&self) -> Option<(String, ())>;
}
impl<X> First for BTreeMap<String, X> {
    fn clone_first(&self) -> Option<(String, ())> {
        self.keys().next().map(|k| (k.clone(), ()))
    }
}
