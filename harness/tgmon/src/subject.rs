//! The systems under observation: the library over a monitored in-memory
//! storage, and the service as a process of its own.
use crate::common::*;
use crate::model::*;
use fluence_keypair::{KeyFormat, KeyPair, PublicKey, Signature};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;
use std::time::Duration;
use trust_graph::{Auth, Certificate, PublicKeyHashable as PK, Revocation, Storage, StorageError, Trust, TrustGraph, TrustRelation, WeightFactor};

// ---------------------------------------------------------------- world

/// the keys of a case
pub struct World {
    pub keys: Vec<KeyPair>,
    pub pks: Vec<PublicKey>,
    pub peers: Vec<String>,
    idx: HashMap<(u8, Vec<u8>), Id>,
    peer_idx: HashMap<String, Id>,
}

impl World {
    pub fn new(keys: Vec<KeyPair>) -> World {
        let pks: Vec<PublicKey> = keys.iter().map(|k| k.public()).collect();
        let peers: Vec<String> = pks.iter().map(|p| p.to_peer_id().to_base58()).collect();
        let idx = pks.iter().enumerate().map(|(i, p)| (pk_id(p), i)).collect();
        let peer_idx = peers.iter().enumerate().map(|(i, p)| (p.clone(), i)).collect();
        World { keys, pks, peers, idx, peer_idx }
    }
    pub fn random(n: usize, rng: &mut Rng, service: bool) -> World {
        World::new(distinct_keys(n, rng, |r| {
            if !service && r.chance(1, 40) {
                KeyFormat::Rsa
            } else if r.chance(1, 4) {
                KeyFormat::Secp256k1
            } else {
                KeyFormat::Ed25519
            }
        }))
    }
    pub fn n(&self) -> usize {
        self.keys.len()
    }
    pub fn id(&self, p: &PublicKey) -> Option<Id> {
        self.idx.get(&pk_id(p)).copied()
    }
    pub fn peer(&self, p: &str) -> Option<Id> {
        self.peer_idx.get(p).copied()
    }
    pub fn trust(&self, by: Id, for_: Id, exp: u64, iat: u64) -> T {
        let t = Trust::create(&self.keys[by], self.pks[for_].clone(), secs(exp), secs(iat));
        T { by, for_, exp, iat, sig: t.signature.to_vec().to_vec() }
    }
    pub fn rev(&self, by: Id, for_: Id, at: u64) -> R {
        let r = Revocation::create(&self.keys[by], self.pks[for_].clone(), secs(at));
        R { by, for_, at, sig: r.signature.to_vec().to_vec() }
    }
    pub fn to_trust(&self, t: &T) -> Trust {
        Trust::new(self.pks[t.for_].clone(), secs(t.exp), secs(t.iat), Signature::from_bytes(self.pks[t.by].get_key_format(), t.sig.clone()))
    }
    pub fn to_rev(&self, r: &R) -> Revocation {
        Revocation::new(self.pks[r.by].clone(), self.pks[r.for_].clone(), secs(r.at), Signature::from_bytes(self.pks[r.by].get_key_format(), r.sig.clone()))
    }
    pub fn trust_dto(&self, t: &T) -> Value {
        json!({"issued_for": self.peers[t.for_], "expires_at": t.exp, "signature": bs58::encode(&t.sig).into_string(), "sig_type": fmt_name(self.pks[t.by].get_key_format()), "issued_at": t.iat})
    }
    pub fn rev_dto(&self, r: &R) -> Value {
        json!({"revoked_peer_id": self.peers[r.for_], "revoked_at": r.at, "signature": bs58::encode(&r.sig).into_string(), "sig_type": fmt_name(self.pks[r.by].get_key_format()), "revoked_by": self.peers[r.by]})
    }
    /// the text form of a certificate, written independently of the code under observation
    pub fn cert_text(&self, c: &[T]) -> String {
        let mut s = String::from("11\n1111\n");
        for t in c {
            let f = match self.pks[t.by].get_key_format() {
                KeyFormat::Ed25519 => 0u8,
                KeyFormat::Rsa => 1,
                KeyFormat::Secp256k1 => 2,
            };
            let mut sig = vec![f];
            sig.extend(&t.sig);
            let id = pk_id(&self.pks[t.for_]);
            let mut pk = vec![id.0];
            pk.extend(&id.1);
            s += &format!("{}\n{}\n{}\n{}\n", bs58::encode(pk).into_string(), bs58::encode(sig).into_string(), t.exp, t.iat);
        }
        s
    }
}

// ---------------------------------------------------------------- outcomes

/// outcome of one call
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out<X> {
    Ok(X),
    Err(String),
    Panic(String),
    /// the process died in the middle of the call
    Dead(i32),
}

impl<X> Out<X> {
    pub fn is_err(&self) -> bool {
        matches!(self, Out::Err(_))
    }
    pub fn map<Y>(self, f: impl FnOnce(X) -> Y) -> Out<Y> {
        match self {
            Out::Ok(x) => Out::Ok(f(x)),
            Out::Err(e) => Out::Err(e),
            Out::Panic(e) => Out::Panic(e),
            Out::Dead(s) => Out::Dead(s),
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Out::Ok(_) => "ok",
            Out::Err(_) => "error",
            Out::Panic(_) => "panic",
            Out::Dead(_) => "dead",
        }
    }
}

/// one trust of a returned certificate; the issuer is the previous link's subject
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Link {
    /// index of the subject, or a description of an unknown one
    pub for_: Result<Id, String>,
    pub exp: u64,
    pub iat: u64,
    pub sig: Vec<u8>,
    pub sig_type: String,
}

pub type Cert = Vec<Link>;

// ---------------------------------------------------------------- storage

#[derive(Clone, Default)]
pub struct Mem {
    pub rel: BTreeMap<(String, String), TrustRelation>,
    pub roots: BTreeMap<String, (PK, WeightFactor)>,
}

#[derive(Default)]
pub struct StoreCtl {
    pub mem: Mem,
    pub calls: u64,
    pub reads: u64,
    pub writes: u64,
    pub fail_at: Option<u64>,
    pub fail_after: bool,
    pub fired: bool,
    pub budget: Option<u64>,
    /// order in which lists are returned
    pub order: Option<u64>,
    pub log: Vec<String>,
    pub logging: bool,
}

#[derive(Debug)]
pub struct MemError(pub String);
impl std::fmt::Display for MemError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for MemError {}
impl StorageError for MemError {}

#[derive(Clone)]
pub struct MemStorage(pub Rc<RefCell<StoreCtl>>);

pub const BUDGET: &str = "VERIF-ACCESS-BUDGET-EXCEEDED";
pub const INJECTED: &str = "injected storage failure";

fn pks(p: &PK) -> String {
    hex(&{
        let k: &PublicKey = p.as_ref();
        let id = pk_id(k);
        let mut v = vec![id.0];
        v.extend(id.1);
        v
    })
}

impl MemStorage {
    fn call<X>(&self, what: &str, write: bool, f: impl FnOnce(&mut StoreCtl) -> X) -> Result<X, MemError> {
        let mut c = self.0.borrow_mut();
        c.calls += 1;
        if write {
            c.writes += 1;
        } else {
            c.reads += 1;
        }
        if c.logging {
            c.log.push(what.to_string());
        }
        if c.budget.map_or(false, |b| c.calls > b) {
            drop(c);
            panic!("{BUDGET}");
        }
        if c.fail_at == Some(c.calls) {
            c.fired = true;
            if c.fail_after {
                f(&mut c);
            }
            return Err(MemError(INJECTED.into()));
        }
        Ok(f(&mut c))
    }
}

fn shuffled<X>(mut v: Vec<X>, c: &StoreCtl) -> Vec<X> {
    if let Some(o) = c.order {
        Rng::new(mix(o, c.calls)).shuffle(&mut v);
    }
    v
}

impl StoreCtl {
    /// put a relation in place, outside of any monitored call
    pub fn put(&mut self, r: TrustRelation) {
        let k = (pks(r.issued_for().as_ref()), pks(r.issued_by().as_ref()));
        self.mem.rel.insert(k, r);
    }
    fn update(&mut self, r: TrustRelation) {
        let k = (pks(r.issued_for().as_ref()), pks(r.issued_by().as_ref()));
        match self.mem.rel.get(&k) {
            Some(o) if o.issued_at() >= r.issued_at() => {}
            _ => {
                self.mem.rel.insert(k, r);
            }
        }
    }
}

impl Storage for MemStorage {
    type Error = MemError;
    fn get_relation(&self, issued_for: &PK, issued_by: &PK) -> Result<Option<TrustRelation>, MemError> {
        self.call("get_relation", false, |c| c.mem.rel.get(&(pks(issued_for), pks(issued_by))).cloned())
    }
    fn get_authorizations(&self, issued_for: &PK) -> Result<Vec<Auth>, MemError> {
        let p = pks(issued_for);
        self.call("get_authorizations", false, |c| {
            let v = c.mem.rel.range((p.clone(), String::new())..).take_while(|(k, _)| k.0 == p).filter_map(|(_, r)| match r {
                TrustRelation::Auth(a) => Some(a.clone()),
                _ => None,
            }).collect();
            shuffled(v, c)
        })
    }
    fn get_revocations(&self, issued_for: &PK) -> Result<Vec<Revocation>, MemError> {
        let p = pks(issued_for);
        self.call("get_revocations", false, |c| {
            let v = c.mem.rel.range((p.clone(), String::new())..).take_while(|(k, _)| k.0 == p).filter_map(|(_, r)| match r {
                TrustRelation::Revocation(r) => Some(r.clone()),
                _ => None,
            }).collect();
            shuffled(v, c)
        })
    }
    fn insert(&mut self, node: TrustRelation) -> Result<(), MemError> {
        self.call("insert", true, |c| {
            let k = (pks(node.issued_for().as_ref()), pks(node.issued_by().as_ref()));
            c.mem.rel.insert(k, node);
        })
    }
    fn get_root_weight_factor(&self, pk: &PK) -> Result<Option<WeightFactor>, MemError> {
        self.call("get_root_weight_factor", false, |c| c.mem.roots.get(&pks(pk)).map(|r| r.1))
    }
    fn set_root_weight_factor(&mut self, pk: PK, w: WeightFactor) -> Result<(), MemError> {
        self.call("set_root_weight_factor", true, |c| {
            c.mem.roots.insert(pks(&pk), (pk, w));
        })
    }
    fn root_keys(&self) -> Result<Vec<PK>, MemError> {
        self.call("root_keys", false, |c| {
            let v = c.mem.roots.values().map(|r| r.0.clone()).collect();
            shuffled(v, c)
        })
    }
    fn revoke(&mut self, revocation: Revocation) -> Result<(), MemError> {
        self.call("revoke", true, |c| c.update(TrustRelation::Revocation(revocation)))
    }
    fn update_auth(&mut self, auth: Auth, _cur_time: Duration) -> Result<(), MemError> {
        self.call("update_auth", true, |c| c.update(TrustRelation::Auth(auth)))
    }
    fn remove_expired(&mut self, now: Duration) -> Result<(), MemError> {
        self.call("remove_expired", true, |c| c.mem.rel.retain(|_, r| !matches!(r, TrustRelation::Auth(a) if a.trust.expires_at <= now)))
    }
}

// ---------------------------------------------------------------- the service process

pub struct Svc {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    pub db: String,
    svcd: String,
    pub dead: bool,
    /// accesses of the last call
    pub last_calls: u64,
    pub last_system_calls: u64,
    pub last_prepared: u64,
    pub last_fired: bool,
    pub last_log: Vec<String>,
    /// for the next call only
    pub fault: Option<(u64, &'static str, i32)>,
    pub budget: Option<u64>,
    pub want_log: bool,
    pub asked: u64,
}

fn spawn(svcd: &str, db: &str) -> (Child, ChildStdin, BufReader<ChildStdout>) {
    let mut c = Command::new(svcd).arg(db).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("svcd");
    let i = c.stdin.take().unwrap();
    let o = BufReader::new(c.stdout.take().unwrap());
    (c, i, o)
}

impl Svc {
    /// a service process on `db`; its start-up code has not run yet
    pub fn raw(svcd: &str, db: &str) -> Svc {
        let (child, inp, out) = spawn(svcd, db);
        Svc { child, inp, out, db: db.into(), svcd: svcd.into(), dead: false, last_calls: 0, last_system_calls: 0, last_prepared: 0, last_fired: false, last_log: vec![], fault: None, budget: None, want_log: false, asked: 0 }
    }
    pub fn start(svcd: &str, db: &str) -> Svc {
        let mut s = Svc::raw(svcd, db);
        let r = s.call("main", json!([]), None);
        assert!(matches!(r, Out::Ok(_)), "service does not start: {r:?}");
        s
    }
    pub fn respawn(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let (c, i, o) = spawn(&self.svcd, &self.db);
        self.child = c;
        self.inp = i;
        self.out = o;
        self.dead = false;
    }
    pub fn stop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        self.dead = true;
    }
    /// start-up of a restarted service
    pub fn restart(&mut self) -> Out<Value> {
        self.respawn();
        self.call("main", json!([]), None)
    }
    pub fn call(&mut self, f: &str, args: Value, cp: Option<Value>) -> Out<Value> {
        match self.call_checked(f, args, cp) {
            Out::Err(b) => panic!("harness called {f} wrongly: {b}"),
            o => o,
        }
    }
    /// as `call`, but a call that does not fit the service's exports is an error
    pub fn call_checked(&mut self, f: &str, args: Value, cp: Option<Value>) -> Out<Value> {
        let mut req = json!({"f": f, "args": args});
        if let Some(cp) = cp {
            req["cp"] = cp;
        }
        if let Some((at, kind, code)) = self.fault.take() {
            req["fault"] = json!({"at": at, "kind": kind, "code": code});
        }
        if let Some(b) = self.budget {
            req["budget"] = json!(b);
        }
        if self.want_log {
            req["log"] = json!(true);
        }
        let mut s = serde_json::to_string(&req).unwrap();
        s.push('\n');
        let mut line = String::new();
        if self.inp.write_all(s.as_bytes()).and_then(|_| self.inp.flush()).is_err() || self.out.read_line(&mut line).unwrap_or(0) == 0 {
            self.dead = true;
            let st = self.child.wait().expect("wait for svcd");
            use std::os::unix::process::ExitStatusExt;
            return Out::Dead(st.code().unwrap_or_else(|| -st.signal().unwrap_or(999)));
        }
        let v: Value = serde_json::from_str(&line).expect("svcd reply");
        self.last_calls = v["calls"].as_u64().unwrap_or(0);
        self.last_system_calls = v["system_calls"].as_u64().unwrap_or(0);
        self.last_prepared = v["prepared"].as_u64().unwrap_or(0);
        self.last_fired = v["fired"] == true;
        self.last_log = v["log"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default();
        if let Some(p) = v.get("panic") {
            return Out::Panic(p.as_str().unwrap_or("").into());
        }
        if let Some(b) = v.get("bad") {
            return Out::Err(b.to_string());
        }
        Out::Ok(v["ok"].clone())
    }
}

impl Drop for Svc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

// ---------------------------------------------------------------- subjects

pub enum Kind {
    Core { tg: TrustGraph<MemStorage>, store: MemStorage },
    Svc(Box<Svc>),
}

pub struct Subject {
    pub kind: Kind,
    pub host: Id,
}

/// where the current time comes from: the provenance record of the host's clock
pub fn clock(host: &str) -> Value {
    json!([{"peer_pk": host, "service_id": "peer", "function_name": "timestamp_sec", "json_path": ""}])
}
pub fn literal(who: &str) -> Value {
    json!([{"peer_pk": who, "service_id": "", "function_name": "", "json_path": ""}])
}

/// which argument of each call is the current time
pub fn time_arg(f: &str) -> Option<usize> {
    Some(match f {
        "insert_cert_raw" | "insert_cert" | "get_all_certs" | "get_weight" | "revoke" | "get_host_certs_from" => 1,
        "get_all_certs_from" | "get_weight_from" | "verify_trust" | "add_trust" => 2,
        "get_host_certs" => 0,
        _ => return None,
    })
}

pub const OWNER: &str = "12D3KooWOwnerOwnerOwnerOwnerOwnerOwnerOwnerOwnerOwn";

pub fn call_params(w: &World, host: Id, init: &str, owner: &str, f: &str, nargs: usize) -> Value {
    let tet: Vec<Value> = (0..nargs).map(|i| if Some(i) == time_arg(f) { clock(&w.peers[host]) } else { literal(init) }).collect();
    json!({"init_peer_id": init, "service_id": "trust-graph", "service_creator_peer_id": owner, "host_id": w.peers[host], "particle_id": "p", "tetraplets": tet})
}

pub fn new_core(order: Option<u64>) -> Subject {
    let store = MemStorage(Rc::new(RefCell::new(StoreCtl { order, ..Default::default() })));
    Subject { kind: Kind::Core { tg: TrustGraph::new(store.clone()), store }, host: 0 }
}

pub fn new_svc(svcd: &str, db: &str) -> Subject {
    Subject { kind: Kind::Svc(Box::new(Svc::start(svcd, db))), host: 0 }
}

pub fn parse_cert(w: &World, c: &Value) -> Cert {
    c["chain"].as_array().expect("chain").iter().map(|t| Link {
        for_: w.peer(t["issued_for"].as_str().unwrap()).ok_or_else(|| t["issued_for"].to_string()),
        exp: t["expires_at"].as_u64().unwrap(),
        iat: t["issued_at"].as_u64().unwrap(),
        sig: bs58::decode(t["signature"].as_str().unwrap()).into_vec().unwrap_or_default(),
        sig_type: t["sig_type"].as_str().unwrap().to_string(),
    }).collect()
}

fn from_cert(w: &World, c: &Certificate) -> Cert {
    c.chain.iter().map(|t| Link {
        for_: w.id(&t.issued_for).ok_or_else(|| hex(&t.issued_for.encode())),
        exp: t.expires_at.as_secs(),
        iat: t.issued_at.as_secs(),
        sig: t.signature.to_vec().to_vec(),
        sig_type: fmt_name(t.signature.get_signature_type()).into(),
    }).collect()
}

fn wrap<X, E: std::fmt::Display>(r: Result<Result<X, E>, String>) -> Out<X> {
    match r {
        Ok(Ok(x)) => Out::Ok(x),
        Ok(Err(e)) => Out::Err(e.to_string()),
        Err(p) => Out::Panic(p),
    }
}

/// a service result: success or error text
fn result(o: Out<Value>) -> Out<Value> {
    match o {
        Out::Ok(v) => {
            if v["success"] == true {
                Out::Ok(v)
            } else {
                Out::Err(v["error"].as_str().unwrap_or("").to_string())
            }
        }
        o => o,
    }
}

impl Subject {
    pub fn svc(&mut self) -> &mut Svc {
        match &mut self.kind {
            Kind::Svc(s) => s,
            _ => panic!("not a service"),
        }
    }
    pub fn store(&self) -> &MemStorage {
        match &self.kind {
            Kind::Core { store, .. } => store,
            _ => panic!("not the library"),
        }
    }
    pub fn is_svc(&self) -> bool {
        matches!(self.kind, Kind::Svc(_))
    }
    pub fn name(&self) -> &'static str {
        if self.is_svc() {
            "service"
        } else {
            "library"
        }
    }
    /// a call with honest parameters
    pub fn svc_call(&mut self, w: &World, f: &str, args: Value) -> Out<Value> {
        let n = args.as_array().unwrap().len();
        // who asks, and who owns the service, must not matter (but for set_root)
        let host = self.host;
        let svc = self.svc();
        svc.asked = mix(svc.asked, str_hash(f));
        let x = svc.asked as usize;
        let owner = if x % 3 == 0 { w.peers[(x >> 8) % w.n()].clone() } else { OWNER.to_string() };
        let init = match (x >> 4) % 5 {
            _ if f == "set_root" => owner.clone(),
            0 => owner.clone(),
            1 => w.peers[host].clone(),
            _ => w.peers[(x >> 20) % w.n()].clone(),
        };
        let cp = call_params(w, host, &init, &owner, f, n);
        svc.call(f, args, Some(cp))
    }
    pub fn set_root(&mut self, w: &World, k: Id, max: u32) -> Out<()> {
        match &mut self.kind {
            Kind::Core { tg, .. } => wrap(guard(|| tg.set_root(w.pks[k].clone(), max))),
            _ => result(self.svc_call(w, "set_root", json!([w.peers[k], max]))).map(|_| ()),
        }
    }
    pub fn add_trust(&mut self, w: &World, t: &T, now: u64) -> Out<u32> {
        self.add_trust_as(w, t, t.by, now)
    }
    /// offer a trust as issued by somebody
    pub fn add_trust_as(&mut self, w: &World, t: &T, by: Id, now: u64) -> Out<u32> {
        match &mut self.kind {
            Kind::Core { tg, .. } => {
                let t = w.to_trust(t);
                wrap(guard(|| tg.add_trust(&t, &w.pks[by], secs(now))))
            }
            _ => result(self.svc_call(w, "add_trust", json!([w.trust_dto(t), w.peers[by], now]))).map(|v| v["weight"].as_u64().unwrap() as u32),
        }
    }
    pub fn add_cert(&mut self, w: &World, c: &[T], now: u64, raw: bool) -> Out<()> {
        match &mut self.kind {
            Kind::Core { tg, .. } => {
                let c = Certificate::new_unverified(c.iter().map(|t| w.to_trust(t)).collect());
                wrap(guard(|| tg.add(&c, secs(now))))
            }
            _ if raw => result(self.svc_call(w, "insert_cert_raw", json!([w.cert_text(c), now]))).map(|_| ()),
            _ => result(self.svc_call(w, "insert_cert", json!([{"chain": c.iter().map(|t| w.trust_dto(t)).collect::<Vec<_>>()}, now]))).map(|_| ()),
        }
    }
    pub fn revoke(&mut self, w: &World, r: &R, now: u64) -> Out<()> {
        match &mut self.kind {
            Kind::Core { tg, .. } => {
                let r = w.to_rev(r);
                wrap(guard(|| tg.revoke(r)))
            }
            _ => result(self.svc_call(w, "revoke", json!([w.rev_dto(r), now]))).map(|_| ()),
        }
    }
    pub fn weight(&mut self, w: &World, k: Id, now: u64) -> Out<u32> {
        match &mut self.kind {
            Kind::Core { tg, .. } => wrap(guard(|| tg.weight(&w.pks[k], secs(now)))),
            _ => result(self.svc_call(w, "get_weight", json!([w.peers[k], now]))).map(|v| v["weight"].as_u64().unwrap() as u32),
        }
    }
    pub fn weight_from(&mut self, w: &World, k: Id, issuer: Id, now: u64) -> Out<u32> {
        match &mut self.kind {
            Kind::Core { tg, .. } => wrap(guard(|| tg.weight_from(&w.pks[k], &w.pks[issuer], secs(now)))),
            _ => result(self.svc_call(w, "get_weight_from", json!([w.peers[k], w.peers[issuer], now]))).map(|v| v["weight"].as_u64().unwrap() as u32),
        }
    }
    pub fn certs(&mut self, w: &World, k: Id, now: u64) -> Out<Vec<Cert>> {
        match &mut self.kind {
            Kind::Core { tg, .. } => wrap(guard(|| tg.get_all_certs(&w.pks[k], secs(now)))).map(|v| v.iter().map(|c| from_cert(w, c)).collect()),
            _ => result(self.svc_call(w, "get_all_certs", json!([w.peers[k], now]))).map(|v| certs_of(w, &v)),
        }
    }
    /// what each certificate of a key is worth on its own (library only)
    pub fn cert_worths(&mut self, w: &World, k: Id, now: u64) -> Vec<(Cert, Out<Option<u32>>)> {
        match &mut self.kind {
            Kind::Core { tg, .. } => match wrap(guard(|| tg.get_all_certs(&w.pks[k], secs(now)))) {
                Out::Ok(v) => v.iter().map(|c| (from_cert(w, c), wrap(guard(|| tg.certificates_weight_factor([c]))))).collect(),
                _ => vec![],
            },
            _ => vec![],
        }
    }
    pub fn certs_from(&mut self, w: &World, k: Id, issuer: Id, now: u64) -> Out<Vec<Cert>> {
        match &mut self.kind {
            Kind::Core { tg, .. } => wrap(guard(|| tg.get_all_certs_from(&w.pks[k], &w.pks[issuer], secs(now)))).map(|v| v.iter().map(|c| from_cert(w, c)).collect()),
            _ => result(self.svc_call(w, "get_all_certs_from", json!([w.peers[k], w.peers[issuer], now]))).map(|v| certs_of(w, &v)),
        }
    }
    pub fn host_certs(&mut self, w: &World, host: Id, issuer: Option<Id>, now: u64) -> Out<Vec<Cert>> {
        let old = self.host;
        self.host = host;
        let r = match issuer {
            None => self.svc_call(w, "get_host_certs", json!([now])),
            Some(i) => self.svc_call(w, "get_host_certs_from", json!([w.peers[i], now])),
        };
        self.host = old;
        result(r).map(|v| certs_of(w, &v))
    }
    pub fn revocations(&mut self, w: &World, k: Id) -> Out<Vec<R>> {
        let bad = |s: String| -> Id {
            let _ = s;
            usize::MAX
        };
        match &mut self.kind {
            Kind::Core { tg, .. } => wrap(guard(|| tg.get_revocations(&w.pks[k]))).map(|v| {
                v.iter().map(|r| R { by: w.id(&r.revoked_by).unwrap_or(usize::MAX), for_: w.id(&r.pk).unwrap_or(usize::MAX), at: r.revoked_at.as_secs(), sig: r.signature.to_vec().to_vec() }).collect()
            }),
            _ => result(self.svc_call(w, "export_revocations", json!([w.peers[k]]))).map(|v| {
                v["revocations"].as_array().unwrap().iter().map(|r| R {
                    by: w.peer(r["revoked_by"].as_str().unwrap()).unwrap_or_else(|| bad(r["revoked_by"].to_string())),
                    for_: w.peer(r["revoked_peer_id"].as_str().unwrap()).unwrap_or(usize::MAX),
                    at: r["revoked_at"].as_u64().unwrap(),
                    sig: bs58::decode(r["signature"].as_str().unwrap()).into_vec().unwrap_or_default(),
                }).collect()
            }),
        }
    }
    /// limit the accesses of every following call (`None`: no limit)
    pub fn budget(&mut self, b: Option<u64>) {
        match &mut self.kind {
            Kind::Core { store, .. } => {
                let mut c = store.0.borrow_mut();
                c.calls = 0;
                c.reads = 0;
                c.writes = 0;
                c.budget = b;
            }
            Kind::Svc(s) => s.budget = b.map(|b| b * 40),
        }
    }
}

pub fn certs_of(w: &World, v: &Value) -> Vec<Cert> {
    v["certificates"].as_array().unwrap().iter().map(|c| parse_cert(w, c)).collect()
}
