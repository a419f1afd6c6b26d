//! S09: the admin tool that makes the certificates of the builtin package, run
//! as it is (compiled with its own settings) over a network of service
//! processes. The client library, the list of networks and base58 are
//! stand-ins; its Aqua functions are executed by `aquarun`.
use crate::aquarun::*;
use crate::common::*;
use crate::props_a::Net;
use crate::props_g::*;
use crate::subject::*;
use fluence_keypair::{KeyFormat, PublicKey};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Command, Stdio};
use std::rc::Rc;
use std::time::Duration;

const TWO_YEARS: u64 = 60 * 60 * 24 * 365 * 2;

struct Tool {
    dir: String,
    sources: Vec<String>,
    /// generated module -> functions it exports
    modules: Vec<(String, Vec<String>)>,
}

fn fixtures() -> String {
    concat!(env!("CARGO_MANIFEST_DIR"), "/../fixtures/admin").to_string()
}

/// compile the tool and gather the Aqua it is built on
fn prepare(ctx: &Ctx) -> Result<Tool, String> {
    let dir = format!("{}/s09-tool", ctx.scratch);
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).map_err(|e| format!("{dir}: {e}"))?;
    let o = Command::new("node").arg(format!("{}/transpile.js", fixtures())).arg(format!("{}/admin", ctx.repo)).arg(&dir).output().map_err(|e| format!("node: {e}"))?;
    if !o.status.success() {
        return Err(format!("the tool does not compile: {}", String::from_utf8_lossy(&o.stderr).chars().take(400).collect::<String>()));
    }
    let mut sources: Vec<String> = vec![];
    let mut modules = vec![];
    let mut seen = BTreeSet::new();
    let mut todo: Vec<String> = vec![];
    let own = format!("{}/admin/aqua", ctx.repo);
    let mut names: Vec<_> = std::fs::read_dir(&own).map_err(|e| format!("{own}: {e}"))?.flatten().map(|e| e.path()).filter(|p| p.extension().map_or(false, |e| e == "aqua")).collect();
    names.sort();
    for n in names {
        let text = std::fs::read_to_string(&n).map_err(|e| e.to_string())?;
        let mut exports: Vec<String> = vec![];
        for l in text.lines() {
            let l = l.split("--").next().unwrap_or("").trim();
            if let Some(x) = l.strip_prefix("export ") {
                exports.extend(x.split(',').map(|f| f.trim().split(" as ").last().unwrap_or("").to_string()).filter(|f| !f.is_empty()));
            }
        }
        modules.push((n.file_stem().unwrap().to_string_lossy().to_string(), exports));
        todo.push(n.to_string_lossy().to_string());
    }
    while let Some(f) = todo.pop() {
        if !seen.insert(f.clone()) {
            continue;
        }
        let text = std::fs::read_to_string(&f).map_err(|e| format!("{f}: {e}"))?;
        for l in text.lines() {
            let l = l.trim();
            if l.starts_with("import ") || l.starts_with("use ") {
                let path = l.split('"').nth(1).unwrap_or("");
                if let Some(x) = path.strip_prefix("@fluencelabs/trust-graph/") {
                    todo.push(format!("{}/aqua/{x}", ctx.repo));
                } else if !path.starts_with('@') && !path.is_empty() {
                    let d = std::path::Path::new(&f).parent().unwrap().join(path);
                    todo.push(d.to_string_lossy().to_string());
                }
            }
        }
        // the tool's own functions come last: they hide imported ones of the same name
        if f.starts_with(&own) {
            sources.push(text);
        } else {
            sources.insert(0, text);
        }
    }
    Program::parse(&sources).map_err(|e| format!("Aqua sources: {e}"))?;
    Ok(Tool { dir, sources, modules })
}

#[derive(Clone, Debug, PartialEq)]
enum Fault {
    None,
    /// no or an unknown environment
    Environment,
    /// a key file is missing
    NoKey(usize),
    /// a key file holds no key
    BadKey(usize),
    /// the node cannot be reached
    NoNode,
    /// the n-th call of a service function is refused by the node
    Refused(String, u64),
    /// the n-th call fails altogether
    Broken(u64),
    /// a node that cannot be named in a trust
    BadPeer(usize),
    /// nowhere to write to
    NoDirectory,
}

/// passes calls on and lets one of them fail
struct Faulty<'a> {
    net: &'a mut Net,
    refuse: Option<(String, u64)>,
    hit: &'a mut bool,
}

impl Host for Faulty<'_> {
    fn call(&mut self, peer: &str, service: &str, function: &str, args: &[(Value, Value)]) -> Result<Value, String> {
        if let Some((f, n)) = &mut self.refuse {
            if f == function && service == "trust-graph" {
                if *n == 0 {
                    *self.hit = true;
                    self.net.broken = Some((None, function.to_string()));
                    let r = self.net.call(peer, service, function, args);
                    self.net.broken = None;
                    self.refuse = None;
                    return r;
                }
                *n -= 1;
            }
        }
        self.net.call(peer, service, function, args)
    }
}

fn clock(rng: &mut Rng) -> u64 {
    let most = if rng.chance(1, 4) { 1 << 34 } else { 1 << 31 };
    1_000_000 + rng.below(most) as u64
}

fn b58(b: &[u8]) -> String {
    bs58::encode(b).into_string()
}

pub fn s09(ctx: &Ctx, only: &Only) -> Report {
    let tool = match prepare(ctx) {
        Ok(t) => t,
        Err(e) => {
            let mut r = Report::default();
            r.eval(&0, true);
            r.count(&format!("not run: {e}"), 1);
            return r;
        }
    };
    let r = par_cases(ctx, "admin tool", ctx.n(400, 6000), only, |rep, rng, case| run_tool(ctx, rep, rng, case, &tool));
    let _ = std::fs::remove_dir_all(&tool.dir);
    r
}

fn run_tool(ctx: &Ctx, rep: &mut Report, rng: &mut Rng, case: u64, tool: &Tool) {
    let prog = Program::parse(&tool.sources).unwrap();
    // 0: root, 1: issuer, 2: example (these have key files), 3: client, then the nodes
    let many = match rng.below(8) {
        0 => 0,
        1 => 1,
        2 => 12 + rng.below(25),
        _ => 2 + rng.below(5),
    };
    let total = 4 + 6 + many;
    let mut i = 0;
    let keys = distinct_keys(total, rng, |r| {
        i += 1;
        if i > 4 && r.chance(1, 6) {
            KeyFormat::Secp256k1
        } else {
            KeyFormat::Ed25519
        }
    });
    let w = Rc::new(World::new(keys));
    if (0..4).any(|i| w.pks[i].get_key_format() != KeyFormat::Ed25519) {
        return;
    }
    let entry = |p: &str| json!({"peerId": p, "multiaddr": format!("/dns4/net.example/tcp/9000/wss/p2p/{p}")});
    let mut kras: Vec<String> = (10..10 + many).map(|i| w.peers[i].clone()).collect();
    let test: Vec<String> = (4..6 + rng.below(2)).map(|i| w.peers[i].clone()).collect();
    let stage: Vec<String> = (7..8 + rng.below(3)).map(|i| w.peers[i].clone()).collect();
    // the environment cannot be one without nodes
    let env = loop {
        let e = *rng.pick(&["krasnodar", "testnet", "stage", "local"]);
        if e != "krasnodar" || !kras.is_empty() {
            break e;
        }
    };
    let calls = 3 + many as u64;
    let mut fault = match rng.below(16) {
        0 => Fault::Environment,
        1 => Fault::NoKey(rng.below(3)),
        2 => Fault::BadKey(rng.below(3)),
        3 => Fault::NoNode,
        4 | 5 => Fault::Refused("get_trust_bytes".into(), rng.below(calls as usize) as u64),
        6 | 7 => Fault::Refused("issue_trust".into(), rng.below(calls as usize) as u64),
        8 => Fault::Broken(rng.below(2 * calls as usize + 1) as u64),
        9 if many > 1 => Fault::BadPeer(1 + rng.below(many - 1)),
        10 => Fault::NoDirectory,
        _ => Fault::None,
    };
    if let Fault::BadPeer(i) = fault {
        kras[i] = rng.pick(&["", "not a peer", "QmYyQSo1c1Ym7orWxLYvCrM2EmxFTANf8wXmmE7DWjhx5N", "12D3KooW"]).to_string();
    }
    rep.count(&format!("environment:{env}"), 1);
    // every node has a clock and a service of its own
    let mut net = Net { w: w.clone(), client: w.peers[3].clone(), nodes: BTreeMap::new(), clocks: BTreeMap::new(), signers: BTreeSet::new(), refusing: BTreeSet::new(), signatures: Default::default(), stub: None, broken: None, trouble: None };
    let mut dbs = vec![];
    let heads: Vec<String> = [kras.first(), test.first(), stage.first()].into_iter().flatten().cloned().collect();
    for (i, p) in heads.iter().enumerate() {
        let db = Db::new(ctx, &format!("s09-{i}"), case);
        net.nodes.insert(p.clone(), (Svc::start(svcd(ctx), &db.0), w.peers[0].clone()));
        net.clocks.insert(p.clone(), clock(rng));
        dbs.push(db);
    }
    let head = match env {
        "krasnodar" => kras.first().cloned(),
        "testnet" => test.first().cloned(),
        "stage" => stage.first().cloned(),
        _ => None,
    };
    // the place it runs in
    let top = Db::new(ctx, "s09-place", case);
    let place = format!("{}/x/y/repo", top.0);
    let admin = format!("{place}/admin");
    let gen = format!("{admin}/dist/generated");
    std::fs::create_dir_all(&gen).expect("scratch");
    fn copy(from: &std::path::Path, to: &std::path::Path) {
        for e in std::fs::read_dir(from).expect("scratch").flatten() {
            let t = to.join(e.file_name());
            if e.path().is_dir() {
                std::fs::create_dir_all(&t).expect("scratch");
                copy(&e.path(), &t);
            } else {
                std::fs::copy(e.path(), &t).expect("scratch");
            }
        }
    }
    copy(tool.dir.as_ref(), format!("{admin}/dist").as_ref());
    for (m, fs) in &tool.modules {
        std::fs::write(format!("{gen}/{m}.js"), format!("module.exports = require(\"tg-link\").functions({});\n", json!(fs))).expect("scratch");
    }
    let out = format!("{place}/builtin-package/on_start.json");
    let old = if rng.chance(2, 3) { Some(format!("{{\"certs\":[],\"before\":\"{}\"}}", "x".repeat(if rng.chance(1, 3) { 60_000 } else { 9 }))) } else { None };
    if fault != Fault::NoDirectory {
        std::fs::create_dir_all(format!("{place}/builtin-package")).expect("scratch");
        if let Some(o) = &old {
            std::fs::write(&out, o).expect("scratch");
        }
    }
    let files = [format!("{admin}/root_secret_key.ed25519"), format!("{admin}/issuer_secret_key.ed25519"), format!("{place}/example_secret_key.ed25519")];
    for (i, f) in files.iter().enumerate() {
        let text = b58(&w.keys[i].secret().expect("secret"));
        match &fault {
            Fault::NoKey(k) if *k == i => {}
            Fault::BadKey(k) if *k == i => {
                let t = match rng.below(4) {
                    0 => String::new(),
                    1 => text[..text.len() - 6].to_string(),
                    2 => format!("{text}0"),
                    _ => "no key at all".to_string(),
                };
                std::fs::write(f, t).expect("scratch");
            }
            _ => std::fs::write(f, text).expect("scratch"),
        }
    }
    let networks = json!({
        "krasnodar": kras.iter().map(|p| entry(p)).collect::<Vec<_>>(),
        "testNet": test.iter().map(|p| entry(p)).collect::<Vec<_>>(),
        "stage": stage.iter().map(|p| entry(p)).collect::<Vec<_>>(),
    });
    let mut cmd = Command::new("node");
    cmd.arg("dist/index.js").current_dir(&admin).env("TGMON_NETWORKS", networks.to_string()).env("NODE_PATH", format!("{}/modules", fixtures())).env_remove("NODE_OPTIONS");
    match &fault {
        Fault::Environment => {
            if let Some(a) = rng.pick(&[None, Some("kras"), Some("Testnet"), Some("prod")]) {
                cmd.arg(a);
            }
        }
        _ => {
            cmd.arg(env);
        }
    }
    let mut child = match cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn() {
        Ok(c) => c,
        Err(e) => {
            rep.count(&format!("not run: node: {e}"), 1);
            return;
        }
    };
    // serve it
    let pid = child.id() as i32;
    let mut stdout = child.stdout.take().unwrap();
    let drain = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = stdout.read_to_end(&mut v);
    });
    let over = std::sync::Arc::new(std::sync::atomic::AtomicU8::new(0));
    let late = over.clone();
    let guard_ = std::thread::spawn(move || {
        for _ in 0..900 {
            std::thread::sleep(Duration::from_millis(100));
            if late.load(std::sync::atomic::Ordering::SeqCst) == 1 {
                return;
            }
        }
        late.store(2, std::sync::atomic::Ordering::SeqCst);
        extern "C" {
            fn kill(pid: i32, sig: i32) -> i32;
        }
        unsafe { kill(pid, 9) };
    });
    let mut stdin = child.stdin.take().unwrap();
    let mut said: Vec<String> = vec![];
    let mut history: Vec<String> = vec![];
    let mut relay: Option<String> = None;
    let (mut first, mut last) = (None, 0);
    let mut made = 0u64;
    let mut hit = false;
    let mut trouble: Option<String> = None;
    let mut refuse = match &fault {
        Fault::Refused(f, n) => Some((f.clone(), *n)),
        _ => None,
    };
    let mut err = BufReader::new(child.stderr.take().unwrap());
    loop {
        let mut raw = vec![];
        match err.read_until(b'\n', &mut raw) {
            Ok(0) | Err(_) => break,
            _ => {}
        }
        let line = String::from_utf8_lossy(&raw).trim_end().to_string();
        let q: Value = match line.find('\u{1}').and_then(|i| serde_json::from_str(&line[i + 1..]).ok()) {
            Some(q) => q,
            None => {
                said.push(line);
                continue;
            }
        };
        let answer = if q["op"] == "start" {
            let r = q["relay"].as_str().unwrap_or("").to_string();
            let here = q["multiaddr"].as_str().map_or(false, |m| m.contains("/127.0.0.1/") && m.ends_with(&r));
            history.push(format!("connects to {r}"));
            let fits = match (&head, env) {
                (Some(h), _) => *h == r,
                (None, _) => here,
            };
            if fault == Fault::NoNode {
                hit = true;
                json!({"error": "the node cannot be reached"})
            } else {
                if !fits {
                    trouble = Some(format!("connects to {r}, not to the first node of {env}"));
                }
                if !net.nodes.contains_key(&r) {
                    let db = Db::new(ctx, "s09-local", case);
                    net.nodes.insert(r.clone(), (Svc::start(svcd(ctx), &db.0), w.peers[0].clone()));
                    net.clocks.insert(r.clone(), clock(rng));
                    dbs.push(db);
                }
                relay = Some(r);
                json!({"ok": w.peers[3]})
            }
        } else {
            let f = q["f"].as_str().unwrap_or("").to_string();
            let args: Vec<Value> = q["args"].as_array().cloned().unwrap_or_default();
            for c in net.clocks.values_mut() {
                *c += rng.below(3) as u64;
            }
            match relay.clone() {
                None => json!({"error": "not connected"}),
                Some(r) => {
                    let now = net.clocks[&r];
                    first.get_or_insert(now);
                    last = now;
                    history.push(format!("{f}({})", args.iter().map(|a| match a {
                        Value::Array(x) => format!("[{} values]", x.len()),
                        Value::String(p) => w.peer(p).map_or_else(|| a.to_string(), |i| format!("p{i}")),
                        a => a.to_string(),
                    }).collect::<Vec<_>>().join(", ")));
                    if fault == Fault::Broken(made) {
                        hit = true;
                        made += 1;
                        json!({"error": "the call timed out"})
                    } else {
                        made += 1;
                        let client = net.client.clone();
                        let mut host = Faulty { net: &mut net, refuse: refuse.take(), hit: &mut hit };
                        let a = {
                            let mut run = Run::new(&prog, &mut host, &client, &r);
                            let argv = args.iter().map(|a| V::lit(a.clone(), &client)).collect();
                            let got = run.function(&client, &f, argv);
                            rep.count("service calls made by the tool", run.calls);
                            match got {
                                Ok(v) if v.len() == 1 => json!({"ok": v[0].json()}),
                                Ok(v) => json!({"ok": v.iter().map(|x| x.json()).collect::<Vec<_>>()}),
                                Err(Stop::Fault(e)) => json!({"error": e}),
                                Err(Stop::Unsupported(e)) => {
                                    said.push(format!("unsupported: {e}"));
                                    over.store(3, std::sync::atomic::Ordering::SeqCst);
                                    json!({"error": e})
                                }
                            }
                        };
                        refuse = host.refuse.take();
                        a
                    }
                }
            }
        };
        if stdin.write_all((answer.to_string() + "\n").as_bytes()).is_err() {
            break;
        }
    }
    drop(stdin);
    let status = child.wait();
    let unsupported = over.load(std::sync::atomic::Ordering::SeqCst);
    if unsupported != 2 {
        over.store(1, std::sync::atomic::Ordering::SeqCst);
    }
    let _ = drain.join();
    if unsupported == 3 {
        rep.count(&format!("not run: {}", said.last().cloned().unwrap_or_default()), 1);
        return;
    }
    drop(guard_);
    // a fault that never came up is none
    if matches!(fault, Fault::Refused(..) | Fault::Broken(_) | Fault::NoNode) && !hit {
        fault = Fault::None;
    }
    rep.count(&format!("fault:{}", format!("{fault:?}").split('(').next().unwrap()), 1);
    let tell = |what: String| json!({"what": what, "environment": env, "fault": format!("{fault:?}"), "krasnodar": kras, "history": history.iter().rev().take(40).rev().collect::<Vec<_>>(), "printed": said.iter().take(6).collect::<Vec<_>>()});
    if unsupported == 2 {
        rep.check(&(case, "end"), false, "the tool does not finish", || tell(String::new()));
        return;
    }
    let good = status.map(|s| s.success()).unwrap_or(false);
    let now_there = std::fs::read_to_string(&out).ok();
    if let Some(t) = trouble {
        rep.check(&(case, "node"), false, "the tool asks the wrong node", || tell(t));
        return;
    }
    if fault != Fault::None {
        if !rep.check(&(case, "exit"), !good, "the tool reports success though a step failed", || tell(format!("file: {:?}", now_there.as_ref().map(|t| t.chars().take(600).collect::<String>())))) {
            return;
        }
        let before = if fault == Fault::NoDirectory { None } else { old };
        rep.check(&(case, "file"), now_there == before, "a failed run changes the certificates", || tell(format!("{:?} became {:?}", before, now_there.as_ref().map(|t| t.chars().take(600).collect::<String>()))));
        return;
    }
    if !rep.check(&(case, "exit"), good, "the tool fails though every step succeeds", || tell(String::new())) {
        return;
    }
    let doc: Value = now_there.as_deref().and_then(|t| serde_json::from_str(t).ok()).unwrap_or(Value::Null);
    let certs: Vec<Value> = doc["certs"].as_array().cloned().unwrap_or_default();
    rep.count("certificates written", certs.len() as u64);
    // who trusts whom
    let mut want: Vec<Vec<(usize, String)>> = vec![vec![(0, w.peers[0].clone()), (0, w.peers[2].clone())]];
    for p in &kras {
        want.push(vec![(0, w.peers[0].clone()), (0, w.peers[1].clone()), (1, p.clone())]);
    }
    if !rep.check(&(case, "count"), certs.len() == want.len(), "the tool writes other certificates", || tell(format!("{} certificates, should be {}", certs.len(), want.len()))) {
        return;
    }
    let (lo, hi) = (first.unwrap_or(0), last);
    let mut iats = BTreeSet::new();
    for (i, (c, e)) in certs.iter().zip(&want).enumerate() {
        let chain: Vec<Value> = c["chain"].as_array().cloned().unwrap_or_default();
        let subjects: Vec<String> = chain.iter().map(|t| t["issued_for"].as_str().unwrap_or("").to_string()).collect();
        let fits = subjects == e.iter().map(|x| x.1.clone()).collect::<Vec<_>>();
        if !rep.check(&(case, i, "subjects"), fits, "the tool writes other certificates", || tell(format!("certificate {i}: {c}"))) {
            return;
        }
        for (t, (by, for_)) in chain.iter().zip(e) {
            let (iat, exp) = (t["issued_at"].as_u64().unwrap_or(u64::MAX), t["expires_at"].as_u64().unwrap_or(0));
            iats.insert(iat);
            let times = iat >= lo && iat <= hi && exp == iat + TWO_YEARS;
            let pk: &PublicKey = &w.pks[*by];
            let sig = bs58::decode(t["signature"].as_str().unwrap_or("")).into_vec().unwrap_or_default();
            let for_pk = w.peer(for_).map(|i| w.pks[i].clone());
            let genuine = for_pk.map_or(false, |f| {
                let bytes = trust_graph::Trust::signature_bytes(&f, secs(exp), secs(iat));
                pk.verify(&bytes, &fluence_keypair::Signature::from_bytes(KeyFormat::Ed25519, sig.clone())).is_ok()
            });
            if !rep.check(&(case, i, for_), times && genuine, "the tool writes a wrong trust", || tell(format!("certificate {i}: {t} by p{by} with the clock at {lo}..{hi}: times {times}, signature {genuine}"))) {
                return;
            }
        }
    }
    // a node takes them all
    let db = Db::new(ctx, "s09-load", case);
    let (iat, iat0) = (*iats.iter().next_back().unwrap_or(&lo), *iats.iter().next().unwrap_or(&lo));
    let max = 2 + rng.below(8) as u32;
    let now = *rng.pick(&[iat, iat + 1, iat0 + TWO_YEARS - 1, iat + 1000]);
    let host = w.peers[3].clone();
    net.nodes.insert(host.clone(), (Svc::start(svcd(ctx), &db.0), host.clone()));
    net.clocks.insert(host.clone(), now);
    let fine = |v: &Result<Value, String>| matches!(v, Ok(v) if v["success"] == true);
    let r = net.direct(&host, "set_root", json!([w.peers[0], max]));
    if !fine(&r) {
        rep.count(&format!("not run: set_root {r:?}"), 1);
        return;
    }
    for (i, c) in certs.iter().enumerate() {
        let r = net.direct(&host, "insert_cert", json!([c, now]));
        rep.count("written certificates loaded", 1);
        if !rep.check(&(case, i, "load"), fine(&r), "a written certificate is refused", || tell(format!("certificate {i}: {r:?}"))) {
            return;
        }
    }
    for e in &want {
        let (_, p) = e.last().unwrap();
        let r = net.direct(&host, "get_weight", json!([p, now]));
        let wt = r.as_ref().ok().and_then(|v| v["weight"].as_u64());
        let should = 1u64 << (max as usize + 1 - e.len());
        if !rep.check(&(case, p, "weight"), wt == Some(should), "a written certificate gives the wrong weight", || tell(format!("{p}: {r:?}, should be {should}"))) {
            return;
        }
    }
    rep.sample(|| json!({"environment": env, "certificates": certs.len(), "history": history.iter().take(8).collect::<Vec<_>>()}));
}
