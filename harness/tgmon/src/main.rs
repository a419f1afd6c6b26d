//! Runtime monitors for fluencelabs/trust-graph: drives the real code with
//! generated, hostile and fault-injected workloads and judges what it does.
mod alloc;
mod aqua;
mod air;
mod aquarun;
mod props_a;
mod common;
mod hist;
mod model;
mod props_g;
mod props_k;
mod props_n;
mod props_s;
mod props_t;
mod subject;

use common::*;
use serde_json::{json, Value};
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Monitor = alloc::Monitor;

struct Entry {
    id: &'static str,
    level: &'static str,
    rule: &'static str,
    run: fn(&Ctx, &Only) -> Report,
}

include!("registry.rs");

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

fn known(path: &str, property: &str) -> Vec<Value> {
    let t = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("known findings {path}: {e}"));
    let v: Value = serde_json::from_str(&t).expect("known findings file");
    v["findings"].as_array().expect("findings").iter().filter(|f| f["property"] == property && f["status"] == "known").cloned().collect()
}

fn main() {
    install_panic_hook();
    if let Some(n) = arg("--generate") {
        return props_k::generate(n.parse().expect("number"));
    }
    let started = Instant::now();
    let mut property = arg("--property").unwrap_or_default();
    let mut seed: u64 = arg("--seed").map(|s| s.parse().expect("seed")).unwrap_or(1);
    let mut thorough = arg("--tier").as_deref() == Some("thorough");
    let mut only: Only = None;
    if let Some(f) = arg("--replay") {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&f).expect("replay file")).expect("replay file");
        property = v["property"].as_str().unwrap().to_string();
        seed = v["seed"].as_u64().unwrap();
        thorough = v["tier"] == "thorough";
        only = Some((v["workload"].as_str().unwrap().to_string(), v["case"].as_u64().unwrap()));
    }
    let e = REGISTRY.iter().find(|e| e.id == property).unwrap_or_else(|| panic!("no such property {property}"));
    let findings = arg("--known").map(|k| known(&k, &property)).unwrap_or_default();
    KNOWN.set(findings.iter().map(|f| f["signature"].as_str().unwrap().to_string()).collect()).unwrap();
    let limit: u64 = arg("--limit").map(|s| s.parse().expect("limit")).unwrap_or(if thorough { 3000 } else { 240 });
    let ctx = Ctx {
        property: property.clone(),
        thorough,
        seed,
        svcd: arg("--svcd"),
        scratch: arg("--scratch").unwrap_or_else(|| "/tmp".into()),
        deadline: started + Duration::from_secs(limit),
        repo: arg("--repo").unwrap_or_else(|| "/repo".into()),
        asan: cfg!(sanitize_address_build),
        distro: arg("--distro"),
    };
    let tier = if thorough { "thorough" } else { "quick" };
    if !ctx.asan {
        let (property, dir) = (property.clone(), arg("--replays").unwrap_or_else(|| ctx.scratch.clone()));
        watchdog(thorough, move |what, workload, case| {
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{dir}/{property}-{tier}-{seed}-w.json");
            let r = json!({"property": property, "tier": tier, "seed": seed, "signature": what, "workload": workload, "case": case, "detail": {}});
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap() + "\n");
            println!("VIOLATION property={property} replay={path}");
            println!("  {what}: {workload} case {case}");
            std::process::exit(1);
        });
    }
    let rep = (e.run)(&ctx, &only);
    let mut status = 0;
    for f in &findings {
        let sig = f["signature"].as_str().unwrap();
        let n = rep.known_hits.get(sig).copied().unwrap_or(0);
        if n > 0 {
            println!("KNOWN-FINDING: property={property} {sig}");
        }
    }
    if let Some(out) = arg("--out") {
        let ev = json!({
            "property": property,
            "tier": tier,
            "seed": seed,
            "level": e.level,
            "coverage": {
                "evaluations": rep.evaluations,
                "distinct_nontrivial": rep.distinct.len(),
                "rule": e.rule,
                "samples": rep.samples,
                "observed": rep.counters,
                "known_finding_hits": rep.known_hits,
            },
            "assumptions": ASSUMPTIONS,
            "wall_s": started.elapsed().as_secs_f64(),
            "violations": rep.violations.len(),
        });
        std::fs::write(&out, serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("evidence file");
    }
    for (i, v) in rep.violations.iter().take(5).enumerate() {
        let dir = arg("--replays").unwrap_or_else(|| ctx.scratch.clone());
        std::fs::create_dir_all(&dir).expect("replay directory");
        let path = format!("{dir}/{property}-{tier}-{seed}-{i}.json");
        let r = json!({"property": property, "tier": tier, "seed": seed, "signature": v.signature, "workload": v.detail["workload"], "case": v.case, "detail": v.detail});
        std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap() + "\n").expect("replay file");
        println!("VIOLATION property={property} replay={path}");
        println!("  {}: {}", v.signature, serde_json::to_string(&v.detail).unwrap().chars().take(1500).collect::<String>());
        status = 1;
    }
    if status == 0 {
        if !rep.errors.is_empty() {
            for e in rep.errors.iter().take(5) {
                eprintln!("ERROR {e}");
            }
            status = 3;
        } else if rep.evaluations == 0 || rep.distinct.is_empty() {
            eprintln!("ERROR the monitors of {property} observed nothing");
            status = 4;
        }
    }
    println!(
        "{property} {tier} seed={seed}: {} evaluations, {} distinct, {} violations, {:.1}s",
        rep.evaluations,
        rep.distinct.len(),
        rep.violations.len(),
        started.elapsed().as_secs_f64()
    );
    std::process::exit(status);
}
