//! the service, called in this process; a new thread is a restarted service
#![allow(dead_code)]
use fluence_keypair::KeyPair;
use marine_rs_sdk::{CallParameters, SecurityTetraplet};
pub use serde_json::{json, Value};
use std::time::Duration;

macro_rules! exports {
    ($($name:ident => $sym:ident),* $(,)?) => {
        extern "Rust" { $( fn $sym(args: Vec<Value>) -> Result<String, String>; )* }
        fn raw(name: &str, a: Vec<Value>) -> Result<String, String> {
            match name { $( stringify!($name) => unsafe { $sym(a) }, )* _ => panic!("no {name}") }
        }
    };
}
exports! {
    set_root => __marine_export_set_root, insert_cert_raw => __marine_export_insert_cert_raw,
    insert_cert => __marine_export_insert_cert, get_all_certs => __marine_export_get_all_certs,
    get_all_certs_from => __marine_export_get_all_certs_from, get_host_certs => __marine_export_get_host_certs,
    get_host_certs_from => __marine_export_get_host_certs_from, get_weight => __marine_export_get_weight,
    get_weight_from => __marine_export_get_weight_from, get_trust_bytes => __marine_export_get_trust_bytes,
    issue_trust => __marine_export_issue_trust, verify_trust => __marine_export_verify_trust,
    add_trust => __marine_export_add_trust, get_revocation_bytes => __marine_export_get_revocation_bytes,
    issue_revocation => __marine_export_issue_revocation, revoke => __marine_export_revoke,
    export_revocations => __marine_export_export_revocations,
}

pub const HOST: &str = "12D3KooWHCJbJKGDfCgHSoCuK9q4STyRnVveqLoXAPBbXHTZx9Cv";

pub fn tet(p: &str, s: &str, f: &str) -> Vec<SecurityTetraplet> {
    vec![SecurityTetraplet::new(p, s, f, "")]
}

/// parameters of a call by the owner whose `n` arguments all come from the host's clock
pub fn cp(n: usize) -> CallParameters {
    CallParameters {
        init_peer_id: HOST.into(),
        service_id: "trust-graph".into(),
        service_creator_peer_id: HOST.into(),
        host_id: HOST.into(),
        particle_id: "p".into(),
        tetraplets: (0..n).map(|_| tet(HOST, "peer", "timestamp_sec")).collect(),
    }
}

pub fn with(p: CallParameters, f: &str, a: Value) -> Value {
    marine_rs_sdk::__set_call_parameters(p);
    serde_json::from_str(&raw(f, a.as_array().unwrap().clone()).expect("call")).unwrap()
}

pub fn call(f: &str, a: Value) -> Value {
    with(cp(a.as_array().unwrap().len()), f, a)
}

/// open (or reopen, in a new thread) the service with its database in this directory
pub fn start(db: &str) {
    std::fs::create_dir_all(db).unwrap();
    marine_sqlite_connector::control::set_path(db);
    svc_lib::main();
}

pub fn peer(k: &KeyPair) -> String {
    k.get_peer_id().to_base58()
}

pub fn trust(by: &KeyPair, for_: &KeyPair, exp: u64, iat: u64) -> Value {
    let t = trust_graph::Trust::create(by, for_.public(), Duration::from_secs(exp), Duration::from_secs(iat));
    json!({"issued_for": peer(for_), "expires_at": exp, "issued_at": iat,
        "signature": bs58::encode(t.signature.to_vec()).into_string(),
        "sig_type": String::from(by.key_format())})
}

pub fn revocation(by: &KeyPair, pk: &KeyPair, at: u64) -> Value {
    let r = trust_graph::Revocation::create(by, pk.public(), Duration::from_secs(at));
    json!({"revoked_peer_id": peer(pk), "revoked_at": at, "revoked_by": peer(by),
        "signature": bs58::encode(r.signature.to_vec()).into_string(),
        "sig_type": String::from(by.key_format())})
}

pub fn add(by: &KeyPair, for_: &KeyPair, exp: u64, iat: u64, now: u64) -> Value {
    call("add_trust", json!([trust(by, for_, exp, iat), peer(by), now]))
}

pub fn root(k: &KeyPair, n: u32) -> Value {
    call("set_root", json!([peer(k), n]))
}

pub fn certs(k: &KeyPair, now: u64) -> usize {
    call("get_all_certs", json!([peer(k), now]))["certificates"].as_array().unwrap().len()
}

pub fn weight(k: &KeyPair, now: u64) -> u64 {
    call("get_weight", json!([peer(k), now]))["weight"].as_u64().unwrap()
}
