//! One instance of the trust-graph service as a process of its own, driven over
//! stdin/stdout (one JSON request and one JSON reply per line). Restarting the
//! service is starting this process again on the same directory.
#![feature(linkage)]
use marine_rs_sdk::CallParameters;
use marine_sqlite_connector::control::{self, Fault, FaultKind};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::io::{BufRead, Write};

#[derive(Deserialize)]
struct FaultReq {
    at: u64,
    kind: String,
    code: i32,
}

#[derive(Deserialize)]
struct Req {
    f: String,
    #[serde(default)]
    args: Vec<Value>,
    #[serde(default)]
    cp: Option<CallParameters>,
    #[serde(default)]
    fault: Option<FaultReq>,
    #[serde(default)]
    budget: Option<u64>,
    #[serde(default)]
    log: bool,
}

#[derive(Serialize)]
struct Rep {
    /// result of the call
    #[serde(skip_serializing_if = "Option::is_none")]
    ok: Option<Value>,
    /// the call could not even be made (arguments do not match the interface)
    #[serde(skip_serializing_if = "Option::is_none")]
    bad: Option<String>,
    /// the call panicked
    #[serde(skip_serializing_if = "Option::is_none")]
    panic: Option<String>,
    calls: u64,
    system_calls: u64,
    prepared: u64,
    steps: u64,
    fired: bool,
    log: Vec<String>,
}

type Export = fn(Vec<Value>) -> Result<String, String>;

// a call the service does not export (any more) is missing, not a link error;
// svc-lib is one codegen unit, so that its symbols come all or none

macro_rules! exports {
    ($($name:ident => $sym:ident),* $(,)?) => {
        extern "Rust" { $( #[linkage = "extern_weak"] static $sym: Option<Export>; )* }
        fn lookup(name: &str) -> Option<Export> {
            match name {
                $( stringify!($name) => unsafe { $sym }, )*
                _ => None,
            }
        }
    };
}
exports! {
    set_root => __marine_export_set_root,
    insert_cert_raw => __marine_export_insert_cert_raw,
    insert_cert => __marine_export_insert_cert,
    get_all_certs => __marine_export_get_all_certs,
    get_all_certs_from => __marine_export_get_all_certs_from,
    get_host_certs => __marine_export_get_host_certs,
    get_host_certs_from => __marine_export_get_host_certs_from,
    get_weight => __marine_export_get_weight,
    get_weight_from => __marine_export_get_weight_from,
    get_trust_bytes => __marine_export_get_trust_bytes,
    issue_trust => __marine_export_issue_trust,
    verify_trust => __marine_export_verify_trust,
    add_trust => __marine_export_add_trust,
    get_revocation_bytes => __marine_export_get_revocation_bytes,
    issue_revocation => __marine_export_issue_revocation,
    revoke => __marine_export_revoke,
    export_revocations => __marine_export_export_revocations,
}

fn kind(s: &str) -> FaultKind {
    match s {
        "fail_before" => FaultKind::FailBefore,
        "fail_after" => FaultKind::FailAfter,
        "crash_before" => FaultKind::CrashBefore,
        "crash_after" => FaultKind::CrashAfter,
        "system_call" => FaultKind::SystemCall,
        "torn_write" => FaultKind::TornWrite,
        _ => panic!("unknown fault kind {s}"),
    }
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".to_string()
    }
}

extern "C" {
    fn getppid() -> i32;
}

/// ends this process when the monitor that started it is gone
fn follow_parent() {
    let parent = unsafe { getppid() };
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        if unsafe { getppid() } != parent {
            std::process::exit(3);
        }
    });
}

fn main() {
    follow_parent();
    let db = std::env::args().nth(1).expect("usage: svcd <directory for its database>");
    control::set_path(&db);
    std::panic::set_hook(Box::new(|info| {
        let msg = info.to_string();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(msg));
    }));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = match line {
            Ok(l) => l,
            Err(_) => break,
        };
        let req: Req = match serde_json::from_str(&line) {
            Ok(r) => r,
            Err(e) => {
                eprintln!("svcd: bad request {e}: {line}");
                std::process::exit(3);
            }
        };
        let fault = req.fault.map(|f| Fault { at: f.at, kind: kind(&f.kind), code: f.code });
        control::arm(fault, req.budget, req.log);
        if let Some(cp) = req.cp {
            marine_rs_sdk::__set_call_parameters(cp);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = None);
        let mut rep = Rep { ok: None, bad: None, panic: None, calls: 0, system_calls: 0, prepared: 0, steps: 0, fired: false, log: vec![] };
        let f = req.f.clone();
        let args = req.args;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            if f == "main" {
                svc_lib::main();
                Ok("null".to_string())
            } else if let Some(e) = lookup(&f) {
                e(args)
            } else {
                Err(format!("no such function {f}"))
            }
        }));
        match r {
            Ok(Ok(s)) => rep.ok = Some(serde_json::from_str(&s).unwrap()),
            Ok(Err(e)) => rep.bad = Some(e),
            Err(e) => {
                let t = panic_text(e);
                let at = LAST_PANIC.with(|p| p.borrow().clone()).unwrap_or_default();
                rep.panic = Some(format!("{t} [{at}]"));
            }
        }
        let o = control::observed();
        rep.calls = o.calls;
        rep.system_calls = o.system_calls;
        rep.prepared = o.prepared;
        rep.steps = o.steps;
        rep.fired = o.fired;
        rep.log = o.log;
        control::arm(None, None, false);
        let mut s = serde_json::to_string(&rep).unwrap();
        s.push('\n');
        if out.write_all(s.as_bytes()).and_then(|_| out.flush()).is_err() {
            break;
        }
    }
}

thread_local!(static LAST_PANIC: std::cell::RefCell<Option<String>> = std::cell::RefCell::new(None));
