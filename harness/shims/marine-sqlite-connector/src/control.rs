//! What the harness sees of, and does to, the database accesses of the service.
use std::cell::RefCell;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FaultKind {
    /// return an error instead of making the access
    FailBefore,
    /// make the access, then return an error all the same
    FailAfter,
    /// the process dies before the access
    CrashBefore,
    /// the process dies right after the access
    CrashAfter,
    /// the process dies instead of making the system call of that number
    /// (counting those that change a file)
    SystemCall,
    /// the same, half of the write being done
    TornWrite,
}

#[derive(Clone, Copy, Debug)]
pub struct Fault {
    /// 1-based index of the access, counted from `arm`
    pub at: u64,
    pub kind: FaultKind,
    pub code: i32,
}

pub(crate) enum Verdict {
    Pass,
    Fail(i32),
    RunThenFail(i32),
    RunThenCrash,
}

#[derive(Default)]
struct Control {
    path: Option<String>,
    fault: Option<Fault>,
    calls: u64,
    system_calls: u64,
    fired: bool,
    budget: Option<u64>,
    prepared: u64,
    steps: u64,
    log: Option<Vec<String>>,
}

thread_local!(static C: RefCell<Control> = RefCell::new(Control::default()));

/// every database file the service opens lies in this directory instead
pub fn set_path(p: &str) {
    C.with(|c| c.borrow_mut().path = Some(p.to_string()))
}

/// start counting accesses; optionally disturb one of them, optionally give up
/// (as inconclusive, by panicking with a marker) past a budget of accesses
pub fn arm(fault: Option<Fault>, budget: Option<u64>, log: bool) {
    C.with(|c| {
        let mut c = c.borrow_mut();
        c.fault = fault;
        c.calls = 0;
        c.system_calls = 0;
        c.fired = false;
        c.prepared = 0;
        c.steps = 0;
        c.budget = budget;
        c.log = if log { Some(vec![]) } else { None };
    })
}

#[derive(Clone, Debug)]
pub struct Observed {
    pub calls: u64,
    pub system_calls: u64,
    pub prepared: u64,
    pub steps: u64,
    pub fired: bool,
    pub log: Vec<String>,
}

pub fn observed() -> Observed {
    C.with(|c| {
        let c = c.borrow();
        Observed {
            calls: c.calls,
            system_calls: c.system_calls,
            prepared: c.prepared,
            steps: c.steps,
            fired: c.fired,
            log: c.log.clone().unwrap_or_default(),
        }
    })
}

/// each name is a file of its own; what SQLite keeps in memory stays there
pub(crate) fn map_path(p: &str) -> String {
    if p.is_empty() || p == ":memory:" {
        return p.to_string();
    }
    let dir = C.with(|c| c.borrow().path.clone()).unwrap_or_else(|| panic!("the harness did not set a directory for {}", p));
    let name: String = p.chars().map(|c| if c.is_ascii_alphanumeric() || c == '.' || c == '-' { c } else { '_' }).collect();
    format!("{}/{}", dir, name)
}

pub const BUDGET_MARKER: &str = "VERIF-ACCESS-BUDGET-EXCEEDED";

pub(crate) fn before(label: &str, detail: &str) -> Verdict {
    let r = C.try_with(|c| {
        let mut c = c.borrow_mut();
        c.calls += 1;
        let n = c.calls;
        match label {
            "prepare" => c.prepared += 1,
            "step" => c.steps += 1,
            _ => {}
        }
        if let Some(l) = c.log.as_mut() {
            l.push(if detail.is_empty() { label.to_string() } else { format!("{}: {}", label, detail) });
        }
        if c.budget.map_or(false, |b| n > b) {
            return None;
        }
        match c.fault {
            Some(f) if f.at == n && !matches!(f.kind, FaultKind::SystemCall | FaultKind::TornWrite) => {
                c.fired = true;
                Some(match f.kind {
                    FaultKind::FailBefore => Verdict::Fail(f.code),
                    FaultKind::FailAfter => Verdict::RunThenFail(f.code),
                    FaultKind::CrashBefore => die(),
                    FaultKind::CrashAfter => Verdict::RunThenCrash,
                    FaultKind::SystemCall | FaultKind::TornWrite => Verdict::Pass,
                })
            }
            _ => Some(Verdict::Pass),
        }
    });
    match r {
        Ok(Some(v)) => v,
        Ok(None) => panic!("{}", BUDGET_MARKER),
        Err(_) => Verdict::Pass,
    }
}

/// SQLite is about to change a file; true: do it by half and die
pub(crate) fn system_call() -> bool {
    C.try_with(|c| {
        let mut c = c.borrow_mut();
        c.system_calls += 1;
        let n = c.system_calls;
        match c.fault {
            Some(f) if f.at == n && f.kind == FaultKind::SystemCall => die(),
            Some(f) if f.at == n && f.kind == FaultKind::TornWrite => true,
            _ => false,
        }
    })
    .unwrap_or(false)
}

/// exit status of an injected crash
pub const CRASH_STATUS: i32 = 86;

pub(crate) fn die() -> ! {
    extern "C" {
        fn _exit(status: i32) -> !;
    }
    // no destructors, no buffers flushed: the process is gone
    unsafe { _exit(CRASH_STATUS) }
}
