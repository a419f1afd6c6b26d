//! PRNG, key pool, report collector and small helpers shared by all workloads.
use fluence_keypair::{KeyFormat, KeyPair, PublicKey};
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- PRNG

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.u64();
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        (self.u64() % n as u64) as usize
    }
    pub fn range(&mut self, lo: u64, hi_incl: u64) -> u64 {
        lo + self.u64() % (hi_incl - lo + 1)
    }
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.below(den as usize) < num as usize
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u64() as u8).collect()
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ b);
    r.u64()
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn str_hash(s: &str) -> u64 {
    // FNV-1a: stable across runs
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

// ---------------------------------------------------------------- keys

pub const RSA_PK8: &[(&str, &[u8])] = &[
    ("rsa-2048-a", include_bytes!("../../fixtures/rsa-2048-a.pk8")),
    ("rsa-2048-b", include_bytes!("../../fixtures/rsa-2048-b.pk8")),
    ("rsa-2048-c", include_bytes!("../../fixtures/rsa-2048-c.pk8")),
    ("rsa-2048-d", include_bytes!("../../fixtures/rsa-2048-d.pk8")),
    ("rsa-3072-a", include_bytes!("../../fixtures/rsa-3072-a.pk8")),
    ("rsa-4096-a", include_bytes!("../../fixtures/rsa-4096-a.pk8")),
];

pub const ALL_FORMATS: [KeyFormat; 3] = [KeyFormat::Ed25519, KeyFormat::Rsa, KeyFormat::Secp256k1];

pub fn rsa_key(i: usize) -> KeyPair {
    let mut b = RSA_PK8[i % RSA_PK8.len()].1.to_vec();
    KeyPair::rsa_from_pkcs8(&mut b).expect("fixture key")
}

/// a deterministic key pair of the given type
pub fn key(format: KeyFormat, rng: &mut Rng) -> KeyPair {
    match format {
        KeyFormat::Rsa => rsa_key(rng.below(RSA_PK8.len())),
        f => loop {
            if let Ok(k) = KeyPair::from_secret_key(rng.bytes(32), f) {
                return k;
            }
        },
    }
}

/// `n` distinct key pairs
pub fn distinct_keys(n: usize, rng: &mut Rng, mut choose: impl FnMut(&mut Rng) -> KeyFormat) -> Vec<KeyPair> {
    let mut v: Vec<KeyPair> = vec![];
    let mut tries = 0;
    while v.len() < n {
        let mut f = choose(rng);
        tries += 1;
        if tries > 50 + 4 * n {
            f = KeyFormat::Ed25519;
        }
        let k = key(f, rng);
        if v.iter().all(|o| pk_id(&o.public()) != pk_id(&k.public())) {
            v.push(k);
        }
    }
    v
}

/// identity of a key for the harness: type and raw bytes, read from the key's
/// own byte encoding (independent of the equality under test)
pub fn pk_id(pk: &PublicKey) -> (u8, Vec<u8>) {
    let t = match pk.get_key_format() {
        KeyFormat::Ed25519 => 0,
        KeyFormat::Rsa => 1,
        KeyFormat::Secp256k1 => 2,
    };
    (t, pk.to_vec())
}

pub fn fmt_name(f: KeyFormat) -> &'static str {
    match f {
        KeyFormat::Ed25519 => "ed25519",
        KeyFormat::Rsa => "rsa",
        KeyFormat::Secp256k1 => "secp256k1",
    }
}

pub fn secs(s: u64) -> Duration {
    Duration::from_secs(s)
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// interesting 64-bit times
pub fn any_time(rng: &mut Rng) -> u64 {
    match rng.below(10) {
        0 => 0,
        1 => 1,
        2 => u64::MAX,
        3 => u64::MAX - rng.below(3) as u64,
        4 => (i64::MAX as u64).wrapping_add(rng.below(5) as u64).wrapping_sub(2),
        5 => rng.below(1000) as u64,
        6 => 1_700_000_000 + rng.below(1_000_000) as u64,
        7 => u32::MAX as u64 - 2 + rng.below(5) as u64,
        8 => 1u64 << rng.below(64),
        _ => rng.u64(),
    }
}

// ---------------------------------------------------------------- guarded calls

thread_local!(static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()));
thread_local!(static GUARDED: std::cell::Cell<u32> = std::cell::Cell::new(0));

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if GUARDED.with(|g| g.get()) > 0 {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = loc);
        } else {
            default(info);
        }
    }));
}

/// run code under observation; a panic becomes `Err(text)`
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    GUARDED.with(|g| g.set(g.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(g.get() - 1));
    r.map_err(|e| {
        let t = if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".into()
        };
        format!("panic: {t} at {}", LAST_PANIC.with(|p| p.borrow().clone()))
    })
}

// ---------------------------------------------------------------- report

/// signatures of the recorded findings of the property being checked
pub static KNOWN: std::sync::OnceLock<HashSet<String>> = std::sync::OnceLock::new();

#[derive(Clone, Debug)]
pub struct Violation {
    /// short stable description of what is broken (used to match known findings)
    pub signature: String,
    pub detail: Value,
    pub case: u64,
}

/// What one case (or the whole run) observed.
#[derive(Default)]
pub struct Report {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    pub known_hits: BTreeMap<String, u64>,
    pub case: u64,
}

impl Report {
    pub fn new(case: u64) -> Self {
        Report { case, ..Default::default() }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(k) {
            *v += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    /// one oracle evaluation; `fp` identifies the case, `nontrivial` by the workload's rule
    pub fn eval<T: Hash>(&mut self, fp: &T, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial {
            self.distinct.insert(hash_of(fp));
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        if self.samples.len() < 3 {
            let v = f();
            self.samples.push(v);
        }
    }
    pub fn violation(&mut self, signature: impl Into<String>, detail: Value) {
        let signature = signature.into();
        if KNOWN.get().map_or(false, |k| k.contains(&signature)) {
            *self.known_hits.entry(signature).or_insert(0) += 1;
            return;
        }
        if self.violations.len() < 20 {
            self.violations.push(Violation { signature, detail, case: self.case });
        }
    }
    /// check an oracle's condition
    pub fn check<T: Hash>(&mut self, fp: &T, ok: bool, signature: &str, detail: impl FnOnce() -> Value) -> bool {
        self.eval(fp, true);
        if !ok {
            let d = detail();
            self.violation(signature, d);
        }
        ok
    }
    pub fn merge(&mut self, o: Report) {
        self.evaluations += o.evaluations;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        for s in o.samples {
            if self.samples.len() < 4 {
                self.samples.push(s);
            }
        }
        self.violations.extend(o.violations);
        self.errors.extend(o.errors);
        for (k, v) in o.known_hits {
            *self.known_hits.entry(k).or_insert(0) += v;
        }
    }
}

pub struct Ctx {
    pub property: String,
    pub thorough: bool,
    pub seed: u64,
    pub svcd: Option<String>,
    pub scratch: String,
    pub deadline: Instant,
    pub repo: String,
    pub asan: bool,
    /// what the distribution crate hands out, if it could be built
    pub distro: Option<String>,
}

impl Ctx {
    /// scale a case count by tier
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn out_of_time(&self) -> bool {
        Instant::now() >= self.deadline
    }
}

/// what every worker is busy with, for the watchdog
static BUSY: std::sync::Mutex<Vec<(std::thread::ThreadId, String, u64, Instant)>> = std::sync::Mutex::new(Vec::new());

fn busy(workload: &str, case: u64) {
    let id = std::thread::current().id();
    let mut b = BUSY.lock().unwrap();
    b.retain(|x| x.0 != id);
    b.push((id, workload.to_string(), case, Instant::now()));
}

fn idle() {
    let id = std::thread::current().id();
    BUSY.lock().unwrap().retain(|x| x.0 != id);
}

/// Watch for cases that never finish or eat all memory (they take well under
/// ten seconds and a gigabyte when the code does what it should).
pub fn watchdog(thorough: bool, report: impl Fn(&str, &str, u64) + Send + 'static) {
    let (max_s, max_gb) = if thorough { (900, 20) } else { (150, 14) };
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(100));
        let rss = std::fs::read_to_string("/proc/self/statm").ok().and_then(|t| t.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) * 4096;
        let oldest = BUSY.lock().unwrap().iter().min_by_key(|x| x.3).cloned();
        if let Some((_, w, c, since)) = oldest {
            if since.elapsed().as_secs() > max_s {
                report("an operation does not finish", &w, c);
            } else if rss > max_gb << 30 {
                report("an operation takes memory without bound", &w, c);
            }
        }
    });
}

/// a single case to replay: workload and case number
pub type Only = Option<(String, u64)>;

/// run `n` independent cases of a workload on all cores
pub fn par_cases(ctx: &Ctx, workload: &str, n: u64, only: &Only, f: impl Fn(&mut Report, &mut Rng, u64) + Sync) -> Report {
    use std::sync::atomic::{AtomicU64, Ordering};
    let next = AtomicU64::new(0);
    let base = mix(ctx.seed, str_hash(workload));
    let run = |i: u64| {
        let mut rep = Report::new(i);
        let mut rng = Rng::new(mix(base, i));
        busy(workload, i);
        let r = guard(|| f(&mut rep, &mut rng, i));
        idle();
        if let Err(e) = r {
            const OURS: &[&str] = &["svcd", "copy database", "graph too dense for the model", "harness called", "not a service", "not the library", "No space left"];
            if OURS.iter().any(|m| e.contains(m)) {
                rep.errors.push(format!("harness panic in workload {workload} case {i}: {e}"));
            } else {
                // something every workload relies on (making a key, signing, encoding) went wrong
                rep.violation("an operation the workload is made of fails", json!({"panic": e}));
            }
        }
        for v in rep.violations.iter_mut() {
            v.detail = json!({"workload": workload, "case": i, "what": v.detail.take()});
        }
        rep
    };
    if let Some((w, i)) = only {
        if w == workload {
            return run(*i);
        }
        return Report::default();
    }
    let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    let stop = std::sync::atomic::AtomicBool::new(false);
    let mut total = Report::default();
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                s.spawn(|| {
                    let mut acc = Report::default();
                    loop {
                        if stop.load(Ordering::Relaxed) || ctx.out_of_time() {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n {
                            break;
                        }
                        let r = run(i);
                        if !r.violations.is_empty() || !r.errors.is_empty() {
                            stop.store(true, Ordering::Relaxed);
                        }
                        acc.merge(r);
                        acc.count(&format!("cases:{workload}"), 1);
                    }
                    acc
                })
            })
            .collect();
        for h in hs {
            total.merge(h.join().expect("worker"));
        }
    });
    total
}
