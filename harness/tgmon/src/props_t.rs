//! T01..T06: trusts, revocations, certificates as documents.
use crate::common::*;
use crate::props_k::{ec_private_der, message, pick_format, sig_mutations};
use fluence_keypair::{KeyFormat, KeyPair, PublicKey, Signature};
use serde_json::json;
use std::str::FromStr;
use std::time::Duration;
use trust_graph::{Certificate, PublicKeyHashable, Revocation, Trust};

fn u64_near(x: u64, rng: &mut Rng) -> u64 {
    match rng.below(8) {
        0 => x.wrapping_add(1),
        1 => x.wrapping_sub(1),
        2 => x ^ (1 << rng.below(64)),
        3 => x.swap_bytes(),
        4 => x ^ (1 << 63),
        5 => x ^ 1,
        6 => x.wrapping_add(1 << 32),
        _ => rng.u64(),
    }
}

pub fn show_trust(t: &Trust) -> serde_json::Value {
    json!({"for": hex(&t.issued_for.encode()), "expires_at": t.expires_at.as_secs(), "issued_at": t.issued_at.as_secs(), "signature": hex(&t.signature.encode())})
}

fn show_chain(c: &[Trust]) -> serde_json::Value {
    json!(c.iter().map(show_trust).collect::<Vec<_>>())
}

fn raw(s: &Signature) -> Vec<u8> {
    s.to_vec().to_vec()
}

// ---------------------------------------------------------------- T01

pub fn t01(ctx: &Ctx, only: &Only) -> Report {
    par_cases(ctx, "trusts", ctx.n(2500, 60000), only, |rep, rng, _| {
        let keys = distinct_keys(4, rng, pick_format);
        let (by, subj) = (&keys[0], if rng.chance(1, 6) { &keys[0] } else { &keys[1] });
        let exp = any_time(rng);
        let iat = if rng.chance(1, 3) { any_time(rng) } else { exp.saturating_sub(rng.below(1000) as u64) };
        let made = match rng.below(3) {
            0 => {
                let m = guard(|| Trust::signature_bytes(&subj.public(), secs(exp), secs(iat)));
                m.map(|m| Trust::new(subj.public(), secs(exp), secs(iat), by.sign(&m).unwrap()))
            }
            _ => guard(|| Trust::create(by, subj.public(), secs(exp), secs(iat))),
        };
        let t = match made {
            Ok(t) => t,
            Err(e) => return rep.violation("creating a trust panics", json!({"error": e})),
        };
        let bp = by.public();
        rep.sample(|| json!({"issuer": hex(&bp.encode()), "trust": show_trust(&t)}));
        rep.count(&format!("issuer:{}", fmt_name(bp.get_key_format())), 1);
        rep.check(&("fields", exp, iat), t.expires_at == secs(exp) && t.issued_at == secs(iat) && pk_id(&t.issued_for) == pk_id(&subj.public()), "a trust does not name what it was created for", || show_trust(&t));
        let mut times = vec![0, 1, exp, exp.saturating_sub(1), iat, iat.saturating_sub(1), rng.u64(), any_time(rng)];
        times.extend(exp.checked_add(1));
        times.extend(exp.checked_add(2 + rng.below(1 << 20) as u64));
        if exp < u64::MAX {
            times.push(u64::MAX);
        }
        for now in times {
            let want = now <= exp;
            let got = guard(|| Trust::verify(&t, &bp, secs(now)).is_ok());
            rep.count(if want { "accepted in time" } else { "refused as expired" }, 1);
            rep.check(&(exp, iat, now, raw(&t.signature)), got == Ok(want), "expiry of a trust misjudged", || json!({"trust": show_trust(&t), "issuer": hex(&bp.encode()), "now": now, "want": want, "got": format!("{got:?}")}));
        }
        let refuse = |rep: &mut Report, what: &str, t2: &Trust, who: &PublicKey| {
            for now in [0, exp] {
                let got = guard(|| Trust::verify(t2, who, secs(now)).is_ok());
                rep.count("refusals expected", 1);
                rep.check(&(what, raw(&t2.signature), t2.expires_at, t2.issued_at, who.encode(), t2.issued_for.encode(), now), got == Ok(false), "changed trust accepted", || json!({"what": what, "trust": show_trust(&t), "changed": show_trust(t2), "issuer": hex(&bp.encode()), "claimed": hex(&who.encode()), "now": now, "got": format!("{got:?}")}));
            }
        };
        for k in &keys {
            if pk_id(&k.public()) != pk_id(&bp) {
                refuse(rep, "issuer", &t, &k.public());
            }
            if pk_id(&k.public()) != pk_id(&t.issued_for) {
                refuse(rep, "subject", &Trust { issued_for: k.public(), ..t.clone() }, &bp);
            }
        }
        // a subject that differs in as little as possible
        let mut e = t.issued_for.encode();
        let i = rng.below(e.len());
        e[i] ^= 1 << rng.below(8);
        if let Ok(Ok(p)) = guard(|| PublicKey::decode(&e)) {
            if pk_id(&p) != pk_id(&t.issued_for) {
                refuse(rep, "subject bit", &Trust { issued_for: p, ..t.clone() }, &bp);
            }
        }
        for _ in 0..3 {
            let x = u64_near(exp, rng);
            if x != exp {
                refuse(rep, "expiry", &Trust { expires_at: secs(x), ..t.clone() }, &bp);
            }
            let x = u64_near(iat, rng);
            if x != iat {
                refuse(rep, "issue time", &Trust { issued_at: secs(x), ..t.clone() }, &bp);
            }
        }
        if exp != iat {
            refuse(rep, "times swapped", &Trust { issued_at: secs(exp), expires_at: secs(iat), ..t.clone() }, &bp);
        }
        for (w, s) in sig_mutations(bp.get_key_format(), &raw(&t.signature), rng) {
            refuse(rep, w, &Trust { signature: Signature::from_bytes(bp.get_key_format(), s), ..t.clone() }, &bp);
        }
        // another genuine signature of the same issuer
        let exp2 = u64_near(exp, rng);
        let t2 = Trust::create(by, keys[2].public(), secs(exp), secs(iat));
        refuse(rep, "signature for another subject", &Trust { signature: t2.signature, ..t.clone() }, &bp);
        if exp2 != exp {
            let t2 = Trust::create(by, subj.public(), secs(exp2), secs(iat));
            refuse(rep, "signature for another expiry", &Trust { signature: t2.signature, ..t.clone() }, &bp);
        }
        let t2 = Trust::create(&keys[3], subj.public(), secs(exp), secs(iat));
        refuse(rep, "signature by another issuer", &Trust { signature: t2.signature, ..t.clone() }, &bp);
    })
}

// ---------------------------------------------------------------- T02

pub fn t02(ctx: &Ctx, only: &Only) -> Report {
    par_cases(ctx, "revocations", ctx.n(2500, 60000), only, |rep, rng, _| {
        let keys = distinct_keys(4, rng, pick_format);
        let (by, subj) = (&keys[0], if rng.chance(1, 8) { &keys[0] } else { &keys[1] });
        let at = any_time(rng);
        let made = match rng.below(3) {
            0 => guard(|| {
                let m = Revocation::signature_bytes(&subj.public(), secs(at));
                Revocation::new(by.public(), subj.public(), secs(at), by.sign(&m).unwrap())
            }),
            _ => guard(|| Revocation::create(by, subj.public(), secs(at))),
        };
        let r = match made {
            Ok(r) => r,
            Err(e) => return rep.violation("creating a revocation panics", json!({"error": e})),
        };
        let show = |r: &Revocation| json!({"revoked": hex(&r.pk.encode()), "at": r.revoked_at.as_secs(), "by": hex(&r.revoked_by.encode()), "signature": hex(&r.signature.encode())});
        rep.sample(|| show(&r));
        rep.count(&format!("revoker:{}", fmt_name(by.key_format())), 1);
        rep.check(&("fields", at), r.revoked_at == secs(at) && pk_id(&r.pk) == pk_id(&subj.public()) && pk_id(&r.revoked_by) == pk_id(&by.public()), "a revocation does not name what it was created for", || show(&r));
        let ok = guard(|| Revocation::verify(&r).is_ok());
        rep.check(&("genuine", raw(&r.signature)), ok == Ok(true), "genuine revocation refused", || show(&r));
        let refuse = |rep: &mut Report, what: &str, r2: Revocation| {
            let got = guard(|| Revocation::verify(&r2).is_ok());
            rep.count("refusals expected", 1);
            rep.check(&(what, raw(&r2.signature), r2.revoked_at, r2.pk.encode(), r2.revoked_by.encode()), got == Ok(false), "changed revocation accepted", || json!({"what": what, "revocation": show(&r), "changed": show(&r2), "got": format!("{got:?}")}));
        };
        for k in &keys {
            if pk_id(&k.public()) != pk_id(&r.pk) {
                refuse(rep, "revoked key", Revocation { pk: k.public(), ..r.clone() });
            }
            if pk_id(&k.public()) != pk_id(&r.revoked_by) {
                refuse(rep, "revoker", Revocation { revoked_by: k.public(), ..r.clone() });
            }
        }
        refuse_swapped(rep, &r, &refuse);
        let mut e = r.pk.encode();
        let i = rng.below(e.len());
        e[i] ^= 1 << rng.below(8);
        if let Ok(Ok(p)) = guard(|| PublicKey::decode(&e)) {
            if pk_id(&p) != pk_id(&r.pk) {
                refuse(rep, "revoked key bit", Revocation { pk: p, ..r.clone() });
            }
        }
        for _ in 0..4 {
            let x = u64_near(at, rng);
            if x != at {
                refuse(rep, "time", Revocation { revoked_at: secs(x), ..r.clone() });
            }
        }
        let f = by.key_format();
        for (w, s) in sig_mutations(f, &raw(&r.signature), rng) {
            refuse(rep, w, Revocation { signature: Signature::from_bytes(f, s), ..r.clone() });
        }
        // the two kinds of document over the same keys and times never stand in for each other
        let other = any_time(rng);
        let combos = [(at, at), (at, 0), (0, at), (at, other), (other, at), (other, other), (u64::MAX, at), (at, u64::MAX)];
        for (exp, iat) in combos {
            let t = Trust::create(by, subj.public(), secs(exp), secs(iat));
            for a in [exp, iat, at] {
                refuse(rep, "signature of a trust", Revocation { signature: t.signature.clone(), revoked_at: secs(a), ..r.clone() });
            }
            let posing = Trust::new(subj.public(), secs(exp), secs(iat), r.signature.clone());
            for now in [0, exp] {
                let got = guard(|| Trust::verify(&posing, &by.public(), secs(now)).is_ok());
                rep.count("refusals expected", 1);
                rep.check(&("posing", exp, iat, raw(&r.signature), now), got == Ok(false), "signature of a revocation accepted as a trust", || json!({"revocation": show(&r), "trust": show_trust(&posing)}));
            }
        }
        // nor do their signed bytes, cut into fields at other places
        let p = subj.public().encode();
        let iat = any_time(rng);
        let t = Trust::create(by, subj.public(), secs(at), secs(iat));
        let tail = [p.clone(), at.to_le_bytes().to_vec()].concat();
        for shift in 0..3 {
            for end in [tail.len(), tail.len() - 1, p.len()] {
                if let Some(Ok(Ok(pk))) = tail.get(shift..end).map(|b| guard(|| PublicKey::decode(b))) {
                    for a in [iat, at, u64::from_le_bytes(tail[tail.len() - 8..].try_into().unwrap())] {
                        refuse(rep, "bytes of a trust read as a revocation", Revocation { pk: pk.clone(), revoked_at: secs(a), signature: t.signature.clone(), ..r.clone() });
                    }
                }
            }
        }
        for cut in [8, 7, 9] {
            if p.len() <= cut + 1 {
                continue;
            }
            for head in [vec![], vec![p.len() as u8]] {
                let whole = [head, p.clone()].concat();
                let (a, b) = whole.split_at(whole.len() - cut);
                let mut e = [0; 8];
                e[..cut.min(8)].copy_from_slice(&b[..cut.min(8)]);
                if let Ok(Ok(pk)) = guard(|| PublicKey::decode(a)) {
                    let posing = Trust::new(pk, secs(u64::from_le_bytes(e)), secs(at), r.signature.clone());
                    let got = guard(|| Trust::verify(&posing, &by.public(), secs(0)).is_ok());
                    rep.count("refusals expected", 1);
                    rep.check(&("cut", cut, raw(&r.signature)), got == Ok(false), "signature of a revocation accepted as a trust", || json!({"revocation": show(&r), "trust": show_trust(&posing)}));
                }
            }
        }
    })
}

fn refuse_swapped(rep: &mut Report, r: &Revocation, refuse: &dyn Fn(&mut Report, &str, Revocation)) {
    if pk_id(&r.pk) != pk_id(&r.revoked_by) {
        refuse(rep, "roles swapped", Revocation { pk: r.revoked_by.clone(), revoked_by: r.pk.clone(), ..r.clone() });
    }
}

// ---------------------------------------------------------------- certificates

/// who really signed what: the ground truth for every document in a case
#[derive(Default)]
pub struct Ledger(Vec<(Vec<u8>, Vec<u8>, u64, u64, Vec<u8>, KeyFormat)>);

impl Ledger {
    fn sign(&mut self, by: &KeyPair, subj: &PublicKey, exp: u64, iat: u64) -> Trust {
        let t = Trust::create(by, subj.clone(), secs(exp), secs(iat));
        self.record(&by.public(), &t);
        t
    }
    fn record(&mut self, by: &PublicKey, t: &Trust) {
        self.0.push((by.encode(), t.issued_for.encode(), t.expires_at.as_secs(), t.issued_at.as_secs(), raw(&t.signature), by.get_key_format()));
    }
    fn genuine(&self, t: &Trust, by: &PublicKey) -> bool {
        let (b, s, e, i, g) = (by.encode(), t.issued_for.encode(), t.expires_at.as_secs(), t.issued_at.as_secs(), raw(&t.signature));
        self.0.iter().any(|x| x.0 == b && x.1 == s && x.2 == e && x.3 == i && x.4 == g)
    }
    /// the rule of T03
    fn valid(&self, chain: &[Trust], roots: &[PublicKey], now: u64) -> bool {
        !chain.is_empty()
            && roots.iter().any(|r| pk_id(r) == pk_id(&chain[0].issued_for))
            && chain.iter().enumerate().all(|(i, t)| t.expires_at.as_secs() >= now && self.genuine(t, if i == 0 { &t.issued_for } else { &chain[i - 1].issued_for }))
    }
}

struct Build {
    keys: Vec<KeyPair>,
    ledger: Ledger,
    chain: Vec<Trust>,
    now: u64,
}

fn build(rng: &mut Rng, max_len: usize) -> Build {
    let n = 1 + rng.below(max_len);
    build_len(rng, n)
}

fn build_len(rng: &mut Rng, n: usize) -> Build {
    let keys = distinct_keys(n + 3, rng, |r| if n > 50 { KeyFormat::Ed25519 } else if r.chance(1, 10) { KeyFormat::Rsa } else if r.chance(1, 3) { KeyFormat::Secp256k1 } else { KeyFormat::Ed25519 });
    let now = if rng.chance(1, 10) { any_time(rng).min(u64::MAX - 10_000) } else { 1_000 + rng.below(1000) as u64 };
    let mut ledger = Ledger::default();
    let mut chain = vec![];
    for i in 0..n {
        let by = if i == 0 { &keys[0] } else { &keys[i - 1] };
        let exp = match rng.below(8) {
            0 => u64::MAX,
            1 => now,
            2 => now + 1,
            _ => now + 1 + rng.below(500) as u64,
        };
        let iat = now.saturating_sub(rng.below(500) as u64);
        // sometimes a key appears twice (self-signed intermediate)
        chain.push(ledger.sign(by, &keys[i].public(), exp, iat));
    }
    Build { keys, ledger, chain, now }
}

/// other public keys that share all but a few bytes with this one
pub fn twins(pk: &PublicKey, rng: &mut Rng) -> Vec<PublicKey> {
    let e = pk.encode();
    let mut out = vec![];
    for _ in 0..6 {
        let mut o = e.clone();
        let n = o.len();
        // one byte near the end, one near the beginning, or one anywhere
        let i = match rng.below(3) {
            0 => n - 1 - rng.below(8),
            1 => 1 + rng.below(8),
            _ => 1 + rng.below(n - 1),
        };
        o[i] ^= 1 << rng.below(8);
        if let Ok(p) = PublicKey::decode(&o) {
            if p.encode() != e {
                out.push(p);
            }
        }
    }
    out
}

fn mutate_chain(b: &mut Build, rng: &mut Rng) -> (&'static str, Vec<Trust>) {
    let mut c = b.chain.clone();
    let n = c.len();
    let stranger = b.keys[b.keys.len() - 1].clone();
    let i = if rng.chance(1, 3) { n - 1 } else { rng.below(n) };
    match rng.below(17) {
        0 => {
            c.remove(i);
            ("drop", c)
        }
        1 => {
            c.insert(i, c[i].clone());
            ("duplicate", c)
        }
        2 if n > 1 => {
            let j = rng.below(n);
            c.swap(i, j);
            ("swap", c)
        }
        3 => {
            // re-signed by a stranger
            let (s, e, a) = (c[i].issued_for.clone(), c[i].expires_at.as_secs(), c[i].issued_at.as_secs());
            c[i] = b.ledger.sign(&stranger, &s, e, a);
            ("re-signed by a stranger", c)
        }
        4 => {
            c[i].expires_at = secs(u64_near(c[i].expires_at.as_secs(), rng));
            ("expiry changed", c)
        }
        5 => {
            c[i].issued_at = secs(u64_near(c[i].issued_at.as_secs(), rng));
            ("issue time changed", c)
        }
        6 => {
            c[i].issued_for = stranger.public();
            ("subject changed", c)
        }
        7 => {
            c.insert(i, b.ledger.sign(&stranger, &stranger.public(), u64::MAX, 1));
            ("stranger's root spliced in", c)
        }
        8 => {
            c.truncate(rng.below(n + 1));
            ("truncated", c)
        }
        9 => {
            c.reverse();
            ("reversed", c)
        }
        10 => {
            // a genuine but expired link of the right issuer
            let by = if i == 0 { b.keys[0].clone() } else { b.keys[i - 1].clone() };
            let s = c[i].issued_for.clone();
            c[i] = b.ledger.sign(&by, &s, b.now.saturating_sub(1 + rng.below(100) as u64), 1);
            ("expired link", c)
        }
        11 => {
            // extended by somebody who is in the chain but not at its end
            let by = b.keys[i].clone();
            let t = b.ledger.sign(&by, &stranger.public(), u64::MAX, b.now);
            c.push(t);
            ("extended from inside", c)
        }
        12 => {
            let t = b.ledger.sign(&stranger, &stranger.public(), u64::MAX, b.now);
            c.push(t);
            ("extended by a stranger", c)
        }
        13 => {
            // self-signed intermediate: still a valid chain
            let by = b.keys[i].clone();
            let t = b.ledger.sign(&by, &by.public(), u64::MAX, b.now);
            c.insert(i + 1, t);
            ("self-signed intermediate", c)
        }
        14 => {
            let f = if i == 0 { c[0].issued_for.get_key_format() } else { c[i - 1].issued_for.get_key_format() };
            let m = sig_mutations(f, &raw(&c[i].signature), rng);
            c[i].signature = Signature::from_bytes(f, rng.pick(&m).1.clone());
            ("signature changed", c)
        }
        15 => {
            // root not self-signed but signed by another member
            let by = b.keys[n - 1].clone();
            c[0] = b.ledger.sign(&by, &b.keys[0].public(), u64::MAX, 1);
            ("root signed by a member", c)
        }
        16 if n > 1 => {
            // signature of the neighbour
            let j = (i + 1) % n;
            c[i].signature = c[j].signature.clone();
            ("signature of another link", c)
        }
        _ => ("unchanged", c),
    }
}

pub fn t03(ctx: &Ctx, only: &Only) -> Report {
    let mut r = par_cases(ctx, "certificates", ctx.n(1500, 30000), only, |rep, rng, case| {
        let len = if case % 40 == 0 { 40 } else { 7 };
        let b = build(rng, len);
        t03_case(rep, rng, b, 14)
    });
    // beyond what a byte can count
    r.merge(par_cases(ctx, "long certificates", ctx.n(40, 600), only, |rep, rng, case| {
        let len = if case % 2 == 0 { 254 + rng.below(8) } else { 100 + rng.below(500) };
        let b = build_len(rng, len);
        t03_case(rep, rng, b, 8)
    }));
    r
}

fn t03_case(rep: &mut Report, rng: &mut Rng, mut b: Build, rounds: usize) {
        for round in 0..rounds {
            let (what, chain) = if round == 0 { ("unchanged", b.chain.clone()) } else { mutate_chain(&mut b, rng) };
            let mut roots: Vec<PublicKey> = vec![];
            match rng.below(12) {
                0 => {}
                11 => {
                    // a long list, the root at its end or not in it
                    let most = if rng.chance(1, 8) { 600 } else { 60 };
                    for _ in 0..30 + rng.below(most) {
                        roots.push(key(KeyFormat::Ed25519, rng).public());
                    }
                    if rng.chance(2, 3) {
                        roots.push(b.keys[0].public());
                    }
                }
                10 => {
                    // keys that look much like the root, and are not
                    roots.extend(twins(&b.keys[0].public(), rng));
                    if rng.chance(1, 4) {
                        roots.push(b.keys[0].public());
                    }
                }
                1 => roots.push(b.keys[b.keys.len() - 1].public()),
                2 => roots.extend(b.keys.iter().skip(1).map(|k| k.public())),
                3 => roots.extend(b.keys.iter().map(|k| k.public())),
                4 => {
                    roots.push(b.keys[b.keys.len() - 2].public());
                    roots.push(b.keys[0].public());
                }
                _ => roots.push(b.keys[0].public()),
            }
            let exps: Vec<u64> = chain.iter().map(|t| t.expires_at.as_secs()).collect();
            let mut times = vec![b.now, 0];
            if let Some(m) = exps.iter().min() {
                times.push(*m);
                times.extend(m.checked_add(1));
            }
            if !exps.is_empty() {
                let x = *rng.pick(&exps);
                times.push(x);
                times.extend(x.checked_add(1));
            }
            for now in times {
                let want = b.ledger.valid(&chain, &roots, now);
                let cert = Certificate::new_unverified(chain.clone());
                let got = guard(|| Certificate::verify(&cert, &roots, secs(now)).is_ok());
                rep.count(if want { "valid" } else { "invalid" }, 1);
                rep.count(&format!("mutation:{what}"), 1);
                let fp = (chain.iter().map(|t| (t.issued_for.encode(), t.expires_at, t.issued_at, raw(&t.signature))).collect::<Vec<_>>(), roots.iter().map(|r| r.encode()).collect::<Vec<_>>(), now);
                rep.check(&fp, got == Ok(want), if want { "valid certificate refused" } else { "invalid certificate accepted" }, || json!({"mutation": what, "chain": show_chain(&chain), "roots": roots.iter().map(|r| hex(&r.encode())).collect::<Vec<_>>(), "now": now, "got": format!("{got:?}")}));
            }
            rep.sample(|| json!({"mutation": what, "chain": show_chain(&chain)}));
        }
}

// ---------------------------------------------------------------- T04

pub fn t04(ctx: &Ctx, only: &Only) -> Report {
    par_cases(ctx, "issuing", ctx.n(1500, 30000), only, |rep, rng, case| {
        let mut b = if case % 150 == 149 { let n = 250 + rng.below(20); build_len(rng, n) } else { build(rng, 6) };
        // sometimes the chain has a member twice
        if rng.chance(1, 4) {
            let i = rng.below(b.chain.len());
            let by = b.keys[i].clone();
            let t = b.ledger.sign(&by, &by.public(), u64::MAX, b.now);
            b.chain.insert(i + 1, t);
        }
        for _ in 0..10 {
            let (what, chain) = if rng.chance(1, 2) { ("unchanged", b.chain.clone()) } else { mutate_chain(&mut b, rng) };
            let cert = Certificate::new_unverified(chain.clone());
            let now = match rng.below(6) {
                0 => b.now + 1 + rng.below(600) as u64,
                1 => 0,
                _ => b.now,
            };
            let own_root = chain.first().map(|t| vec![t.issued_for.clone()]).unwrap_or_default();
            let base_ok = b.ledger.valid(&chain, &own_root, now);
            let ki = if rng.chance(1, 5) { rng.below(b.keys.len()) } else { rng.below(b.keys.len() - 2) };
            let issuer = b.keys[ki].clone();
            let subject = b.keys[rng.below(b.keys.len())].public();
            let pos = chain.iter().rposition(|t| pk_id(&t.issued_for) == pk_id(&issuer.public()));
            let iat = if rng.chance(1, 4) { now + rng.below(100) as u64 } else { now.saturating_sub(rng.below(3) as u64 * 20) };
            let exp = match rng.below(9) {
                8 => now + (iat.saturating_sub(now)) / 2,
                0 => iat.saturating_sub(1),
                1 => iat,
                2 => now,
                3 => now.saturating_sub(1),
                4 => u64::MAX,
                _ => now + rng.below(1000) as u64,
            };
            let with_trust = rng.chance(1, 2);
            let detail = |got: &str| json!({"mutation": what, "chain": show_chain(&chain), "issuer": hex(&issuer.public().encode()), "subject": hex(&subject.encode()), "exp": exp, "iat": iat, "now": now, "with_trust": with_trust, "got": got});
            let fp = (chain.iter().map(|t| (raw(&t.signature), t.expires_at, t.issued_for.encode())).collect::<Vec<_>>(), ki, subject.encode(), exp, iat, now, with_trust);
            let judge = |rep: &mut Report, ledger: &Ledger, got: Result<Result<Certificate, String>, String>, want_ok: bool, new: Option<&Trust>| {
                rep.count(if want_ok { "extensions expected" } else { "refusals expected" }, 1);
                match got {
                    Err(p) => {
                        rep.check(&fp, false, "issuing panics", || detail(&p));
                    }
                    Ok(Err(e)) => {
                        rep.check(&fp, !want_ok, "justified extension refused", || detail(&e));
                    }
                    Ok(Ok(c)) => {
                        if !rep.check(&fp, want_ok, "unjustified extension granted", || detail("extended")) {
                            return;
                        }
                        let keep = pos.unwrap() + 1;
                        let shape = c.chain.len() == keep + 1 && c.chain[..keep] == chain[..keep];
                        let last = c.chain.last().unwrap();
                        let named = pk_id(&last.issued_for) == pk_id(&subject) && last.expires_at == secs(exp) && last.issued_at == secs(iat) && new.map_or(true, |t| t == last);
                        rep.check(&(&fp, "shape"), shape && named, "extended certificate has the wrong content", || json!({"case": detail("ok"), "result": show_chain(&c.chain)}));
                        let alive = c.chain.iter().map(|t| t.expires_at.as_secs()).min().unwrap();
                        for at in [alive, alive.min(now), 0] {
                            let v = guard(|| Certificate::verify(&c, &own_root, secs(at)).is_ok());
                            rep.check(&(&fp, "verifies", at), v == Ok(true), "issued certificate does not verify", || json!({"case": detail("ok"), "result": show_chain(&c.chain), "at": at, "got": format!("{v:?}")}));
                        }
                        let _ = ledger;
                    }
                }
            };
            if with_trust {
                // a genuine or forged ready-made trust
                let signer = if rng.chance(1, 3) { b.keys[rng.below(b.keys.len())].clone() } else { issuer.clone() };
                let mut t = b.ledger.sign(&signer, &subject, exp, iat);
                if rng.chance(1, 4) {
                    let m = sig_mutations(signer.key_format(), &raw(&t.signature), rng);
                    t.signature = Signature::from_bytes(signer.key_format(), rng.pick(&m).1.clone());
                }
                let genuine = b.ledger.genuine(&t, &issuer.public());
                let want = base_ok && pos.is_some() && genuine && exp >= iat && exp >= now;
                let got = guard(|| Certificate::issue_with_trust(issuer.public(), t.clone(), &cert, secs(now)).map_err(|e| e.to_string()));
                judge(rep, &b.ledger, got, want, Some(&t));
            } else {
                let want = base_ok && pos.is_some() && exp >= iat;
                let got = guard(|| Certificate::issue(&issuer, subject.clone(), &cert, secs(exp), secs(iat), secs(now)).map_err(|e| e.to_string()));
                judge(rep, &b.ledger, got, want, None);
            }
            rep.sample(|| detail(""));
        }
        // roots
        let (r, s) = (b.keys[0].clone(), b.keys[1].public());
        let exp = any_time(rng);
        let iat = any_time(rng);
        match guard(|| Certificate::issue_root(&r, s.clone(), secs(exp), secs(iat))) {
            Err(e) => rep.violation("issuing panics", json!({"error": e})),
            Ok(c) => {
                let ok = c.chain.len() == 2 && pk_id(&c.chain[0].issued_for) == pk_id(&r.public()) && pk_id(&c.chain[1].issued_for) == pk_id(&s) && c.chain[1].expires_at == secs(exp) && c.chain[1].issued_at == secs(iat);
                let v = guard(|| Certificate::verify(&c, &[r.public()], secs(exp)).is_ok());
                rep.check(&("root", raw(&c.chain[0].signature), exp, iat), ok && v == Ok(true), "issued root certificate is not what was asked for", || json!({"chain": show_chain(&c.chain), "exp": exp, "iat": iat}));
            }
        }
        // from two ready-made trusts
        for _ in 0..6 {
            let (a, z) = (rng.below(3), rng.below(3));
            let rexp = b.now + rng.below(3) as u64;
            let texp = b.now + rng.below(3) as u64;
            let mut rt = b.ledger.sign(&b.keys[a].clone(), &b.keys[0].public(), rexp, 1);
            let mut it = b.ledger.sign(&b.keys[z].clone(), &b.keys[2].public(), texp, 1);
            if rng.chance(1, 6) {
                rt.issued_at = secs(2);
            }
            if rng.chance(1, 6) {
                it.expires_at = secs(texp + 1);
            }
            let now = b.now + rng.below(3) as u64;
            let want = b.ledger.valid(&[rt.clone(), it.clone()], &[rt.issued_for.clone()], now);
            let got = guard(|| Certificate::new_from_root_trust(rt.clone(), it.clone(), secs(now)).map(|c| c.chain == vec![rt.clone(), it.clone()]).ok());
            rep.count(if want { "pairs expected" } else { "pairs refused" }, 1);
            rep.check(&("pair", raw(&rt.signature), raw(&it.signature), now), got == Ok(if want { Some(true) } else { None }), "certificate from two trusts misjudged", || json!({"root": show_trust(&rt), "trust": show_trust(&it), "now": now, "want": want, "got": format!("{got:?}")}));
        }
    })
}

// ---------------------------------------------------------------- T05

#[derive(serde::Serialize, serde::Deserialize)]
struct Wrap {
    #[serde(with = "trust_graph::certificate_serde::vec")]
    certs: Vec<Certificate>,
}

fn trust_fits(t: &Trust) -> bool {
    t.issued_for.encode().len() < 256 && t.signature.encode().len() < 256
}

pub fn t05(ctx: &Ctx, only: &Only) -> Report {
    par_cases(ctx, "formats", ctx.n(2500, 60000), only, |rep, rng, case| {
        let max = match case % 50 {
            0 => 300,
            1..=5 => 30,
            _ => 6,
        };
        let mut b = build(rng, max.min(30));
        if max == 300 {
            // long chains, around the sizes a byte can count
            let n = *rng.pick(&[254usize, 255, 256, 257, 300]);
            while b.chain.len() < n {
                let i = b.chain.len() % (b.keys.len() - 1);
                let by = b.keys[i].clone();
                let t = b.ledger.sign(&by, &by.public(), rng.u64(), rng.u64());
                b.chain.push(t);
            }
        }
        // times over the whole range
        if rng.chance(1, 2) {
            for i in 0..b.chain.len().min(5) {
                let by = if i == 0 { b.keys[0].clone() } else { b.keys[i - 1].clone() };
                let s = b.chain[i].issued_for.clone();
                b.chain[i] = b.ledger.sign(&by, &s, any_time(rng), any_time(rng));
            }
        }
        for (i, t) in b.chain.iter().enumerate().take(6) {
            let fp = (raw(&t.signature), t.issued_for.encode());
            let by = if i == 0 { t.issued_for.clone() } else { b.chain[i - 1].issued_for.clone() };
            let at = t.expires_at;
            let judge = |rep: &mut Report, form: &str, sig: &str, d: Result<Option<Trust>, String>| {
                let ok = match &d {
                    Ok(Some(d)) => d == t && d.expires_at == t.expires_at && d.issued_at == t.issued_at && pk_id(&d.issued_for) == pk_id(&t.issued_for) && d.signature.get_signature_type() == t.signature.get_signature_type() && d.signature.to_vec() == t.signature.to_vec() && Trust::verify(d, &by, at).is_ok() == Trust::verify(t, &by, at).is_ok(),
                    _ => false,
                };
                rep.count(&format!("trusts:{form}"), 1);
                rep.check(&(form, &fp), ok, sig, || json!({"form": form, "trust": show_trust(t), "got": format!("{d:?}")}));
            };
            let sig = if trust_fits(t) { "trust changed by its binary form" } else { "trust binary form: public key or signature encoding longer than 255 bytes" };
            judge(rep, "binary", sig, guard(|| Trust::decode(&t.encode()).ok()));
            judge(rep, "text", "trust changed by its text form", guard(|| {
                let s = t.to_string();
                let l: Vec<&str> = s.lines().collect();
                if l.len() == 4 {
                    Trust::convert_from_strings(l[0], l[1], l[2], l[3]).ok()
                } else {
                    None
                }
            }));
            judge(rep, "json", "trust changed by its serialised form", guard(|| serde_json::from_str(&serde_json::to_string(t).unwrap()).ok()));
            judge(rep, "msgpack", "trust changed by its serialised form", guard(|| rmp_serde::from_slice(&rmp_serde::to_vec(t).unwrap()).ok()));
        }
        // certificates
        let c = Certificate::new_unverified(b.chain.clone());
        let fp = (b.chain.len(), b.chain.iter().map(|t| raw(&t.signature)).collect::<Vec<_>>());
        let root = vec![b.chain[0].issued_for.clone()];
        let at = b.chain.iter().map(|t| t.expires_at).min().unwrap();
        let before = guard(|| Certificate::verify(&c, &root, at).is_ok());
        rep.sample(|| json!({"chain": show_chain(&b.chain[..b.chain.len().min(3)]), "length": b.chain.len()}));
        rep.count(&format!("chain length:{}", match b.chain.len() { 1 => "1", 2..=30 => "2-30", 31..=255 => "31-255", _ => "256+" }), 1);
        let judge = |rep: &mut Report, form: &str, sig: &str, d: Result<Option<Certificate>, String>| {
            let ok = match &d {
                Ok(Some(d)) => d == &c && d.chain.len() == c.chain.len() && guard(|| Certificate::verify(d, &root, at).is_ok()) == before,
                _ => false,
            };
            rep.count(&format!("certificates:{form}"), 1);
            rep.check(&(form, &fp), ok, sig, || json!({"form": form, "chain": show_chain(&b.chain), "got": match &d { Ok(Some(d)) => show_chain(&d.chain), o => json!(format!("{o:?}")) }}));
        };
        let sig = if b.chain.len() < 2 {
            "certificate binary form: fewer than two trusts"
        } else if b.chain.len() > 255 {
            "certificate binary form: more than 255 trusts"
        } else if !b.chain.iter().all(|t| trust_fits(t) && t.issued_for.encode().len() + t.signature.encode().len() + 18 < 256) {
            "certificate binary form: trust encoding longer than 255 bytes"
        } else {
            "certificate changed by its binary form"
        };
        judge(rep, "binary", sig, guard(|| Certificate::decode(&c.encode()).ok()));
        judge(rep, "text", "certificate changed by its text form", guard(|| Certificate::from_str(&c.to_string()).ok()));
        if b.chain.len() < 60 {
            // lists: empty, short, long; duplicates; certificates of any length
            let k = match rng.below(40) {
                0 => 60 + rng.below(300),
                n => n % 7,
            };
            let certs: Vec<Certificate> = (0..k).map(|_| Certificate::new_unverified(b.chain[..1 + rng.below(if k > 20 { b.chain.len().min(2) } else { b.chain.len() })].to_vec())).collect();
            rep.count(&format!("list length:{}", match k { 0 => "0", 1..=7 => "1-7", _ => "60+" }), 1);
            for form in ["json", "msgpack", "bincode"] {
                let d = guard(|| {
                    let w = Wrap { certs: certs.clone() };
                    match form {
                        "json" => serde_json::from_str::<Wrap>(&serde_json::to_string(&w).unwrap()).ok(),
                        "msgpack" => rmp_serde::from_slice::<Wrap>(&rmp_serde::to_vec(&w).unwrap()).ok(),
                        _ => bincode::deserialize::<Wrap>(&bincode::serialize(&w).unwrap()).ok(),
                    }
                    .map(|w| w.certs)
                });
                rep.count(&format!("certificates:list in {form}"), k as u64);
                let ok = matches!(&d, Ok(Some(d)) if d == &certs);
                rep.check(&("list", form, k, &fp), ok, "certificate changed in a serialised list", || {
                    json!({"form": form, "sent": certs.iter().map(|c| c.chain.len()).collect::<Vec<_>>(), "chain": show_chain(&b.chain), "got": match &d { Ok(Some(d)) => json!(d.iter().map(|c| c.chain.len()).collect::<Vec<_>>()), o => json!(format!("{o:?}")) }})
                });
            }
            // different documents, different encodings
            let (_, other) = mutate_chain(&mut Build { keys: b.keys.clone(), ledger: Ledger::default(), chain: b.chain.clone(), now: b.now }, rng);
            let o = Certificate::new_unverified(other.clone());
            if o != c {
                let r = guard(|| o.to_string() != c.to_string() && (other.len() > 255 || b.chain.len() > 255 || o.encode() != c.encode()));
                rep.check(&("differ", &fp, other.len()), r == Ok(true), "two certificates share an encoding", || json!({"a": show_chain(&b.chain), "b": show_chain(&other)}));
            }
        }
    })
}

// ---------------------------------------------------------------- T06

/// hostile variants of a valid encoding
pub fn mangle(v: &[u8], rng: &mut Rng) -> Vec<u8> {
    let mut b = v.to_vec();
    for _ in 0..1 + rng.below(2) {
        let n = b.len();
        match rng.below(12) {
            0 => b.truncate(rng.below(n + 1)),
            1 => {
                let k = 1 + rng.below(20);
                b.extend(rng.bytes(k));
            }
            2 | 3 if n > 0 => b[rng.below(n)] ^= 1 << rng.below(8),
            4 if n > 0 => {
                let i = rng.below(n);
                b[i] = *rng.pick(&[0, 1, 2, 3, 0x7f, 0x80, 0xfe, 0xff]);
            }
            5 if n > 0 => b[rng.below(n)] = rng.u64() as u8,
            6 => b.clear(),
            7 if n > 0 => {
                b.remove(rng.below(n));
            }
            8 => {
                let i = rng.below(n + 1);
                b.insert(i, rng.u64() as u8);
            }
            9 if n > 1 => {
                let (i, j) = (rng.below(n), rng.below(n));
                let (i, j) = (i.min(j), i.max(j));
                let s = b[i..j].to_vec();
                b.extend(s);
            }
            10 => {
                let k = rng.below(300);
                b = rng.bytes(k);
            }
            11 if n > 0 => b[0] = rng.below(4) as u8,
            _ => {}
        }
    }
    b
}

pub fn mangle_text(v: &str, rng: &mut Rng) -> String {
    let mut s = v.to_string();
    for _ in 0..1 + rng.below(2) {
        let mut lines: Vec<String> = s.lines().map(|x| x.to_string()).collect();
        let n = lines.len();
        match rng.below(16) {
            0 if n > 0 => {
                lines.remove(rng.below(n));
                s = lines.join("\n");
            }
            1 if n > 0 => {
                let i = rng.below(n);
                lines.insert(i, lines[i].clone());
                s = lines.join("\n");
            }
            2 if n > 0 => {
                lines.truncate(rng.below(n + 1));
                s = lines.join("\n");
            }
            3 if n > 0 => {
                let i = rng.below(n);
                lines[i] = rng.pick(&["", "0", "-1", "18446744073709551616", "1e9", "+5", " 5", "é", "\u{0}", "1111", "l0OI", "99999999999999999999999999"]).to_string();
                s = lines.join("\n");
            }
            4 if n > 1 => {
                let (i, j) = (rng.below(n), rng.below(n));
                lines.swap(i, j);
                s = lines.join("\n");
            }
            5 => s = lines.join("\r\n"),
            6 => s.push('\n'),
            7 => s.clear(),
            8 => s.push_str(*rng.pick::<&str>(&["x", "\n\n", "\u{1F600}", "1", "\n1\n2\n3"])),
            9 => {
                let k = s.char_indices().map(|x| x.0).nth(rng.below(s.chars().count() + 1)).unwrap_or(s.len());
                s.truncate(k);
            }
            10 => {
                let mut c: Vec<char> = s.chars().collect();
                if !c.is_empty() {
                    let i = rng.below(c.len());
                    c[i] = *rng.pick(&['1', 'z', '0', '\n', ' ', 'é', '\u{0}', '-']);
                }
                s = c.into_iter().collect();
            }
            11 => {
                let k = rng.below(40);
                s = rng.bytes(k).iter().map(|b| *b as char).collect();
            }
            12 => s = s.to_lowercase(),
            13 if n > 2 => {
                // a field replaced by a base58 text of something short
                let i = rng.below(n);
                let k = rng.below(4);
                lines[i] = bs58::encode(rng.bytes(k)).into_string();
                s = lines.join("\n");
            }
            14 => s = "\n".repeat(rng.below(12)),
            _ => {
                let mut c: Vec<char> = s.chars().collect();
                if !c.is_empty() {
                    c.remove(rng.below(c.len()));
                }
                s = c.into_iter().collect();
            }
        }
    }
    s
}

fn use_pk(p: &PublicKey, m: &[u8], s: &Signature) {
    let e = p.encode();
    let _ = PublicKey::decode(&e).map(|d| assert!(d == *p, "accepted key does not round-trip"));
    let _ = p.verify(m, s);
    let _ = p.to_vec();
    let _ = format!("{p:?}");
    let h: PublicKeyHashable = p.clone().into();
    let _ = h.to_string();
    let _ = hash_of(&h);
    let _ = p.get_key_format();
}

fn use_sig(s: &Signature, p: &PublicKey, m: &[u8]) {
    let d = Signature::decode(s.encode());
    assert!(d.map_or(false, |d| d == *s), "accepted signature does not round-trip");
    let _ = p.verify(m, s);
    let _ = format!("{s:?}");
    let _ = s.get_raw_signature();
}

fn use_trust(t: &Trust, p: &PublicKey) {
    let _ = Trust::verify(t, p, Duration::from_secs(0));
    let _ = Trust::verify(t, &t.issued_for, t.expires_at);
    let _ = format!("{t:?}");
    let s = t.to_string();
    let l: Vec<&str> = s.lines().collect();
    if l.len() == 4 {
        let _ = Trust::convert_from_strings(l[0], l[1], l[2], l[3]);
    }
    let _ = Trust::decode(&t.encode());
}

fn use_cert(c: &Certificate, p: &PublicKey, k: &KeyPair) {
    let _ = Certificate::verify(c, &[p.clone()], Duration::from_secs(1));
    let _ = Certificate::verify(c, &c.chain.iter().map(|t| t.issued_for.clone()).collect::<Vec<_>>(), Duration::from_secs(0));
    let _ = c.to_string();
    let _ = Certificate::from_str(&c.to_string());
    let _ = Certificate::decode(&c.encode());
    let _ = format!("{c:?}");
    let _ = Certificate::issue(k, p.clone(), c, Duration::from_secs(5), Duration::from_secs(1), Duration::from_secs(1));
    let t = Trust::create(k, p.clone(), Duration::from_secs(5), Duration::from_secs(1));
    let _ = Certificate::issue_with_trust(k.public(), t, c, Duration::from_secs(1));
    for t in &c.chain {
        use_trust(t, p);
    }
}

pub fn t06(ctx: &Ctx, only: &Only) -> Report {
    let mut r = par_cases(ctx, "hostile-input", ctx.n(4000, 120000), only, |rep, rng, case| {
        let k = key(pick_format(rng), rng);
        let pk = k.public();
        let m = message(rng);
        let sig = k.sign(&m).unwrap();
        let b = build(rng, 4);
        let cert = Certificate::new_unverified(b.chain.clone());
        let t = b.chain[rng.below(b.chain.len())].clone();
        let issuer = b.keys[0].clone();
        let try_bytes = |rep: &mut Report, what: &'static str, input: &[u8], f: &dyn Fn(&[u8])| {
            let r = guard(|| f(input));
            rep.count(&format!("entry:{what}"), 1);
            rep.check(&(what, input), r.is_ok(), &format!("{what} panics"), || json!({"entry": what, "input": hex(input), "panic": r.as_ref().err()}));
        };
        let pkf: &dyn Fn(&[u8]) = &|b| {
            if let Ok(p) = PublicKey::decode(b) {
                use_pk(&p, &m, &sig);
            }
        };
        let sgf: &dyn Fn(&[u8]) = &|b| {
            if let Ok(s) = Signature::decode(b.to_vec()) {
                use_sig(&s, &pk, &m);
            }
        };
        let trf: &dyn Fn(&[u8]) = &|b| {
            if let Ok(t) = Trust::decode(b) {
                use_trust(&t, &pk);
            }
        };
        let cef: &dyn Fn(&[u8]) = &|b| {
            if let Ok(c) = Certificate::decode(b) {
                use_cert(&c, &pk, &issuer);
            }
        };
        if case == 0 {
            // the shortest inputs, all of them
            for what in 0..4 {
                for n in 0..3usize {
                    for x in 0..if n == 0 { 1 } else { 256usize } {
                        let v: Vec<u8> = match n {
                            0 => vec![],
                            1 => vec![x as u8],
                            _ => vec![x as u8, rng.u64() as u8],
                        };
                        match what {
                            0 => try_bytes(rep, "PublicKey::decode", &v, pkf),
                            1 => try_bytes(rep, "Signature::decode", &v, sgf),
                            2 => try_bytes(rep, "Trust::decode", &v, trf),
                            _ => try_bytes(rep, "Certificate::decode", &v, cef),
                        }
                    }
                }
            }
            // documents cut or extended at every place
            for (what, e, f) in [("PublicKey::decode", pk.encode(), pkf), ("Signature::decode", sig.encode(), sgf), ("Trust::decode", t.encode(), trf), ("Certificate::decode", cert.encode(), cef)] {
                for n in 0..=e.len() {
                    try_bytes(rep, what, &e[..n], f);
                }
                for n in 1..40 {
                    let mut x = e.clone();
                    x.extend(rng.bytes(n));
                    try_bytes(rep, what, &x, f);
                }
                // every length-like byte at its extremes
                for i in 0..e.len().min(400) {
                    for v in [0u8, 1, 255, e[i].wrapping_add(1), e[i].wrapping_sub(1)] {
                        let mut x = e.clone();
                        x[i] = v;
                        try_bytes(rep, what, &x, f);
                    }
                }
            }
        }
        for _ in 0..4 {
            try_bytes(rep, "PublicKey::decode", &mangle(&pk.encode(), rng), pkf);
            try_bytes(rep, "Signature::decode", &mangle(&sig.encode(), rng), sgf);
            try_bytes(rep, "Trust::decode", &mangle(&t.encode(), rng), trf);
            try_bytes(rep, "Certificate::decode", &mangle(&cert.encode(), rng), cef);
        }
        for f in ALL_FORMATS {
            let base = match rng.below(3) {
                0 => k.to_vec_or_empty(),
                1 => key(KeyFormat::Ed25519, rng).to_vec(),
                _ => key(KeyFormat::Secp256k1, rng).to_vec(),
            };
            let v = mangle(&base, rng);
            try_bytes(rep, "KeyPair::from_vec", &v, &|b| {
                if let Ok(k) = KeyPair::from_vec(b.to_vec(), f) {
                    let s = k.sign(&m).unwrap();
                    assert!(k.public().verify(&m, &s).is_ok(), "accepted key pair does not work");
                }
            });
            try_bytes(rep, "KeyPair::from_secret_key", &v, &|b| {
                if let Ok(k) = KeyPair::from_secret_key(b.to_vec(), f) {
                    let s = k.sign(&m).unwrap();
                    assert!(k.public().verify(&m, &s).is_ok(), "accepted key pair does not work");
                }
            });
        }
        let der = ec_private_der(&key(KeyFormat::Secp256k1, rng).to_vec(), rng);
        try_bytes(rep, "KeyPair::secp256k1_from_der", &mangle(&der, rng), &|b| {
            if let Ok(k) = KeyPair::secp256k1_from_der(&mut b.to_vec()) {
                let _ = k.sign(&m).unwrap();
            }
        });
        if rng.chance(1, 8) {
            let p8 = mangle(rng.clone().pick(RSA_PK8).1, rng);
            try_bytes(rep, "KeyPair::rsa_from_pkcs8", &p8, &|b| {
                if let Ok(k) = KeyPair::rsa_from_pkcs8(&mut b.to_vec()) {
                    let _ = k.sign(&m);
                }
            });
        }
        let tag = rng.u64() as u8;
        try_bytes(rep, "KeyFormat::try_from(u8)", &[tag], &|b| {
            assert_eq!(KeyFormat::try_from(b[0]).is_ok(), b[0] <= 2);
        });
        // serialised values
        for _ in 0..2 {
            try_bytes(rep, "msgpack public key", &mangle(&rmp_serde::to_vec(&pk).unwrap(), rng), &|b| {
                if let Ok(p) = rmp_serde::from_slice::<PublicKey>(b) {
                    use_pk(&p, &m, &sig);
                }
            });
            try_bytes(rep, "msgpack signature", &mangle(&rmp_serde::to_vec(&sig).unwrap(), rng), &|b| {
                if let Ok(s) = rmp_serde::from_slice::<Signature>(b) {
                    use_sig(&s, &pk, &m);
                }
            });
            try_bytes(rep, "msgpack trust", &mangle(&rmp_serde::to_vec(&t).unwrap(), rng), &|b| {
                if let Ok(t) = rmp_serde::from_slice::<Trust>(b) {
                    use_trust(&t, &pk);
                }
            });
            try_bytes(rep, "peer id bytes", &mangle(&pk.to_peer_id().to_bytes(), rng), &|b| {
                if let Ok(p) = libp2p_identity::PeerId::from_bytes(b) {
                    if let Ok(p) = PublicKey::try_from(p) {
                        use_pk(&p, &m, &sig);
                    }
                }
            });
        }
        let try_text = |rep: &mut Report, what: &'static str, input: &str, f: &dyn Fn(&str)| {
            let r = guard(|| f(input));
            rep.count(&format!("entry:{what}"), 1);
            rep.check(&(what, input), r.is_ok(), &format!("{what} panics"), || json!({"entry": what, "input": input, "panic": r.as_ref().err()}));
        };
        let b58 = bs58::encode(pk.encode()).into_string();
        for _ in 0..3 {
            let short = {
                let n = rng.below(3);
                bs58::encode(rng.bytes(n)).into_string()
            };
            for s in [mangle_text(&b58, rng), short] {
                try_text(rep, "PublicKey::from_base58", &s, &|s| {
                    if let Ok(p) = PublicKey::from_base58(s) {
                        use_pk(&p, &m, &sig);
                    }
                });
                try_text(rep, "PublicKeyHashable::from_str", &s, &|s| {
                    if let Ok(p) = PublicKeyHashable::from_str(s) {
                        use_pk(p.as_ref(), &m, &sig);
                    }
                });
                try_text(rep, "json hashable key", &serde_json::to_string(&s).unwrap(), &|s| {
                    if let Ok(p) = serde_json::from_str::<PublicKeyHashable>(s) {
                        use_pk(p.as_ref(), &m, &sig);
                    }
                });
            }
            let text = mangle_text(&cert.to_string(), rng);
            try_text(rep, "Certificate::from_str", &text, &|s| {
                if let Ok(c) = Certificate::from_str(s) {
                    use_cert(&c, &pk, &issuer);
                }
            });
            try_text(rep, "certificate list", &serde_json::to_string(&json!({"certs": [text]})).unwrap(), &|s| {
                if let Ok(w) = serde_json::from_str::<Wrap>(s) {
                    for c in w.certs {
                        use_cert(&c, &pk, &issuer);
                    }
                }
            });
            let ts = mangle_text(&t.to_string(), rng);
            try_text(rep, "Trust::convert_from_strings", &ts, &|s| {
                let mut l: Vec<&str> = s.lines().collect();
                l.resize(4, "");
                if let Ok(t) = Trust::convert_from_strings(l[0], l[1], l[2], l[3]) {
                    use_trust(&t, &pk);
                }
            });
            try_text(rep, "json trust", &mangle_text(&serde_json::to_string_pretty(&t).unwrap(), rng), &|s| {
                if let Ok(t) = serde_json::from_str::<Trust>(s) {
                    use_trust(&t, &pk);
                }
            });
            try_text(rep, "json revocation", &mangle_text(&serde_json::to_string_pretty(&Revocation::create(&issuer, pk.clone(), secs(7))).unwrap(), rng), &|s| {
                if let Ok(r) = serde_json::from_str::<Revocation>(s) {
                    let _ = Revocation::verify(&r);
                    let _ = format!("{r:?}");
                }
            });
            try_text(rep, "KeyFormat::from_str", &mangle_text("ed25519", rng), &|s| {
                let _ = KeyFormat::from_str(s);
            });
        }
        // certificates nobody should hand over, but anybody can
        let odd = match rng.below(4) {
            0 => Certificate::new_unverified(vec![]),
            1 => Certificate::new_unverified(vec![t.clone()]),
            _ => Certificate::new_unverified(vec![t.clone(), t.clone()]),
        };
        let r = guard(|| use_cert(&odd, &pk, &issuer));
        rep.check(&("odd certificate", odd.chain.len(), raw(&t.signature)), r.is_ok(), "an unverified certificate makes its user panic", || json!({"chain": show_chain(&odd.chain), "panic": r.as_ref().err()}));
        rep.sample(|| json!({"certificate text": mangle_text(&cert.to_string(), &mut rng.clone())}));
    });
    r.merge(malformed(ctx, only));
    r.merge(crate::props_s::t06_service(ctx, only));
    r
}

/// input that is malformed by the definition of its format: refused, every time
fn malformed(ctx: &Ctx, only: &Only) -> Report {
    par_cases(ctx, "malformed input", ctx.n(1500, 40000), only, |rep, rng, _| {
        let refuse = |rep: &mut Report, entry: &'static str, why: &str, input: &[u8], f: &dyn Fn(&[u8]) -> bool| {
            let got = guard(|| f(input));
            rep.count(&format!("refusals expected: {entry}"), 1);
            rep.check(&(entry, input), got == Ok(false), &format!("{entry} accepts malformed input"), || json!({"entry": entry, "why": why, "input": hex(input), "text": String::from_utf8_lossy(input), "got": format!("{got:?}")}));
        };
        let b = build(rng, 4);
        let t = b.chain[rng.below(b.chain.len())].clone();
        let cert = Certificate::new_unverified(if b.chain.len() > 1 { b.chain.clone() } else { vec![t.clone(), t.clone()] });
        // a document whose lengths need more than their one byte cannot be written down anyway (T05)
        let fits = |t: &Trust| t.issued_for.encode().len() < 256 && t.signature.encode().len() < 256 && t.encode().len() < 256;
        let cut = |e: &[u8], rng: &mut Rng| e[..rng.below(e.len())].to_vec();
        let more = |e: &[u8], rng: &mut Rng| {
            let n = 1 + rng.below(40);
            [e.to_vec(), rng.bytes(n)].concat()
        };
        let tr = |b: &[u8]| Trust::decode(b).is_ok();
        let ce = |b: &[u8]| Certificate::decode(b).is_ok();
        let pk = |b: &[u8]| PublicKey::decode(b).is_ok();
        let sg = |b: &[u8]| Signature::decode(b.to_vec()).is_ok();
        if fits(&t) {
            let e = t.encode();
            refuse(rep, "Trust::decode", "cut", &cut(&e, rng), &tr);
            refuse(rep, "Trust::decode", "extended", &more(&e, rng), &tr);
            refuse(rep, "Trust::decode", "a byte more", &[e.clone(), vec![0]].concat(), &tr);
        }
        if cert.chain.iter().all(fits) {
            let e = cert.encode();
            refuse(rep, "Certificate::decode", "cut", &cut(&e, rng), &ce);
            refuse(rep, "Certificate::decode", "extended", &more(&e, rng), &ce);
            let mut x = e.clone();
            x[6] = x[6].saturating_add(1 + rng.below(200) as u8);
            refuse(rep, "Certificate::decode", "more trusts announced", &x, &ce);
            x[6] = rng.below(2) as u8;
            refuse(rep, "Certificate::decode", "no certificate of fewer than two trusts", &x, &ce);
            x[6] = e[6] - 1;
            refuse(rep, "Certificate::decode", "fewer trusts announced", &x, &ce);
        }
        let k = key(*rng.pick(&[KeyFormat::Ed25519, KeyFormat::Secp256k1]), rng);
        let e = k.public().encode();
        refuse(rep, "PublicKey::decode", "cut", &cut(&e, rng), &pk);
        refuse(rep, "PublicKey::decode", "extended", &more(&e, rng), &pk);
        refuse(rep, "PublicKey::decode", "a byte more", &[e.clone(), vec![0]].concat(), &pk);
        let mut x = e.clone();
        x[0] = 3 + rng.below(253) as u8;
        refuse(rep, "PublicKey::decode", "unknown type", &x, &pk);
        refuse(rep, "Signature::decode", "unknown type", &[&x[..1], &raw(&t.signature)[..]].concat(), &sg);
        refuse(rep, "Signature::decode", "nothing", &[], &sg);
        x[0] = 2 - e[0];
        refuse(rep, "PublicKey::decode", "another type's length", &x, &pk);
        if k.key_format() == KeyFormat::Secp256k1 {
            let mut x = e.clone();
            x[1] = *rng.pick(&[0, 1, 4, 6, 7, 255]);
            refuse(rep, "PublicKey::decode", "no compressed point", &x, &pk);
        }
        // text
        let t58 = |b: &[u8]| bs58::encode(b).into_string();
        let tk = |b: &[u8]| PublicKey::from_base58(std::str::from_utf8(b).unwrap()).is_ok();
        let th = |b: &[u8]| PublicKeyHashable::from_str(std::str::from_utf8(b).unwrap()).is_ok();
        let tj = |b: &[u8]| serde_json::from_str::<PublicKeyHashable>(&serde_json::to_string(std::str::from_utf8(b).unwrap()).unwrap()).is_ok();
        let good = t58(&e);
        let i = rng.below(good.len() + 1);
        let mut bads = vec![("empty", String::new()), ("cut key", t58(&cut(&e, rng))), ("extended key", t58(&more(&e, rng)))];
        for c in ["0", "O", "I", "l", " ", "\n", "é", "-", "\u{0}"] {
            if rng.chance(1, 3) {
                bads.push(("no base58", format!("{}{c}{}", &good[..i], &good[i..])));
            }
        }
        for (why, s) in &bads {
            refuse(rep, "PublicKey::from_base58", why, s.as_bytes(), &tk);
            refuse(rep, "PublicKeyHashable::from_str", why, s.as_bytes(), &th);
            refuse(rep, "json hashable key", why, s.as_bytes(), &tj);
        }
        let tc = |b: &[u8]| Certificate::from_str(std::str::from_utf8(b).unwrap()).is_ok();
        let tt = |b: &[u8]| {
            let mut l: Vec<&str> = std::str::from_utf8(b).unwrap().lines().collect();
            l.resize(4, "");
            Trust::convert_from_strings(l[0], l[1], l[2], l[3]).is_ok()
        };
        let text = cert.to_string();
        let lines: Vec<&str> = text.lines().collect();
        let mut l = lines.clone();
        l.remove(rng.below(l.len()));
        refuse(rep, "Certificate::from_str", "a line less", l.join("\n").as_bytes(), &tc);
        let mut l = lines.clone();
        let at = rng.below(l.len());
        l.insert(at, lines[rng.below(lines.len())]);
        refuse(rep, "Certificate::from_str", "a line more", l.join("\n").as_bytes(), &tc);
        let mut l = lines.clone();
        let at = rng.below(l.len());
        l.insert(at, "");
        refuse(rep, "Certificate::from_str", "an empty line", l.join("\n").as_bytes(), &tc);
        refuse(rep, "Certificate::from_str", "cut", lines[..rng.below(2)].join("\n").as_bytes(), &tc);
        for _ in 0..2 {
            let mut l: Vec<String> = lines.iter().map(|x| x.to_string()).collect();
            let mut one: Vec<String> = t.to_string().lines().map(String::from).collect();
            let field = rng.below(4);
            let bad = match field {
                0 if rng.chance(1, 2) => rng.pick(&bads).1.replace('\n', "~"),
                0 => t58(&[&[3 + rng.below(253) as u8], &e[1..]].concat()),
                1 => rng.pick(&["0", "", "l", "5-5", "é", "zzzzzzzz"]).to_string(),
                _ => rng.pick(&["", "-1", "1.0", "0x10", "1e3", "18446744073709551616", "99999999999999999999999", "12a", " 5", "5 ", "five", "१"]).to_string(),
            };
            // "zzzzzzzz" is base58, of a signature type nobody knows
            let which = rng.below(cert.chain.len());
            l[2 + 4 * which + field] = bad.clone();
            one[field] = bad;
            refuse(rep, "Certificate::from_str", "a bad field", l.join("\n").as_bytes(), &tc);
            refuse(rep, "Trust::convert_from_strings", "a bad field", one.join("\n").as_bytes(), &tt);
        }
        let kf = |b: &[u8]| KeyFormat::from_str(std::str::from_utf8(b).unwrap()).is_ok();
        for n in ["", "Ed25519", "ED25519", "ed25519 ", " rsa", "RSA", "secp256k1\n", "secp256k", "secp256k11", "ed", "dsa", "0", "ed448", "ecdsa"] {
            refuse(rep, "KeyFormat::from_str", "no such type", n.as_bytes(), &kf);
        }
        // secrets
        for f in [KeyFormat::Ed25519, KeyFormat::Secp256k1] {
            let k = key(f, rng);
            let whole = k.to_vec();
            let secret = k.secret().unwrap();
            let fv = |b: &[u8]| KeyPair::from_vec(b.to_vec(), f).is_ok();
            let fs = |b: &[u8]| KeyPair::from_secret_key(b.to_vec(), f).is_ok();
            refuse(rep, "KeyPair::from_vec", "cut", &cut(&whole, rng), &fv);
            refuse(rep, "KeyPair::from_vec", "extended", &more(&whole, rng), &fv);
            refuse(rep, "KeyPair::from_secret_key", "cut", &cut(&secret, rng), &fs);
            refuse(rep, "KeyPair::from_secret_key", "extended", &more(&secret, rng), &fs);
            if f == KeyFormat::Ed25519 {
                let other = key(f, rng).to_vec();
                if other[32..] != whole[32..] {
                    refuse(rep, "KeyPair::from_vec", "another key's public half", &[&whole[..32], &other[32..]].concat(), &fv);
                }
            } else {
                for n in [vec![0; 32], vec![255; 32], hex_bytes("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"), hex_bytes("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364142")] {
                    refuse(rep, "KeyPair::from_secret_key", "out of range", &n, &fs);
                    refuse(rep, "KeyPair::from_vec", "out of range", &n, &fv);
                    let der = ec_private_der(&n, rng);
                    refuse(rep, "KeyPair::secp256k1_from_der", "out of range", &der, &|b| KeyPair::secp256k1_from_der(&mut b.to_vec()).is_ok());
                }
                let der = ec_private_der(&secret, rng);
                refuse(rep, "KeyPair::secp256k1_from_der", "cut", &cut(&der, rng), &|b| KeyPair::secp256k1_from_der(&mut b.to_vec()).is_ok());
            }
            refuse(rep, "KeyPair::from_vec", "no RSA pair has such a form", &whole, &|b| KeyPair::from_vec(b.to_vec(), KeyFormat::Rsa).is_ok());
            refuse(rep, "KeyPair::from_secret_key", "no RSA pair has such a form", &secret, &|b| KeyPair::from_secret_key(b.to_vec(), KeyFormat::Rsa).is_ok());
        }
        if rng.chance(1, 6) {
            let p8 = rng.clone().pick(RSA_PK8).1.to_vec();
            let r8 = |b: &[u8]| KeyPair::rsa_from_pkcs8(&mut b.to_vec()).is_ok();
            refuse(rep, "KeyPair::rsa_from_pkcs8", "cut", &cut(&p8, rng), &r8);
            refuse(rep, "KeyPair::rsa_from_pkcs8", "extended", &more(&p8, rng), &r8);
        }
        // binary serialisations
        let ms = rmp_serde::to_vec(&e_key(&k)).unwrap();
        refuse(rep, "msgpack public key", "cut", &cut(&ms, rng), &|b| rmp_serde::from_slice::<PublicKey>(b).is_ok());
        let ms = rmp_serde::to_vec(&t).unwrap();
        refuse(rep, "msgpack trust", "cut", &cut(&ms, rng), &|b| rmp_serde::from_slice::<Trust>(b).is_ok());
        let js = serde_json::to_string(&t).unwrap();
        refuse(rep, "json trust", "cut", &cut(js.as_bytes(), rng), &|b| serde_json::from_slice::<Trust>(b).is_ok());
        rep.sample(|| json!({"bad key texts": bads.iter().map(|b| b.1.clone()).collect::<Vec<_>>()}));
    })
}

fn e_key(k: &KeyPair) -> PublicKey {
    k.public()
}

fn hex_bytes(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

trait ToVecOrEmpty {
    fn to_vec_or_empty(&self) -> Vec<u8>;
}
impl ToVecOrEmpty for KeyPair {
    fn to_vec_or_empty(&self) -> Vec<u8> {
        match self.key_format() {
            KeyFormat::Rsa => vec![7; 64],
            _ => self.to_vec(),
        }
    }
}
