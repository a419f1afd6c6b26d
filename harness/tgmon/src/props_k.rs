//! K01..K05: keys, signatures, conversions.
use crate::common::*;
use fluence_keypair::{KeyFormat, KeyPair, PublicKey, Signature};
use sha2::{Digest, Sha256};
use serde_json::json;
use std::collections::HashMap;
use std::str::FromStr;
use trust_graph::PublicKeyHashable;

pub fn pick_format(rng: &mut Rng) -> KeyFormat {
    match rng.below(8) {
        0..=2 => KeyFormat::Ed25519,
        3..=5 => KeyFormat::Secp256k1,
        _ => KeyFormat::Rsa,
    }
}

fn some_key(f: KeyFormat, rng: &mut Rng) -> KeyPair {
    // mostly reproducible keys, sometimes the crate's own generator
    if rng.chance(1, 8) {
        match f {
            KeyFormat::Ed25519 => return KeyPair::generate_ed25519(),
            KeyFormat::Secp256k1 => return KeyPair::generate(KeyFormat::Secp256k1),
            _ => {}
        }
    }
    key(f, rng)
}

/// like `some_key`, now and then with an unusual secret
fn any_key(f: KeyFormat, rng: &mut Rng) -> KeyPair {
    if f != KeyFormat::Rsa && rng.chance(1, 5) {
        if let Ok(k) = KeyPair::from_secret_key(edge_secret(f, rng), f) {
            return k;
        }
    }
    some_key(f, rng)
}

pub fn message(rng: &mut Rng) -> Vec<u8> {
    let n = match rng.below(8) {
        0 => 0,
        1 => 1,
        2 => 32,
        3 => 64,
        4 => 31 + rng.below(4),
        5 => match rng.below(8) {
            0 => rng.below(1 << 18),
            1 => *rng.pick(&[255usize, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 16384, 65535, 65536, 65537]),
            2 => 4096 + rng.below(16384),
            _ => rng.below(4096),
        },
        _ => rng.below(128),
    };
    match rng.below(16) {
        // text, with blanks around it and in it
        0 => (0..n).map(|_| *rng.pick(b" \tabcXYZ019-_\r\n")).collect(),
        // zeroes around it
        1 => {
            let mut m = rng.bytes(n);
            let k = rng.below(n + 1);
            if rng.chance(1, 2) {
                m[k..].fill(0);
            } else {
                m[..k].fill(0);
            }
            m
        }
        // one byte over and over
        2 => vec![rng.bytes(1)[0]; n],
        _ => rng.bytes(n),
    }
}

/// messages that some way of preparing a message would take for this one
fn related(msg: &[u8], rng: &mut Rng) -> Vec<(&'static str, Vec<u8>)> {
    use sha2::Digest;
    let sha = |m: &[u8]| sha2::Sha256::digest(m).to_vec();
    let mut rev = msg.to_vec();
    rev.reverse();
    let (a, b) = msg.split_at(rng.below(msg.len() + 1));
    let strip = |m: &[u8], f: &dyn Fn(u8) -> bool| {
        let i = m.iter().position(|x| !f(*x)).unwrap_or(m.len());
        let j = m.iter().rposition(|x| !f(*x)).map_or(i, |j| j + 1);
        m[i..j].to_vec()
    };
    let with = |c: u8| [msg, &[c]].concat();
    let ahead = |c: u8| [&[c], msg].concat();
    let mut cut: Vec<(&'static str, Vec<u8>)> = [32usize, 64, 128, 256, 512, 1024, 4096, 65536].iter().filter(|n| msg.len() > **n).map(|n| ("start of the message", msg[..*n].to_vec())).collect();
    for n in [32usize, 64, 128, 256, 1024, 4096, 65536] {
        if msg.len() > n {
            let mut m = msg.to_vec();
            let i = n + rng.below(msg.len() - n);
            m[i] ^= 1 << rng.below(8);
            cut.push(("changed beyond the start", m));
            let mut m = msg.to_vec();
            m[rng.below(msg.len() - n)] ^= 1 << rng.below(8);
            cut.push(("changed before the end", m));
        }
    }
    cut.extend([
        ("hash of the message", sha(msg)),
        ("hash of the hash", sha(&sha(msg))),
        ("long hash of the message", sha2::Sha512::digest(msg).to_vec()),
        ("reversed message", rev),
        ("halves swapped", [b, a].concat()),
        ("message twice", [msg, msg].concat()),
        ("upper case", msg.to_ascii_uppercase()),
        ("lower case", msg.to_ascii_lowercase()),
        ("without blanks around", strip(msg, &|x| x.is_ascii_whitespace())),
        ("without zeroes around", strip(msg, &|x| x == 0)),
        ("hexadecimal", hex(msg).into_bytes()),
        ("base58", bs58::encode(&msg[..msg.len().min(256)]).into_string().into_bytes()),
        ("with a zero", with(0)),
        ("with a newline", with(b'\n')),
        ("zero ahead", ahead(0)),
        ("length ahead", ahead(msg.len() as u8)),
        ("without carriage returns", msg.iter().copied().filter(|x| *x != b'\r').collect()),
        ("seven bits", msg.iter().map(|x| x & 0x7f).collect()),
        ("sorted bytes", {
            let mut m = msg.to_vec();
            m.sort();
            m
        }),
    ]);
    cut
}

/// (r, s) of a DER ECDSA signature, read leniently: two byte strings that mean
/// the same pair of numbers are the same signature
fn der_rs(b: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    fn int(b: &[u8]) -> Option<(Vec<u8>, &[u8])> {
        if b.len() < 2 || b[0] != 2 {
            return None;
        }
        let n = b[1] as usize;
        if b.len() < 2 + n {
            return None;
        }
        let v: Vec<u8> = b[2..2 + n].iter().copied().skip_while(|x| *x == 0).collect();
        Some((v, &b[2 + n..]))
    }
    if b.len() < 2 || b[0] != 0x30 {
        return None;
    }
    let (r, rest) = int(&b[2..])?;
    let (s, _) = int(rest)?;
    Some((r, s))
}

fn der_sig(r: &[u8], s: &[u8]) -> Vec<u8> {
    fn int(v: &[u8]) -> Vec<u8> {
        let mut v: Vec<u8> = v.iter().copied().skip_while(|x| *x == 0).collect();
        if v.is_empty() || v[0] & 0x80 != 0 {
            v.insert(0, 0);
        }
        let mut o = vec![2, v.len() as u8];
        o.extend(v);
        o
    }
    let mut body = int(r);
    body.extend(int(s));
    let mut o = vec![0x30, body.len() as u8];
    o.extend(body);
    o
}

pub fn sig_mutations(f: KeyFormat, sig: &[u8], rng: &mut Rng) -> Vec<(&'static str, Vec<u8>)> {
    let mut out: Vec<(&'static str, Vec<u8>)> = vec![];
    for _ in 0..4 {
        let mut s = sig.to_vec();
        let i = rng.below(s.len());
        s[i] ^= 1 << rng.below(8);
        out.push(("bit flip", s));
    }
    let mut s = sig.to_vec();
    let i = s.len() - 1;
    s[i] ^= 1;
    out.push(("last byte", s));
    let mut s = sig.to_vec();
    s[0] ^= 0x80;
    out.push(("first byte", s));
    out.push(("truncated", sig[..rng.below(sig.len())].to_vec()));
    out.push(("truncated by one", sig[..sig.len() - 1].to_vec()));
    let mut s = sig.to_vec();
    s.extend(rng.bytes(1 + rng.clone().below(4)));
    out.push(("extended", s));
    // the signature itself, with as much again before, behind or both
    let junk = rng.bytes(sig.len());
    out.push(("twice", [sig, sig].concat()));
    out.push(("behind as many other bytes", [&junk, sig].concat()));
    out.push(("before as many other bytes", [sig, &junk].concat()));
    out.push(("behind a few bytes", [&junk[..1 + rng.below(8)], sig].concat()));
    out.push(("zeroes", vec![0; sig.len()]));
    out.push(("ones", vec![0xff; sig.len()]));
    out.push(("empty", vec![]));
    out.push(("random", rng.bytes(sig.len())));
    let mut s = sig.to_vec();
    s.reverse();
    out.push(("reversed", s));
    match f {
        KeyFormat::Secp256k1 => {
            // well-formed DER of unrelated numbers
            out.push(("forged r,s", der_sig(&rng.bytes(32), &rng.bytes(32))));
            if let Some((r, s)) = der_rs(sig) {
                out.push(("forged s", der_sig(&r, &rng.bytes(32))));
                out.push(("forged r", der_sig(&rng.bytes(32), &s)));
                out.push(("swapped r,s", der_sig(&s, &r)));
                out.push(("zero s", der_sig(&r, &[0])));
                out.push(("zero r", der_sig(&[0], &s)));
                out.extend(der_variants(&r, &s, rng));
            }
        }
        KeyFormat::Ed25519 => {
            let mut s = sig[..32].to_vec();
            s.extend(rng.bytes(31));
            s.push(0);
            out.push(("forged S", s));
            let mut s = rng.bytes(32);
            s.extend(&sig[32..]);
            out.push(("forged R", s));
            let mut s = sig[32..].to_vec();
            s.extend(&sig[..32]);
            out.push(("swapped halves", s));
        }
        KeyFormat::Rsa => {}
    }
    out.retain(|(_, m)| m != sig);
    out
}

/// the same two numbers in encodings that are not the signature's: a
/// signature has exactly one DER form
fn der_variants(r: &[u8], s: &[u8], rng: &mut Rng) -> Vec<(&'static str, Vec<u8>)> {
    fn minimal(v: &[u8]) -> Vec<u8> {
        let mut v: Vec<u8> = v.iter().copied().skip_while(|x| *x == 0).collect();
        if v.is_empty() || v[0] & 0x80 != 0 {
            v.insert(0, 0);
        }
        v
    }
    fn tlv(tag: u8, v: &[u8], long: usize) -> Vec<u8> {
        let mut o = vec![tag];
        if long > 0 {
            o.push(0x80 | long as u8);
            o.extend(std::iter::repeat(0).take(long - 1));
        }
        o.push(v.len() as u8);
        o.extend(v);
        o
    }
    let (r, s) = (minimal(r), minimal(s));
    let plain = [tlv(2, &r, 0), tlv(2, &s, 0)].concat();
    let pad = |v: &[u8], n: usize| [vec![0; n], v.to_vec()].concat();
    let n = 1 + rng.below(3);
    let mut out = vec![
        ("padded r", tlv(0x30, &[tlv(2, &pad(&r, n), 0), tlv(2, &s, 0)].concat(), 0)),
        ("padded s", tlv(0x30, &[tlv(2, &r, 0), tlv(2, &pad(&s, n), 0)].concat(), 0)),
        ("long form length", tlv(0x30, &plain, n)),
        ("long form length of r", tlv(0x30, &[tlv(2, &r, n), tlv(2, &s, 0)].concat(), 0)),
        ("long form length of s", tlv(0x30, &[tlv(2, &r, 0), tlv(2, &s, n)].concat(), 0)),
        ("trailing bytes", [tlv(0x30, &plain, 0), rng.bytes(n)].concat()),
        ("trailing bytes inside", tlv(0x30, &[plain.clone(), rng.bytes(n)].concat(), 0)),
        ("set instead of sequence", tlv(0x31, &plain, 0)),
    ];
    let mut w = tlv(0x30, &plain, 0);
    w[1] = w[1].wrapping_add(1 + rng.below(200) as u8);
    out.push(("wrong total length", w));
    if r[0] == 0 && r.len() > 1 {
        out.push(("negative r", tlv(0x30, &[tlv(2, &r[1..], 0), tlv(2, &s, 0)].concat(), 0)));
    }
    if s[0] == 0 && s.len() > 1 {
        out.push(("negative s", tlv(0x30, &[tlv(2, &r, 0), tlv(2, &s[1..], 0)].concat(), 0)));
    }
    out
}

/// secrets at the edges of what a key can be: runs of zeroes or ones, small
/// numbers, single bits, the last valid numbers of the curve
pub fn edge_secret(f: KeyFormat, rng: &mut Rng) -> Vec<u8> {
    const ORDER: [u8; 32] = [
        0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36,
        0x41, 0x41,
    ];
    loop {
        let mut b = rng.bytes(32);
        match rng.below(7) {
            0 => b[..1 + rng.below(31)].fill(0),
            1 => {
                let n = rng.below(31) + 1;
                b[n..].fill(0)
            }
            2 => {
                let (n, l) = (rng.below(32), 1 + rng.below(8));
                b[n..(n + l).min(32)].fill(0)
            }
            3 => {
                b.fill(0);
                b[rng.below(32)] = 1 << rng.below(8);
            }
            4 => {
                b = ORDER.to_vec();
                b[31] -= 1 + rng.below(0x40) as u8;
            }
            5 => b[..1 + rng.below(12)].fill(0xff),
            _ => {
                let c = b[0];
                b.fill(c)
            }
        }
        let zero = b.iter().all(|x| *x == 0);
        if f == KeyFormat::Ed25519 || (!zero && b[..] < ORDER[..]) {
            return b;
        }
    }
}

pub fn k01(ctx: &Ctx, only: &Only) -> Report {
    let mut r = par_cases(ctx, "sign-verify", ctx.n(3000, 60000), only, |rep, rng, _| {
        let f = pick_format(rng);
        let k = any_key(f, rng);
        let msg = message(rng);
        let sig = match guard(|| k.sign(&msg)) {
            Ok(Ok(s)) => s,
            e => {
                rep.violation("signing failed", json!({"type": fmt_name(f), "msg": hex(&msg), "result": format!("{:?}", e.map(|r| r.is_ok()))}));
                return;
            }
        };
        let pk = k.public();
        let bytes = sig.to_vec().to_vec();
        rep.count(&format!("signatures:{}", fmt_name(f)), 1);
        rep.sample(|| json!({"type": fmt_name(f), "key": hex(&pk.encode()), "msg": hex(&msg), "sig": hex(&bytes)}));
        let info = |what: &str, v: &PublicKey, m: &[u8], s: &[u8]| json!({"what": what, "signer": fmt_name(f), "signer_pk": hex(&pk.encode()), "verifier": hex(&v.encode()), "signed_msg": hex(&msg), "msg": hex(m), "signed_sig": hex(&bytes), "sig": hex(s)});
        if sig.get_signature_type() != f {
            rep.violation("signature has another type than its key", info("type", &pk, &msg, &bytes));
        }
        // completeness
        for (what, r) in [
            ("public.verify", guard(|| pk.verify(&msg, &sig).is_ok())),
            ("KeyPair::verify", guard(|| KeyPair::verify(&pk, &msg, &sig).is_ok())),
            ("decoded key and signature", guard(|| {
                let pk = PublicKey::decode(&pk.encode()).unwrap();
                let sig = Signature::decode(sig.encode()).unwrap();
                pk.verify(&msg, &sig).is_ok()
            })),
            ("clone of the pair", guard(|| k.clone().public().verify(&msg, &sig).is_ok())),
        ] {
            rep.check(&(&bytes, what), r == Ok(true), "genuine signature refused", || info(what, &pk, &msg, &bytes));
        }
        // the functions of the key's own type, reached through the public variants
        match (&k, &pk) {
            (KeyPair::Secp256k1(kp), PublicKey::Secp256k1(p)) => {
                let h = Sha256::digest(&msg).to_vec();
                let mut h2 = h.clone();
                h2[rng.below(32)] ^= 1 << rng.below(8);
                let wrong = guard(|| {
                    let sh = kp.secret().sign_hashed(&h).unwrap();
                    let so = kp.secret().sign_hashed(&h2).unwrap();
                    let mut bad = vec![];
                    for (what, ok) in [
                        ("signature of the hash, by the hash", p.verify_hashed(&h, &sh).is_ok()),
                        ("signature of the hash, by the message", p.verify(&msg, &sh).is_ok()),
                        ("signature of the message, by the hash", p.verify_hashed(&h, &bytes).is_ok()),
                        ("signature of the other hash", p.verify_hashed(&h2, &so).is_ok()),
                        ("other hash", p.verify_hashed(&h2, &sh).is_err() && p.verify_hashed(&h2, &bytes).is_err()),
                        ("signature of the other hash, for this one", p.verify_hashed(&h, &so).is_err() && p.verify(&msg, &so).is_err()),
                        ("hash as message", p.verify(&h, &sh).is_err()),
                        ("hash of a wrong length", [&h[..31], &h[..0], &[&h[..], &[0]].concat()[..]].iter().all(|x| p.verify_hashed(x, &sh).is_err() && kp.secret().sign_hashed(x).is_err())),
                    ] {
                        if !ok {
                            bad.push(what);
                        }
                    }
                    bad
                });
                rep.count("hashed messages", 1);
                rep.check(&(&bytes, "hashed"), wrong == Ok(vec![]), "hashed message signed wrongly", || {
                    let mut i = info("hashed", &pk, &msg, &bytes);
                    i["wrong"] = json!(format!("{wrong:?}"));
                    i
                });
            }
            (KeyPair::Ed25519(kp), PublicKey::Ed25519(p)) => {
                let r = guard(|| {
                    let s = kp.sign(&msg).unwrap();
                    p.verify(&msg, &s).is_ok() && kp.public().verify(&msg, &bytes).is_ok() && s == bytes
                });
                rep.check(&(&bytes, "own type"), r == Ok(true), "genuine signature refused", || info("own type", &pk, &msg, &bytes));
            }
            (KeyPair::Rsa(kp), PublicKey::Rsa(p)) => {
                let r = guard(|| {
                    let s = kp.sign(&msg).unwrap();
                    p.verify(&msg, &s).is_ok() && kp.public().verify(&msg, &bytes).is_ok()
                });
                rep.check(&(&bytes, "own type"), r == Ok(true), "genuine signature refused", || info("own type", &pk, &msg, &bytes));
            }
            _ => rep.violation("key pair and public key are of different types", info("type", &pk, &msg, &bytes)),
        }
        let must_fail = |rep: &mut Report, what: &str, v: &PublicKey, m: &[u8], s: Vec<u8>, sf: KeyFormat| {
            let sg = Signature::from_bytes(sf, s.clone());
            let a = guard(|| v.verify(m, &sg).is_ok());
            let b = guard(|| KeyPair::verify(v, m, &sg).is_ok());
            rep.count("refusals expected", 1);
            rep.check(&(what, &s, m, v.encode()), a == Ok(false) && b == Ok(false), "forged signature accepted", || {
                let mut i = info(what, v, m, &s);
                i["result"] = json!(format!("{a:?} {b:?}"));
                i
            });
        };
        // other messages
        let mut msgs: Vec<(&str, Vec<u8>)> = vec![("empty message", vec![]), ("random message", rng.bytes(32))];
        let mut m = msg.clone();
        m.push(0);
        msgs.push(("extended message", m));
        if !msg.is_empty() {
            msgs.push(("truncated message", msg[..msg.len() - 1].to_vec()));
            for _ in 0..3 {
                let mut m = msg.clone();
                let i = rng.below(m.len());
                m[i] ^= 1 << rng.below(8);
                msgs.push(("flipped message", m));
            }
            let mut m = msg.clone();
            let l = m.len() - 1;
            m[l] ^= 0x80;
            msgs.push(("flipped last byte of message", m));
        }
        msgs.extend(related(&msg, rng));
        for (w, m) in msgs {
            if m != msg {
                must_fail(rep, w, &pk, &m, bytes.clone(), f);
            }
        }
        // other keys
        for of in ALL_FORMATS {
            let other = key(of, rng).public();
            if pk_id(&other) != pk_id(&pk) {
                must_fail(rep, "other key", &other, &msg, bytes.clone(), f);
                if of == f {
                    // a signature of the same message by somebody else
                } else {
                    must_fail(rep, "other key, relabelled signature", &other, &msg, bytes.clone(), of);
                }
            }
        }
        let rival = key(f, rng);
        if pk_id(&rival.public()) != pk_id(&pk) {
            let rs = rival.sign(&msg).unwrap();
            must_fail(rep, "somebody else's signature", &pk, &msg, rs.to_vec().to_vec(), f);
        }
        // other signatures
        let m2 = {
            let mut m = msg.clone();
            m.push(7);
            m
        };
        let s2 = k.sign(&m2).unwrap();
        must_fail(rep, "signature of another message", &pk, &msg, s2.to_vec().to_vec(), f);
        for (w, s) in sig_mutations(f, &bytes, rng) {
            must_fail(rep, w, &pk, &msg, s, f);
        }
    });
    // beyond what a message is expected to be
    r.merge(par_cases(ctx, "very long messages", ctx.n(9, 60), only, |rep, rng, case| {
        let f = ALL_FORMATS[case as usize % 3];
        let k = some_key(f, rng);
        let pk = k.public();
        let near = *rng.pick(&[1usize << 19, 1 << 20, 1 << 21, 1 << 22]);
        let mut msg = rng.bytes(4096).repeat(near / 4096);
        msg.extend(rng.bytes(1 + rng.clone().below(40)));
        rep.count("very long messages", 1);
        let ok = guard(|| {
            let sig = k.sign(&msg).unwrap();
            let mut bad = vec![];
            if pk.verify(&msg, &sig).is_err() {
                bad.push("genuine signature refused");
            }
            let n = msg.len();
            let mut m = msg.clone();
            for (what, i) in [("last byte", n - 1), ("first byte", 0), ("byte at a power of two", near - 1), ("some byte", rng.below(n))] {
                m[i] ^= 1;
                if pk.verify(&m, &sig).is_ok() {
                    bad.push(what);
                }
                m[i] ^= 1;
            }
            for (what, part) in [("beginning", &msg[..near]), ("half", &msg[..n / 2]), ("end", &msg[n - near..]), ("all but one byte", &msg[..n - 1])] {
                if pk.verify(part, &sig).is_ok() {
                    bad.push(what);
                }
            }
            bad
        });
        rep.check(&(f as u8, &msg[near..], near), ok == Ok(vec![]), "long message signed wrongly", || json!({"type": fmt_name(f), "length": msg.len(), "wrong": format!("{ok:?}")}));
    }));
    r
}

// ---------------------------------------------------------------- K02

/// DER ECPrivateKey (RFC 5915) around a secret key
pub fn ec_private_der(secret: &[u8], rng: &mut Rng) -> Vec<u8> {
    let mut body = vec![2, 1, 1, 4, secret.len() as u8];
    body.extend(secret);
    if rng.chance(1, 2) {
        // [0] parameters: OID secp256k1
        body.extend([0xa0, 0x07, 0x06, 0x05, 0x2b, 0x81, 0x04, 0x00, 0x0a]);
    }
    if rng.chance(1, 2) {
        // [1] publicKey: a bit string with the uncompressed point
        if let Ok(KeyPair::Secp256k1(k)) = KeyPair::from_secret_key(secret.to_vec(), KeyFormat::Secp256k1) {
            body.extend([0xa1, 0x44, 0x03, 0x42, 0x00]);
            body.extend(k.public().encode_uncompressed());
        }
    }
    let mut o = vec![0x30];
    if body.len() > 127 {
        o.push(0x81);
    }
    o.push(body.len() as u8);
    o.extend(body);
    o
}

fn interchangeable(a: &KeyPair, b: &KeyPair, rng: &mut Rng) -> Result<bool, String> {
    let m = message(rng);
    guard(|| {
        pk_id(&a.public()) == pk_id(&b.public())
            && a.public() == b.public()
            && a.key_format() == b.key_format()
            && a.public().verify(&m, &b.sign(&m).unwrap()).is_ok()
            && b.public().verify(&m, &a.sign(&m).unwrap()).is_ok()
            && a.get_peer_id() == b.get_peer_id()
    })
}

pub fn k02(ctx: &Ctx, only: &Only) -> Report {
    par_cases(ctx, "key-round-trips", ctx.n(3000, 60000), only, |rep, rng, _| {
        let f = pick_format(rng);
        let k = any_key(f, rng);
        let pk = k.public();
        let id = pk_id(&pk);
        let msg = message(rng);
        let sig = k.sign(&msg).unwrap();
        rep.count(&format!("keys:{}", fmt_name(f)), 1);
        rep.sample(|| json!({"type": fmt_name(f), "public": hex(&pk.encode()), "signature": hex(&sig.encode())}));
        let fp = (id.clone(), sig.to_vec().to_vec());
        macro_rules! rt {
            ($name:expr, $e:expr) => {{
                let r = guard(|| $e);
                rep.check(&(&fp, $name), r == Ok(true), concat!("round trip: ", $name), || json!({"type": fmt_name(f), "public": hex(&pk.encode()), "sig": hex(&sig.encode()), "result": format!("{r:?}")}));
            }};
        }
        let same_pk = |d: &PublicKey| d == &pk && pk_id(d) == id && d.get_key_format() == f && d.verify(&msg, &sig).is_ok();
        let same_sig = |d: &Signature| d == &sig && d.to_vec() == sig.to_vec() && d.get_signature_type() == f && pk.verify(&msg, d).is_ok();
        rt!("public key bytes", PublicKey::decode(&pk.encode()).map_or(false, |d| same_pk(&d)));
        rt!("public key base58", PublicKey::from_base58(&bs58::encode(pk.encode()).into_string()).map_or(false, |d| same_pk(&d)));
        rt!("public key json", same_pk(&serde_json::from_str(&serde_json::to_string(&pk).unwrap()).unwrap()));
        rt!("public key msgpack", same_pk(&rmp_serde::from_slice(&rmp_serde::to_vec(&pk).unwrap()).unwrap()));
        rt!("public key bincode", same_pk(&bincode::deserialize(&bincode::serialize(&pk).unwrap()).unwrap()));
        // forms other programs read: uncompressed points and X.509
        match &pk {
            PublicKey::Secp256k1(p) => {
                rt!("uncompressed point", {
                    let (c, u) = (p.encode(), p.encode_uncompressed());
                    let l = libp2p_identity::secp256k1::PublicKey::try_from_bytes(&c).unwrap();
                    c[..] == id.1[..] && u[0] == 4 && u[1..33] == c[1..] && c[0] == 2 + (u[64] & 1) && l.to_bytes_uncompressed() == u
                });
            }
            PublicKey::Rsa(p) => {
                rt!("x509", {
                    let n = id.1.len();
                    let (bits, all) = (n + 1, n + 1 + 4 + 15);
                    let mut o = vec![0x30, 0x82, (all >> 8) as u8, all as u8, 0x30, 0x0d, 6, 9, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1, 5, 0];
                    o.extend([3, 0x82, (bits >> 8) as u8, bits as u8, 0]);
                    o.extend(&id.1);
                    p.to_pkcs1() == &id.1[..] && p.encode_x509() == o
                });
            }
            PublicKey::Ed25519(p) => rt!("raw ed25519 key", p.encode()[..] == id.1[..]),
        }
        rt!("public key encoding is prefixed raw key", {
            let e = pk.encode();
            e[0] == id.0 && e[1..] == id.1[..]
        });
        rt!("signature bytes", Signature::decode(sig.encode()).map_or(false, |d| same_sig(&d)));
        rt!("signature raw and type", {
            let r = sig.get_raw_signature();
            r.sig_type == f && same_sig(&Signature::from_bytes(r.sig_type, r.bytes))
        });
        rt!("signature json", same_sig(&serde_json::from_str(&serde_json::to_string(&sig).unwrap()).unwrap()));
        rt!("signature msgpack", same_sig(&rmp_serde::from_slice(&rmp_serde::to_vec(&sig).unwrap()).unwrap()));
        rt!("signature bincode", same_sig(&bincode::deserialize(&bincode::serialize(&sig).unwrap()).unwrap()));
        rt!("signature encoding is prefixed raw signature", {
            let e = sig.encode();
            e[0] == id.0 && &e[1..] == sig.to_vec()
        });
        // what decodes is what it encodes to: no second encoding of a key is accepted
        let mut alien: Vec<Vec<u8>> = vec![pk.to_vec(), [&pk.encode()[..], &[0]].concat(), [&[id.0][..], &pk.encode()].concat()];
        if let PublicKey::Secp256k1(p) = &pk {
            let u = p.encode_uncompressed();
            alien.push([&[id.0][..], &u].concat());
            alien.push([&[id.0][..], &u[1..]].concat());
            alien.push([&[id.0, 6 + (u[64] & 1)][..], &u[1..]].concat());
        }
        if let PublicKey::Rsa(p) = &pk {
            alien.push([&[id.0][..], &p.encode_x509()].concat());
        }
        alien.push(libp2p_identity::PublicKey::from(pk.clone()).encode_protobuf());
        for _ in 0..6 {
            alien.push(crate::props_t::mangle(&pk.encode(), rng));
        }
        for b in &alien {
            rt!("only one encoding of a public key", {
                let t = bs58::encode(b).into_string();
                PublicKey::decode(b).map_or(true, |d| d.encode() == *b) && PublicKey::from_base58(&t).map_or(true, |d| bs58::encode(d.encode()).into_string() == t)
            });
        }
        for t in [format!(" {}", bs58::encode(pk.encode()).into_string()), format!("{}\n", bs58::encode(pk.encode()).into_string()), format!("1{}", bs58::encode(pk.encode()).into_string()), format!("z{}", bs58::encode(pk.encode()).into_string()), String::new()] {
            rt!("only one text of a public key", PublicKey::from_base58(&t).map_or(true, |d| bs58::encode(d.encode()).into_string() == t));
        }
        for _ in 0..4 {
            let b = crate::props_t::mangle(&sig.encode(), rng);
            rt!("only one encoding of a signature", Signature::decode(b.clone()).map_or(true, |d| d.encode() == b));
        }
        // relabelled encodings keep their own type
        for of in ALL_FORMATS {
            let s2 = Signature::from_bytes(of, sig.to_vec().to_vec());
            rt!("signature type survives", {
                let d = Signature::decode(s2.encode()).unwrap();
                d == s2 && d.get_signature_type() == of && (of == f) == (s2 == sig)
            });
        }
        rt!("key format as text", KeyFormat::from_str(&String::from(f)).unwrap() == f && String::from(f) == fmt_name(f));
        rt!("key format as byte", KeyFormat::try_from(u8::from(f)).unwrap() == f && u8::from(f) == id.0);
        match f {
            KeyFormat::Rsa => {
                let i = rng.below(RSA_PK8.len());
                rt!("pkcs8 rsa secret key", {
                    let mut a = RSA_PK8[i].1.to_vec();
                    let mut b = RSA_PK8[i].1.to_vec();
                    let a = KeyPair::rsa_from_pkcs8(&mut a).unwrap();
                    let b = KeyPair::rsa_from_pkcs8(&mut b).unwrap();
                    interchangeable(&a, &b, &mut rng.clone()) == Ok(true)
                });
                rt!("rsa secret export is refused", k.secret().is_err() && KeyPair::from_vec(vec![1; 64], f).is_err() && KeyPair::from_secret_key(vec![1; 32], f).is_err());
            }
            _ => {
                let mut r2 = rng.clone();
                rt!("key pair bytes", interchangeable(&k, &KeyPair::from_vec(k.to_vec(), f).unwrap(), &mut r2) == Ok(true));
                rt!("secret key bytes", interchangeable(&k, &KeyPair::from_secret_key(k.secret().unwrap(), f).unwrap(), &mut r2) == Ok(true));
                rt!("key pair bytes twice", KeyPair::from_vec(k.to_vec(), f).unwrap().to_vec() == k.to_vec() && KeyPair::from_secret_key(k.secret().unwrap(), f).unwrap().secret().unwrap() == k.secret().unwrap());
                if f == KeyFormat::Secp256k1 {
                    rt!("der secp256k1 secret key", {
                        let mut der = ec_private_der(&k.secret().unwrap(), &mut r2);
                        interchangeable(&k, &KeyPair::secp256k1_from_der(&mut der).unwrap(), &mut r2) == Ok(true)
                    });
                } else {
                    rt!("ed25519 pair is secret then public", {
                        let v = k.to_vec();
                        v.len() == 64 && v[..32] == k.secret().unwrap()[..] && v[32..] == id.1[..]
                    });
                    // a pair whose public half belongs to another secret is not a key pair
                    let o = key(f, &mut r2);
                    rt!("mismatched ed25519 pair is refused", {
                        let mut v = k.to_vec();
                        v[32..].copy_from_slice(&o.public().to_vec());
                        pk_id(&o.public()) == id || KeyPair::from_vec(v, f).is_err()
                    });
                }
                // a given secret is the secret of the pair built from it, and the
                // public key is the one other implementations compute
                let raw = if r2.chance(2, 3) { edge_secret(f, &mut r2) } else { r2.bytes(32) };
                if let Some(reference) = public_of_secret(f, &raw) {
                    rt!("given secret key", {
                        let g = KeyPair::from_secret_key(raw.clone(), f).unwrap();
                        let v = KeyPair::from_vec(g.to_vec(), f).unwrap();
                        let d = match f {
                            KeyFormat::Secp256k1 => KeyPair::secp256k1_from_der(&mut ec_private_der(&raw, &mut r2)).unwrap(),
                            _ => g.clone(),
                        };
                        [g, v, d].iter().all(|x| x.secret().unwrap() == raw && x.public().to_vec() == reference && x.key_format() == f)
                    });
                    rep.count("given secrets", 1);
                }
                let wrong = if f == KeyFormat::Ed25519 { 31 } else { 33 };
                rt!("wrong length is refused", KeyPair::from_secret_key(vec![1; wrong], f).is_err() && KeyPair::from_vec(vec![1; wrong], f).is_err());
            }
        }
        // bytes of one kind of key, read as another kind: refused, or a key of the kind asked for
        if f != KeyFormat::Rsa {
            let mut long = k.to_vec();
            long.extend(rng.bytes(64));
            for of in ALL_FORMATS {
                for b in [k.to_vec(), k.secret().unwrap(), pk.encode(), pk.to_vec(), long[..64].to_vec(), long[..33].to_vec(), long[..65].to_vec()] {
                    rt!("kind of a key read from bytes", {
                        let v = KeyPair::from_vec(b.clone(), of);
                        let s = KeyPair::from_secret_key(b.clone(), of);
                        // a pair read from bytes is written as those bytes
                        [&v, &s].iter().all(|r| r.as_ref().map_or(true, |p| p.key_format() == of && p.public().get_key_format() == of))
                            && v.map_or(true, |p| p.to_vec() == b)
                            && s.map_or(true, |p| p.secret().unwrap() == b)
                    });
                }
            }
        }
        // a different key never has the same encoding
        let other = key(pick_format(rng), rng).public();
        if pk_id(&other) != id {
            rt!("different keys encode differently", other.encode() != pk.encode() && other != pk);
        }
    })
}

/// public key bytes of a secret as libp2p computes them
fn public_of_secret(f: KeyFormat, secret: &[u8]) -> Option<Vec<u8>> {
    use libp2p_identity as l;
    let mut b = secret.to_vec();
    match f {
        KeyFormat::Ed25519 => Some(l::Keypair::ed25519_from_bytes(&mut b).ok()?.public().try_into_ed25519().ok()?.to_bytes().to_vec()),
        KeyFormat::Secp256k1 => Some(l::secp256k1::Keypair::from(l::secp256k1::SecretKey::try_from_bytes(&mut b).ok()?).public().to_bytes().to_vec()),
        KeyFormat::Rsa => None,
    }
}

// ---------------------------------------------------------------- K03

pub fn k03(ctx: &Ctx, only: &Only) -> Report {
    use libp2p_identity as l;
    let n = if ctx.asan { ctx.n(400, 6000) } else { ctx.n(1500, 40000) };
    par_cases(ctx, "libp2p", n, only, |rep, rng, _| {
        let f = pick_format(rng);
        let k = any_key(f, rng);
        let pk = k.public();
        let id = pk_id(&pk);
        let msg = message(rng);
        rep.count(&format!("keys:{}", fmt_name(f)), 1);
        rep.sample(|| json!({"type": fmt_name(f), "public": hex(&pk.encode()), "peer": pk.to_peer_id().to_base58()}));
        let fp = (id.clone(), msg.clone());
        macro_rules! chk {
            ($name:expr, $e:expr) => {{
                let r = guard(|| $e);
                rep.check(&(&fp, $name), r == Ok(true), concat!("libp2p: ", $name), || json!({"type": fmt_name(f), "public": hex(&pk.encode()), "msg": hex(&msg), "result": format!("{r:?}")}));
            }};
        }
        // a random walk of conversions, clones, uses and drops of the two sides
        let mut ours: Vec<KeyPair> = vec![k.clone()];
        let mut theirs: Vec<l::Keypair> = vec![];
        let steps = 4 + rng.below(24);
        for _ in 0..steps {
            match rng.below(8) {
                0 | 1 if !ours.is_empty() => {
                    let i = rng.below(ours.len());
                    let x = if rng.chance(1, 2) && ours.len() > 1 { ours.swap_remove(i) } else { ours[i].clone() };
                    if let Ok(t) = guard(|| l::Keypair::from(x)) {
                        theirs.push(t);
                    } else {
                        chk!("conversion to libp2p", false);
                    }
                }
                2 | 3 if !theirs.is_empty() => {
                    let i = rng.below(theirs.len());
                    let x = if rng.chance(1, 2) { theirs.swap_remove(i) } else { theirs[i].clone() };
                    if let Ok(t) = guard(|| KeyPair::from(x)) {
                        ours.push(t);
                    } else {
                        chk!("conversion from libp2p", false);
                    }
                }
                4 if ours.len() > 1 => {
                    let i = rng.below(ours.len());
                    ours.swap_remove(i);
                }
                5 if !theirs.is_empty() => {
                    let i = rng.below(theirs.len());
                    theirs.swap_remove(i);
                }
                6 if !ours.is_empty() => {
                    let x = rng.pick(&ours).clone();
                    chk!("our signature with our key", pk_id(&x.public()) == id && pk.verify(&msg, &x.sign(&msg).unwrap()).is_ok());
                }
                _ if !theirs.is_empty() => {
                    let x = rng.pick(&theirs).clone();
                    chk!("their signature with our key", pk.verify(&msg, &Signature::from_bytes(f, x.sign(&msg).unwrap())).is_ok());
                }
                _ => {}
            }
            rep.count("conversion steps", 1);
        }
        // a reference libp2p key built without this crate's conversions
        let reference: Option<l::Keypair> = match f {
            KeyFormat::Ed25519 => l::Keypair::ed25519_from_bytes(k.secret().unwrap()).ok(),
            KeyFormat::Secp256k1 => l::secp256k1::SecretKey::try_from_bytes(k.secret().unwrap())
                .ok()
                .map(|s| l::Keypair::from(l::secp256k1::Keypair::from(s))),
            KeyFormat::Rsa => RSA_PK8.iter().find_map(|(_, b)| {
                let mut b = b.to_vec();
                let kp = l::rsa::Keypair::try_decode_pkcs8(&mut b).ok()?;
                let kp = l::Keypair::from(kp);
                let p = kp.public().try_into_rsa().ok()?;
                if p.encode_pkcs1() == id.1 {
                    Some(kp)
                } else {
                    None
                }
            }),
        };
        let lref = match reference {
            Some(r) => r,
            None => {
                rep.violation("libp2p: no libp2p key for a key", json!({"type": fmt_name(f), "public": hex(&pk.encode())}));
                return;
            }
        };
        theirs.push(lref.clone());
        chk!("key pair there", l::Keypair::from(k.clone()).public() == lref.public());
        chk!("key pair back", {
            let b = KeyPair::from(lref.clone());
            pk_id(&b.public()) == id && b.key_format() == f
        });
        chk!("key pair there and back", {
            let b = KeyPair::from(l::Keypair::from(k.clone()));
            pk_id(&b.public()) == id && b.public() == pk
        });
        chk!("public key there", l::PublicKey::from(pk.clone()) == lref.public());
        chk!("public key back", pk_id(&PublicKey::from(lref.public())) == id);
        chk!("our signature verifies with libp2p", lref.public().verify(&msg, k.sign(&msg).unwrap().to_vec()));
        chk!("libp2p signature verifies with us", pk.verify(&msg, &Signature::from_bytes(f, lref.sign(&msg).unwrap())).is_ok());
        chk!("signature of converted key verifies", lref.public().verify(&msg, &l::Keypair::from(k.clone()).sign(&msg).unwrap()));
        chk!("signature of back-converted key verifies", lref.public().verify(&msg, KeyPair::from(lref.clone()).sign(&msg).unwrap().to_vec()));
        chk!("libp2p refuses our signature for another message", {
            let mut m = msg.clone();
            m.push(1);
            !lref.public().verify(&m, k.sign(&msg).unwrap().to_vec())
        });
        let peer = lref.public().to_peer_id();
        chk!("same peer id", pk.to_peer_id() == peer && k.get_peer_id() == peer);
        let inlined = f != KeyFormat::Rsa;
        chk!("peer id to key", match PublicKey::try_from(peer) {
            Ok(p) => inlined && pk_id(&p) == id,
            Err(_) => !inlined,
        });
        chk!("peer id text to key", match PublicKey::try_from(l::PeerId::from_str(&peer.to_base58()).unwrap()) {
            Ok(p) => inlined && pk_id(&p) == id,
            Err(_) => !inlined,
        });
        chk!("random peer id is refused", PublicKey::try_from(l::PeerId::random()).is_err());
        #[derive(serde::Serialize, serde::Deserialize)]
        struct P(#[serde(with = "fluence_keypair::peerid_serializer")] l::PeerId);
        chk!("peer id serialised", {
            let j = serde_json::to_string(&P(peer)).unwrap();
            let b = rmp_serde::to_vec(&P(peer)).unwrap();
            j == format!("\"{}\"", peer.to_base58()) && serde_json::from_str::<P>(&j).unwrap().0 == peer && rmp_serde::from_slice::<P>(&b).unwrap().0 == peer
        });
        chk!("garbage peer id refused", serde_json::from_str::<P>("\"12D3Koo\"").is_err() && serde_json::from_str::<P>("\"\"").is_err());
        // everything that is left still works, then goes away in random order
        while !ours.is_empty() || !theirs.is_empty() {
            if !ours.is_empty() && (theirs.is_empty() || rng.chance(1, 2)) {
                let i = rng.below(ours.len());
                let x = ours.swap_remove(i);
                if rng.chance(1, 3) {
                    chk!("use before drop (ours)", pk.verify(&msg, &x.sign(&msg).unwrap()).is_ok());
                }
                drop(x);
            } else {
                let i = rng.below(theirs.len());
                let x = theirs.swap_remove(i);
                if rng.chance(1, 3) {
                    chk!("use before drop (theirs)", lref.public().verify(&msg, &x.sign(&msg).unwrap()));
                }
                drop(x);
            }
        }
        chk!("original survives", pk.verify(&msg, &k.sign(&msg).unwrap()).is_ok());
    })
}

// ---------------------------------------------------------------- K04

/// format a value for debugging or display if its type can be formatted at all
/// (autoref specialisation: the inherent-looking method wins when available)
pub struct Probe<'a, T>(pub &'a T);
pub trait NoDebug {
    fn dbg(&self) -> Option<String>;
}
impl<'a, T> NoDebug for &Probe<'a, T> {
    fn dbg(&self) -> Option<String> {
        None
    }
}
pub trait HasDebug {
    fn dbg(&self) -> Option<String>;
}
impl<'a, T: std::fmt::Debug> HasDebug for Probe<'a, T> {
    fn dbg(&self) -> Option<String> {
        Some(format!("{:?}\n{:#?}\n{:x?}\n{:X?}", self.0, self.0, self.0, self.0))
    }
}
pub trait NoDisplay {
    fn dsp(&self) -> Option<String>;
}
impl<'a, T> NoDisplay for &Probe<'a, T> {
    fn dsp(&self) -> Option<String> {
        None
    }
}
pub trait HasDisplay {
    fn dsp(&self) -> Option<String>;
}
impl<'a, T: std::fmt::Display> HasDisplay for Probe<'a, T> {
    fn dsp(&self) -> Option<String> {
        Some(format!("{}", self.0))
    }
}

/// the bytes a token of a text may stand for
fn readings(token: &str) -> Vec<Vec<u8>> {
    let mut r = vec![];
    if let Ok(v) = bs58::decode(token).into_vec() {
        r.push(v);
    }
    // base64, both alphabets, at each of the four alignments
    let six = |c: u8| match c {
        b'A'..=b'Z' => Some(c - b'A'),
        b'a'..=b'z' => Some(c - b'a' + 26),
        b'0'..=b'9' => Some(c - b'0' + 52),
        b'+' | b'-' => Some(62),
        b'/' | b'_' => Some(63),
        _ => None,
    };
    let vals: Option<Vec<u8>> = token.bytes().map(six).collect();
    if let Some(vals) = vals {
        for skip in 0..4usize.min(vals.len()) {
            let (mut acc, mut bits, mut out) = (0u32, 0, vec![]);
            for v in &vals[skip..] {
                acc = (acc << 6) | *v as u32;
                bits += 6;
                if bits >= 8 {
                    bits -= 8;
                    out.push((acc >> bits) as u8);
                    acc &= (1 << bits) - 1;
                }
            }
            r.push(out);
        }
    }
    r
}

/// does a text show four neighbouring bytes of the secret, in any usual notation?
fn leaks(text: &str, secret: &[u8]) -> Option<String> {
    let lower = text.to_lowercase();
    let squeezed: String = lower.chars().filter(|c| !c.is_whitespace()).collect();
    let mut backwards = secret.to_vec();
    backwards.reverse();
    for w in secret.windows(4).chain(backwards.windows(4)) {
        if w.iter().all(|x| *x == 0) || w.iter().all(|x| *x == 255) {
            continue;
        }
        let list = |f: &dyn Fn(&u8) -> String| w.iter().map(f).collect::<Vec<_>>().join(",");
        let word = u32::from_be_bytes([w[0], w[1], w[2], w[3]]);
        let long = |s: &String| s.len() >= 8;
        for c in [hex(w), list(&|x| format!("{x}")), list(&|x| format!("{x:x}")), list(&|x| format!("0x{x:x}")), list(&|x| format!("0x{x:02x}")), list(&|x| format!("{x:02x}")), list(&|x| format!("{x:02x}")).replace(',', ":")] {
            if long(&c) && squeezed.contains(c.as_str()) {
                return Some(c);
            }
        }
        let c = format!("{word}");
        if c.len() >= 9 && squeezed.contains(c.as_str()) {
            return Some(c);
        }
    }
    for w in secret.windows(8).chain(backwards.windows(8)) {
        let c = u64::from_be_bytes(w.try_into().unwrap()).to_string();
        if c.len() >= 16 && squeezed.contains(&c) {
            return Some(c);
        }
    }
    for token in text.split(|c: char| !(c.is_ascii_alphanumeric() || "+/-_".contains(c))).filter(|t| t.len() >= 6) {
        for r in readings(token) {
            if r.windows(4).any(|x| secret.windows(4).any(|w| w == x)) {
                return Some(token.to_string());
            }
        }
    }
    None
}

/// everything a key pair can be printed as
fn key_texts(k: &KeyPair) -> Vec<(&'static str, String)> {
    #[allow(unused_imports)]
    use self::{HasDebug, HasDisplay, NoDebug, NoDisplay};
    let mut texts: Vec<(&str, Option<String>)> = vec![];
    texts.push(("KeyPair", (&Probe(k)).dbg()));
    texts.push(("KeyPair display", (&Probe(k)).dsp()));
    match k {
        KeyPair::Ed25519(p) => {
            texts.push(("ed25519 pair", (&Probe(p)).dbg()));
            texts.push(("ed25519 pair display", (&Probe(p)).dsp()));
            let s = p.secret();
            texts.push(("ed25519 secret", (&Probe(&s)).dbg()));
            texts.push(("ed25519 secret display", (&Probe(&s)).dsp()));
        }
        KeyPair::Secp256k1(p) => {
            texts.push(("secp256k1 pair", (&Probe(p)).dbg()));
            texts.push(("secp256k1 pair display", (&Probe(p)).dsp()));
            texts.push(("secp256k1 secret", (&Probe(p.secret())).dbg()));
            texts.push(("secp256k1 secret display", (&Probe(p.secret())).dsp()));
        }
        KeyPair::Rsa(p) => {
            texts.push(("rsa pair", (&Probe(p)).dbg()));
            texts.push(("rsa pair display", (&Probe(p)).dsp()));
        }
    }
    texts.into_iter().filter_map(|(w, t)| t.map(|t| (w, t))).collect()
}

pub fn k04(ctx: &Ctx, only: &Only) -> Report {
    par_cases(ctx, "secret-hygiene", ctx.n(3000, 40000), only, |rep, rng, _| {
        let f = pick_format(rng);
        match f {
            KeyFormat::Rsa => {
                let (name, pk8) = rng.pick(RSA_PK8).clone();
                let mut b = pk8.to_vec();
                let r = guard(|| KeyPair::rsa_from_pkcs8(&mut b).is_ok());
                rep.count("buffers:pkcs8", 1);
                if rng.chance(1, 10) {
                    let (n2, pk8b) = rng.pick(RSA_PK8).clone();
                    if n2 != name {
                        let (a, b) = (KeyPair::rsa_from_pkcs8(&mut pk8.to_vec()).unwrap(), KeyPair::rsa_from_pkcs8(&mut pk8b.to_vec()).unwrap());
                        for ((what, t), (_, t2)) in key_texts(&a).into_iter().zip(key_texts(&b)) {
                            rep.count("debug texts", 2);
                            // the second half of the file holds nothing but secret numbers
                            let l = leaks(&t, &pk8[pk8.len() / 2..]).and(leaks(&t2, &pk8b[pk8b.len() / 2..]));
                            rep.check(&(what, name), l.is_none(), "secret bytes in a debug text", || json!({"of": what, "type": "rsa", "leaked": l}));
                        }
                    }
                }
                let left = b.iter().filter(|x| **x != 0).count();
                rep.check(&("pkcs8", name), r == Ok(true) && left == 0 && b.len() == pk8.len(), "secret left in a pkcs8 buffer", || json!({"key": name, "nonzero": left, "result": format!("{r:?}")}));
            }
            KeyFormat::Secp256k1 => {
                let k = some_key(f, rng);
                let secret = k.secret().unwrap();
                let der = ec_private_der(&secret, rng);
                // the buffer may be part of a larger one
                let pad = rng.below(5);
                let mut b = vec![0u8; pad];
                b.extend(&der);
                let r = guard(|| KeyPair::secp256k1_from_der(&mut b[pad..]).is_ok());
                rep.count("buffers:der", 1);
                let left = b.iter().filter(|x| **x != 0).count();
                rep.check(&("der", &der), r == Ok(true) && left == 0, "secret left in a der buffer", || json!({"der": hex(&der), "nonzero": left, "result": format!("{r:?}")}));
                // a longer structure, if it is understood, is cleared to its end
                let filler = 100 + rng.below(600);
                let mut body = vec![2, 0x82, (filler >> 8) as u8, filler as u8, 1];
                body.extend(rng.bytes(filler - 1));
                body.extend([4, 32]);
                body.extend(&secret);
                let mut long = vec![0x30, 0x82, (body.len() >> 8) as u8, body.len() as u8];
                long.extend(body);
                let mut b = long.clone();
                let r = guard(|| KeyPair::secp256k1_from_der(&mut b).is_ok());
                let left = b.iter().filter(|x| **x != 0).count();
                rep.count(if r == Ok(true) { "buffers:long der" } else { "buffers:long der refused" }, 1);
                rep.check(&("long der", &long), r.is_ok() && (left == 0 || r == Ok(false)), "secret left in a der buffer", || json!({"der": hex(&long), "nonzero": left, "result": format!("{r:?}")}));
            }
            KeyFormat::Ed25519 => {}
        }
        if f != KeyFormat::Rsa {
            let k = some_key(f, rng);
            let secret = k.secret().unwrap();
            for form in 0..2 {
                let v = if form == 0 { k.to_vec() } else { secret.clone() };
                let name = if form == 0 { "from_vec" } else { "from_secret_key" };
                // handed-over buffers: look at them in the moment they are released
                crate::alloc::watch(v.as_ptr() as usize, v.len());
                let r = guard(|| if form == 0 { KeyPair::from_vec(v, f) } else { KeyPair::from_secret_key(v, f) }.is_ok());
                let seen = crate::alloc::unwatch();
                rep.count("buffers:handed over", 1);
                match seen {
                    Some(nonzero) => {
                        rep.check(&(name, &secret), r == Ok(true) && nonzero == 0, "secret left in a released buffer", || json!({"form": name, "type": fmt_name(f), "nonzero": nonzero, "result": format!("{r:?}")}));
                    }
                    None => rep.count("buffers:release not seen", 1),
                }
            }
            // two keys: what one text shows by chance the other does not
            let k2 = some_key(f, rng);
            let secret2 = k2.secret().unwrap();
            for ((what, t), (_, t2)) in key_texts(&k).into_iter().zip(key_texts(&k2)) {
                rep.count("debug texts", 2);
                let l = leaks(&t, &secret).and(leaks(&t2, &secret2));
                rep.check(&(what, &secret), l.is_none(), "secret bytes in a debug text", || json!({"of": what, "type": fmt_name(f), "leaked": l, "text": t2}));
            }
            rep.sample(|| json!({"type": fmt_name(f), "public": hex(&k.public().encode())}));
        }
    })
}

// ---------------------------------------------------------------- K05

pub fn k05(ctx: &Ctx, only: &Only) -> Report {
    par_cases(ctx, "hashable-keys", ctx.n(600, 12000), only, |rep, rng, _| {
        // a population with near-collisions: same raw bytes under different
        // types, rsa keys that differ in one byte only, and plain duplicates
        let mut pop: Vec<PublicKey> = vec![];
        for _ in 0..6 + rng.below(10) {
            let base = key(pick_format(rng), rng).public();
            let raw = base.to_vec();
            pop.push(base.clone());
            if rng.chance(1, 2) {
                let mut e = vec![1u8];
                e.extend(&raw);
                if let Ok(p) = PublicKey::decode(&e) {
                    pop.push(p);
                }
                let mut e2 = e.clone();
                let i = 1 + rng.below(e2.len() - 1);
                e2[i] ^= 1 << rng.below(8);
                if let Ok(p) = PublicKey::decode(&e2) {
                    pop.push(p);
                }
                let mut e3 = e.clone();
                let l = e3.len() - 1;
                e3[l] = e3[l].wrapping_add(1);
                if let Ok(p) = PublicKey::decode(&e3) {
                    pop.push(p);
                }
                e.push(0);
                if let Ok(p) = PublicKey::decode(&e) {
                    pop.push(p);
                }
            }
            if base.get_key_format() == KeyFormat::Secp256k1 {
                // same x, other y
                let mut e = base.encode();
                e[1] ^= 1;
                if let Ok(p) = PublicKey::decode(&e) {
                    pop.push(p);
                }
            }
            if rng.chance(1, 2) {
                pop.extend(crate::props_t::twins(&base, rng));
            }
            if rng.chance(1, 2) {
                pop.push(base);
            }
        }
        rng.shuffle(&mut pop);
        let hs: Vec<PublicKeyHashable> = pop.iter().cloned().map(PublicKeyHashable::from).collect();
        let texts: Vec<Result<String, String>> = hs.iter().map(|h| guard(|| h.to_string())).collect();
        rep.sample(|| json!({"population": texts.iter().take(4).map(|t| t.clone().unwrap_or_default()).collect::<Vec<_>>()}));
        for (i, a) in hs.iter().enumerate() {
            let ida = pk_id(&pop[i]);
            let d = |w: &str| json!({"what": w, "key": hex(&pop[i].encode())});
            let mut enc = vec![ida.0];
            enc.extend(&ida.1);
            let want = bs58::encode(&enc).into_string();
            rep.check(&("text", &ida), texts[i] == Ok(want.clone()), "text of a key is not base58 of its encoding", || d("text"));
            let p = guard(|| PublicKeyHashable::from_str(&want).map(|p| pk_id(p.as_ref()) == ida && p == *a).unwrap_or(false));
            rep.check(&("parse", &ida), p == Ok(true), "text does not parse back", || d("parse"));
            let back = guard(|| {
                let x: PublicKey = a.clone().into();
                let r: &PublicKeyHashable = pop[i].as_ref();
                pk_id(&x) == ida && r == a && hash_of(r) == hash_of(a)
            });
            rep.check(&("conv", &ida), back == Ok(true), "conversion changes the key", || d("conversion"));
            let j = guard(|| serde_json::from_str::<PublicKeyHashable>(&serde_json::to_string(a).unwrap()).map(|x| pk_id(x.as_ref()) == ida).map_err(|e| e.to_string()));
            rep.check(&("json", &ida), j == Ok(Ok(true)), "serialised key does not read back (json)", || json!({"key": d("json"), "result": format!("{j:?}")}));
            let m = guard(|| rmp_serde::from_slice::<PublicKeyHashable>(&rmp_serde::to_vec(a).unwrap()).map(|x| pk_id(x.as_ref()) == ida).map_err(|e| e.to_string()));
            rep.check(&("rmp", &ida), m == Ok(Ok(true)), "serialised key does not read back (msgpack)", || json!({"key": d("rmp"), "result": format!("{m:?}")}));
            let m = guard(|| bincode::deserialize::<PublicKeyHashable>(&bincode::serialize(a).unwrap()).map(|x| pk_id(x.as_ref()) == ida).map_err(|e| e.to_string()));
            rep.check(&("bincode", &ida), m == Ok(Ok(true)), "serialised key does not read back (bincode)", || json!({"key": d("bincode"), "result": format!("{m:?}")}));
            for (k, b) in hs.iter().enumerate() {
                let same = ida == pk_id(&pop[k]);
                rep.count(if same { "pairs:equal" } else { "pairs:different" }, 1);
                let r = guard(|| {
                    let eq = a == b && pop[i] == pop[k];
                    let ne = a != b && pop[i] != pop[k];
                    (if same { eq && !ne } else { !eq && ne }) && (!same || (hash_of(a) == hash_of(b) && texts[i] == texts[k])) && (same || texts[i] != texts[k])
                });
                rep.check(&("pair", &ida, pk_id(&pop[k])), r == Ok(true), "equality, hash and text of two keys disagree", || json!({"a": hex(&pop[i].encode()), "b": hex(&pop[k].encode()), "same": same}));
            }
        }
        // slices of keys as map keys
        let r = guard(|| {
            let a: Vec<PublicKeyHashable> = hs.clone();
            let b: Vec<PublicKeyHashable> = hs.clone();
            hash_of(&a) == hash_of(&b)
        });
        rep.check(&("slices", texts.len()), r == Ok(true), "equal lists of keys hash differently", || json!({}));
        // the map itself, against a map over the harness's own identity
        let mut m: HashMap<PublicKeyHashable, usize> = HashMap::new();
        let mut shadow: HashMap<(u8, Vec<u8>), usize> = HashMap::new();
        for step in 0..60 {
            let i = rng.below(pop.len());
            let id = pk_id(&pop[i]);
            let r = guard(|| match rng.below(3) {
                0 | 1 => m.insert(pop[i].clone().into(), step) == shadow.insert(id.clone(), step),
                _ => m.remove(pop[i].as_ref() as &PublicKeyHashable) == shadow.remove(&id),
            });
            let q = rng.below(pop.len());
            let r2 = guard(|| m.get(pop[q].as_ref() as &PublicKeyHashable) == shadow.get(&pk_id(&pop[q])) && m.len() == shadow.len());
            rep.check(&("map", &id, step), r == Ok(true) && r2 == Ok(true), "map keyed by public keys loses or confuses keys", || json!({"step": step, "key": hex(&pop[i].encode())}));
        }
    })
}

// ---------------------------------------------------------------- K06

/// every way to make a new key: name, type, secret bytes and public key
const WAYS: [&str; 4] = ["generate(Ed25519)", "generate_ed25519", "generate(Secp256k1)", "generate_secp256k1"];

fn new_key(way: usize) -> (KeyPair, Vec<u8>) {
    let k = match way {
        0 => KeyPair::generate(KeyFormat::Ed25519),
        1 => KeyPair::generate_ed25519(),
        2 => KeyPair::generate(KeyFormat::Secp256k1),
        _ => KeyPair::generate_secp256k1(),
    };
    let s = k.secret().expect("secret");
    (k, s)
}

/// `tgmon --generate <n>`: secrets of new keys in a process of its own
pub fn generate(n: usize) {
    use std::io::Write;
    extern "C" {
        fn fork() -> i32;
        fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
        fn _exit(code: i32) -> !;
    }
    let make = || {
        let mut out = String::new();
        for way in 0..WAYS.len() {
            for _ in 0..n {
                out += &format!("{way} {}\n", hex(&new_key(way).1));
            }
        }
        let mut o = std::io::stdout();
        o.write_all(out.as_bytes()).unwrap();
        o.flush().unwrap();
    };
    make();
    // processes that begin as copies of this one
    for _ in 0..2 {
        unsafe {
            let pid = fork();
            if pid == 0 {
                make();
                _exit(0)
            }
            let mut status = 0;
            waitpid(pid, &mut status, 0);
            assert_eq!(status, 0, "a copied process failed");
        }
    }
    make();
}

pub fn k06(ctx: &Ctx, only: &Only) -> Report {
    use std::sync::Mutex;
    const SETS: usize = 64;
    let seen: Vec<Mutex<HashMap<Vec<u8>, (usize, u64)>>> = (0..SETS).map(|_| Mutex::new(HashMap::new())).collect();
    // secrets of one way within one case, in the order they were made
    let judge = |rep: &mut Report, way: usize, case: u64, v: &[Vec<u8>]| {
        let what = WAYS[way];
        for s in v {
            rep.eval(s, true);
            if s.len() != 32 {
                return rep.violation("secret of the wrong size", json!({"way": what, "bytes": s.len()}));
            }
            let old = seen[s[0] as usize % SETS].lock().unwrap().insert(s.clone(), (way, case));
            if let Some((w, c)) = old {
                return rep.violation("a generated key repeats", json!({"way": what, "case": case, "earlier way": WAYS[w], "earlier case": c}));
            }
        }
        if v.len() < 4000 {
            return;
        }
        let n = v.len() as f64;
        let far = |c: u64, of: f64| (c as f64 / of - 0.5).abs() > 0.1;
        let bit = |s: &[u8], i: usize| s[i / 8] >> (i % 8) & 1;
        for i in 0..256 {
            let ones: u64 = v.iter().map(|s| bit(s, i) as u64).sum();
            let flips: u64 = v.windows(2).map(|p| (bit(&p[0], i) ^ bit(&p[1], i)) as u64).sum();
            if far(ones, n) {
                return rep.violation("a bit of generated secrets is predictable", json!({"way": what, "bit": i, "ones": ones, "of": n}));
            }
            if far(flips, n - 1.0) {
                return rep.violation("a bit of generated secrets follows from the key before", json!({"way": what, "bit": i, "flips": flips, "of": n}));
            }
        }
        for i in 0..32 {
            for j in 0..i {
                let same = v.iter().filter(|s| s[i] == s[j]).count();
                if same as f64 / n > 0.03 {
                    return rep.violation("a byte of generated secrets follows from another", json!({"way": what, "bytes": [j, i], "same": same, "of": n}));
                }
            }
        }
        rep.count("statistics over the secrets of one way", 1);
    };
    let mut total = par_cases(ctx, "generated keys", ctx.n(64, 512), only, |rep, _rng, case| {
        let way = case as usize % WAYS.len();
        let n = 5000;
        let mut v = vec![];
        for i in 0..n {
            let (k, s) = new_key(way);
            let f = if way < 2 { KeyFormat::Ed25519 } else { KeyFormat::Secp256k1 };
            if k.key_format() != f || k.public().get_key_format() != f {
                return rep.violation("generated key of another type", json!({"way": WAYS[way]}));
            }
            if i % 50 == 0 {
                // the parts belong together
                let again = KeyPair::from_secret_key(s.clone(), f).map(|k| pk_id(&k.public()));
                let sig = k.sign(&s[..7]).map(|x| k.public().verify(&s[..7], &x).is_ok());
                if again.ok() != Some(pk_id(&k.public())) || !matches!(sig, Ok(true)) {
                    return rep.violation("public key does not belong to the generated secret", json!({"way": WAYS[way]}));
                }
                rep.count("generated pairs checked to belong together", 1);
            }
            v.push(s);
        }
        rep.count(&format!("keys made by {}", WAYS[way]), n);
        judge(rep, way, case, &v);
    });
    let exe = std::env::current_exe().expect("own path");
    total.merge(par_cases(ctx, "keys of other processes", ctx.n(24, 200), only, |rep, _rng, case| {
        // numbers that leave a generator in the middle of its buffer, too
        let per = 90 + case % 13;
        let o = std::process::Command::new(&exe).args(["--generate", &per.to_string()]).output().expect("svcd");
        if !o.status.success() {
            return rep.violation("generating keys crashes", json!({"status": format!("{}", o.status), "stderr": String::from_utf8_lossy(&o.stderr)}));
        }
        let mut v: Vec<Vec<Vec<u8>>> = vec![vec![]; WAYS.len()];
        for l in String::from_utf8_lossy(&o.stdout).lines() {
            let (w, s) = l.split_once(' ').expect("svcd");
            v[w.parse::<usize>().expect("svcd")].push((0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("svcd")).collect());
        }
        for (way, v) in v.iter().enumerate() {
            rep.count("keys of other processes", v.len() as u64);
            judge(rep, way, 1_000_000 + case, v);
        }
    }));
    total
}
