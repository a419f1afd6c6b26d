//! a plain in-memory storage for the trust graph
#![allow(dead_code)]
use std::time::Duration;
use trust_graph::{Auth, PublicKeyHashable as PK, Revocation, Storage, StorageError, TrustRelation, WeightFactor};

#[derive(Debug)]
pub struct Fail;
impl std::fmt::Display for Fail {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "storage failure")
    }
}
impl std::error::Error for Fail {}
impl From<Fail> for String {
    fn from(_: Fail) -> String {
        "storage failure".into()
    }
}
impl StorageError for Fail {}

#[derive(Default)]
pub struct Mem {
    pub roots: Vec<(PK, u32)>,
    pub rel: Vec<TrustRelation>,
    pub reads: std::rc::Rc<std::cell::Cell<u64>>,
    /// number of further accesses after which one fails
    pub fail_in: std::rc::Rc<std::cell::Cell<i64>>,
}

impl Mem {
    fn access(&self) -> Result<(), Fail> {
        self.reads.set(self.reads.get() + 1);
        let n = self.fail_in.get();
        if n > 0 {
            self.fail_in.set(n - 1);
            if n == 1 {
                return Err(Fail);
            }
        }
        Ok(())
    }
    fn update(&mut self, r: TrustRelation) {
        let old = self.rel.iter().position(|x| x.issued_for() == r.issued_for() && x.issued_by() == r.issued_by());
        match old {
            Some(i) => {
                if self.rel[i].issued_at() < r.issued_at() {
                    self.rel[i] = r
                }
            }
            None => self.rel.push(r),
        }
    }
}

impl Storage for Mem {
    type Error = Fail;
    fn get_relation(&self, issued_for: &PK, issued_by: &PK) -> Result<Option<TrustRelation>, Fail> {
        self.access()?;
        Ok(self.rel.iter().find(|x| x.issued_for() == issued_for.as_ref() && x.issued_by() == issued_by.as_ref()).cloned())
    }
    fn get_authorizations(&self, issued_for: &PK) -> Result<Vec<Auth>, Fail> {
        self.access()?;
        Ok(self.rel.iter().filter(|x| x.issued_for() == issued_for.as_ref()).filter_map(|x| if let TrustRelation::Auth(a) = x { Some(a.clone()) } else { None }).collect())
    }
    fn get_revocations(&self, issued_for: &PK) -> Result<Vec<Revocation>, Fail> {
        self.access()?;
        Ok(self.rel.iter().filter(|x| x.issued_for() == issued_for.as_ref()).filter_map(|x| if let TrustRelation::Revocation(a) = x { Some(a.clone()) } else { None }).collect())
    }
    fn insert(&mut self, r: TrustRelation) -> Result<(), Fail> {
        self.access()?;
        self.rel.push(r);
        Ok(())
    }
    fn get_root_weight_factor(&self, pk: &PK) -> Result<Option<WeightFactor>, Fail> {
        self.access()?;
        Ok(self.roots.iter().find(|r| r.0 == *pk).map(|r| r.1))
    }
    fn set_root_weight_factor(&mut self, pk: PK, w: WeightFactor) -> Result<(), Fail> {
        self.access()?;
        self.roots.retain(|r| r.0 != pk);
        self.roots.push((pk, w));
        Ok(())
    }
    fn root_keys(&self) -> Result<Vec<PK>, Fail> {
        self.access()?;
        Ok(self.roots.iter().map(|r| r.0.clone()).collect())
    }
    fn revoke(&mut self, r: Revocation) -> Result<(), Fail> {
        self.access()?;
        self.update(TrustRelation::Revocation(r));
        Ok(())
    }
    fn update_auth(&mut self, a: Auth, _: Duration) -> Result<(), Fail> {
        self.access()?;
        self.update(TrustRelation::Auth(a));
        Ok(())
    }
    fn remove_expired(&mut self, now: Duration) -> Result<(), Fail> {
        self.access()?;
        self.rel.retain(|x| !matches!(x, TrustRelation::Auth(a) if a.trust.expires_at <= now));
        Ok(())
    }
}
