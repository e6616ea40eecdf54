//! Offline stand-in for `blst::min_pk`.
//!
//! The pairing groups are replaced by the scalar field they are isomorphic to: a public key is
//! the scalar itself, a signature is `sk * H(dst || aug || msg)`, an aggregate is a sum. All
//! *interface* behaviour of blst is kept: encodings have the real lengths, flag bits and a notion
//! of "not on curve" (bad check bytes), "not in group" (marker byte) and infinity.
use fr::{hkdf_mod_r, sha256, Fr};

#[allow(non_camel_case_types)]
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum BLST_ERROR {
    BLST_SUCCESS,
    BLST_BAD_ENCODING,
    BLST_POINT_NOT_ON_CURVE,
    BLST_POINT_NOT_IN_GROUP,
    BLST_AGGR_TYPE_MISMATCH,
    BLST_VERIFY_FAIL,
    BLST_PK_IS_INFINITY,
    BLST_BAD_SCALAR,
}
use BLST_ERROR::*;

/// Counters the monitors read: how many times the code under test really reached the library.
pub mod monitor {
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
    pub static VERIFY_OK: AtomicU64 = AtomicU64::new(0);
    pub static VERIFY_FAIL: AtomicU64 = AtomicU64::new(0);
    pub fn snapshot() -> (u64, u64) {
        (VERIFY_OK.load(Relaxed), VERIFY_FAIL.load(Relaxed))
    }
    pub(crate) fn note(ok: bool) {
        if ok { VERIFY_OK.fetch_add(1, Relaxed) } else { VERIFY_FAIL.fetch_add(1, Relaxed) };
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
struct Point {
    v: Fr,
    in_group: bool,
}
impl Point {
    fn zero() -> Self {
        Self { v: Fr::ZERO, in_group: true }
    }
    fn enc<const N: usize>(&self) -> [u8; N] {
        let mut out = [0u8; N];
        if self.v.is_zero() {
            out[0] = 0xc0;
            return out;
        }
        let s = self.v.to_be_bytes();
        out[0] = 0x80;
        out[1] = !self.in_group as u8;
        let c = check::<N>(&s, out[1]);
        let k = N - 34;
        out[2..2 + k].copy_from_slice(&c[..k]);
        out[N - 32..].copy_from_slice(&s);
        out
    }
    fn dec<const N: usize>(b: &[u8]) -> Result<Self, BLST_ERROR> {
        if b.len() != N || b[0] & 0x80 == 0 {
            return Err(BLST_BAD_ENCODING);
        }
        if b[0] & 0x40 != 0 {
            return if b[0] == 0xc0 && b[1..].iter().all(|x| *x == 0) {
                Ok(Self::zero())
            } else {
                Err(BLST_BAD_ENCODING)
            };
        }
        let s: [u8; 32] = b[N - 32..].try_into().unwrap();
        let v = Fr::from_be_bytes(&s).ok_or(BLST_BAD_ENCODING)?;
        if v.is_zero() || b[0] != 0x80 || b[1] > 1 || b[2..N - 32] != check::<N>(&s, b[1])[..N - 34]
        {
            return Err(BLST_POINT_NOT_ON_CURVE);
        }
        Ok(Self { v, in_group: b[1] == 0 })
    }
}
fn check<const N: usize>(s: &[u8; 32], marker: u8) -> [u8; 64] {
    let a = sha256(&[b"point", &[N as u8, marker, 0], s]);
    let b = sha256(&[b"point", &[N as u8, marker, 1], s]);
    let mut out = [0u8; 64];
    out[..32].copy_from_slice(&a);
    out[32..].copy_from_slice(&b);
    out
}
fn hash_to_group(msg: &[u8], dst: &[u8], aug: &[u8]) -> Fr {
    let a = sha256(&[b"h0", &(dst.len() as u64).to_be_bytes(), dst, &(aug.len() as u64).to_be_bytes(), aug, msg]);
    let b = sha256(&[b"h1", &a]);
    let mut w = a.to_vec();
    w.extend(b);
    let f = Fr::reduce_be(&w);
    if f.is_zero() {
        Fr::one()
    } else {
        f
    }
}

/// Encoding of a point that decodes but lies outside the prime-order group (for hostile inputs).
pub fn encode_out_of_group<const N: usize>(seed: u64) -> [u8; N] {
    Point { v: Fr::from_u64(seed.max(1)), in_group: false }.enc::<N>()
}
/// Encoding of the public key / signature for a given scalar (for oracles).
pub fn encode_scalar<const N: usize>(v: &[u8; 32]) -> [u8; N] {
    Point { v: Fr::from_be_bytes(v).expect("canonical"), in_group: true }.enc::<N>()
}

pub mod min_pk {
    use super::*;

    #[derive(Clone, Default)]
    pub struct SecretKey {
        v: Fr,
    }
    impl std::fmt::Debug for SecretKey {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "SecretKey {{ value: {:?} }}", self.v.to_be_bytes())
        }
    }
    impl SecretKey {
        pub fn key_gen(ikm: &[u8], key_info: &[u8]) -> Result<Self, BLST_ERROR> {
            if ikm.len() < 32 {
                return Err(BLST_BAD_ENCODING);
            }
            Ok(Self { v: hkdf_mod_r(ikm, key_info) })
        }
        pub fn derive_master_eip2333(ikm: &[u8]) -> Result<Self, BLST_ERROR> {
            if ikm.len() < 32 {
                return Err(BLST_BAD_ENCODING);
            }
            Ok(Self { v: hkdf_mod_r(ikm, &[]) })
        }
        pub fn from_bytes(b: &[u8]) -> Result<Self, BLST_ERROR> {
            let b: [u8; 32] = b.try_into().map_err(|_| BLST_BAD_ENCODING)?;
            let v = Fr::from_be_bytes(&b).ok_or(BLST_BAD_ENCODING)?;
            if v.is_zero() {
                return Err(BLST_BAD_ENCODING);
            }
            Ok(Self { v })
        }
        pub fn deserialize(b: &[u8]) -> Result<Self, BLST_ERROR> {
            Self::from_bytes(b)
        }
        pub fn sk_to_pk(&self) -> PublicKey {
            PublicKey(Point { v: self.v, in_group: true })
        }
        pub fn sign(&self, msg: &[u8], dst: &[u8], aug: &[u8]) -> Signature {
            Signature(Point { v: self.v.mul(&hash_to_group(msg, dst, aug)), in_group: true })
        }
        pub fn to_bytes(&self) -> [u8; 32] {
            self.v.to_be_bytes()
        }
        pub fn serialize(&self) -> [u8; 32] {
            self.v.to_be_bytes()
        }
    }

    #[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
    pub struct PublicKey(pub(crate) Point);
    impl PublicKey {
        pub fn from_bytes(b: &[u8]) -> Result<Self, BLST_ERROR> {
            Point::dec::<48>(b).map(Self)
        }
        pub fn deserialize(b: &[u8]) -> Result<Self, BLST_ERROR> {
            Self::from_bytes(b)
        }
        pub fn uncompress(b: &[u8]) -> Result<Self, BLST_ERROR> {
            Self::from_bytes(b)
        }
        pub fn validate(&self) -> Result<(), BLST_ERROR> {
            if self.0.v.is_zero() {
                return Err(BLST_PK_IS_INFINITY);
            }
            if !self.0.in_group {
                return Err(BLST_POINT_NOT_IN_GROUP);
            }
            Ok(())
        }
        pub fn key_validate(b: &[u8]) -> Result<Self, BLST_ERROR> {
            let p = Self::from_bytes(b)?;
            p.validate()?;
            Ok(p)
        }
        pub fn to_bytes(&self) -> [u8; 48] {
            self.0.enc::<48>()
        }
        pub fn compress(&self) -> [u8; 48] {
            self.0.enc::<48>()
        }
        pub fn from_aggregate(a: &AggregatePublicKey) -> Self {
            a.to_public_key()
        }
    }

    #[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
    pub struct Signature(pub(crate) Point);
    impl Signature {
        pub fn from_bytes(b: &[u8]) -> Result<Self, BLST_ERROR> {
            Point::dec::<96>(b).map(Self)
        }
        pub fn deserialize(b: &[u8]) -> Result<Self, BLST_ERROR> {
            Self::from_bytes(b)
        }
        pub fn uncompress(b: &[u8]) -> Result<Self, BLST_ERROR> {
            Self::from_bytes(b)
        }
        pub fn sig_validate(b: &[u8], sig_infcheck: bool) -> Result<Self, BLST_ERROR> {
            let s = Self::from_bytes(b)?;
            s.validate(sig_infcheck)?;
            Ok(s)
        }
        pub fn validate(&self, sig_infcheck: bool) -> Result<(), BLST_ERROR> {
            if sig_infcheck && self.0.v.is_zero() {
                return Err(BLST_PK_IS_INFINITY);
            }
            if !self.0.in_group {
                return Err(BLST_POINT_NOT_IN_GROUP);
            }
            Ok(())
        }
        pub fn to_bytes(&self) -> [u8; 96] {
            self.0.enc::<96>()
        }
        pub fn compress(&self) -> [u8; 96] {
            self.0.enc::<96>()
        }
        pub fn verify(
            &self,
            sig_groupcheck: bool,
            msg: &[u8],
            dst: &[u8],
            aug: &[u8],
            pk: &PublicKey,
            pk_validate: bool,
        ) -> BLST_ERROR {
            let aug_msg = [aug, msg].concat();
            let _ = aug_msg;
            self.check(sig_groupcheck, &[(msg, aug, pk)], dst, pk_validate)
        }
        fn check(
            &self,
            sig_groupcheck: bool,
            items: &[(&[u8], &[u8], &PublicKey)],
            dst: &[u8],
            pk_validate: bool,
        ) -> BLST_ERROR {
            let r = (|| {
                if items.is_empty() {
                    return BLST_VERIFY_FAIL;
                }
                if sig_groupcheck {
                    if let Err(e) = self.validate(false) {
                        return e;
                    }
                }
                let mut acc = Fr::ZERO;
                for (m, aug, pk) in items {
                    if pk_validate {
                        if let Err(e) = pk.validate() {
                            return e;
                        }
                    }
                    if pk.0.v.is_zero() {
                        return BLST_PK_IS_INFINITY;
                    }
                    acc = acc.add(&pk.0.v.mul(&hash_to_group(m, dst, aug)));
                }
                if acc == self.0.v {
                    BLST_SUCCESS
                } else {
                    BLST_VERIFY_FAIL
                }
            })();
            monitor::note(r == BLST_SUCCESS);
            r
        }
        pub fn aggregate_verify(
            &self,
            sig_groupcheck: bool,
            msgs: &[&[u8]],
            dst: &[u8],
            pks: &[&PublicKey],
            pks_validate: bool,
        ) -> BLST_ERROR {
            if pks.is_empty() || msgs.len() != pks.len() {
                monitor::note(false);
                return BLST_VERIFY_FAIL;
            }
            let items: Vec<(&[u8], &[u8], &PublicKey)> =
                msgs.iter().zip(pks).map(|(m, p)| (*m, &[][..], *p)).collect();
            self.check(sig_groupcheck, &items, dst, pks_validate)
        }
        pub fn fast_aggregate_verify(
            &self,
            sig_groupcheck: bool,
            msg: &[u8],
            dst: &[u8],
            pks: &[&PublicKey],
        ) -> BLST_ERROR {
            let agg = match AggregatePublicKey::aggregate(pks, false) {
                Ok(a) => a,
                Err(e) => {
                    monitor::note(false);
                    return e;
                }
            };
            let pk = agg.to_public_key();
            self.check(sig_groupcheck, &[(msg, &[], &pk)], dst, false)
        }
        pub fn fast_aggregate_verify_pre_aggregated(
            &self,
            sig_groupcheck: bool,
            msg: &[u8],
            dst: &[u8],
            pk: &PublicKey,
        ) -> BLST_ERROR {
            self.check(sig_groupcheck, &[(msg, &[], pk)], dst, false)
        }
        pub fn from_aggregate(a: &AggregateSignature) -> Self {
            a.to_signature()
        }
    }

    #[derive(Clone, Copy, Debug)]
    pub struct AggregatePublicKey(Point);
    impl AggregatePublicKey {
        pub fn from_public_key(pk: &PublicKey) -> Self {
            Self(pk.0)
        }
        pub fn to_public_key(&self) -> PublicKey {
            PublicKey(self.0)
        }
        pub fn aggregate(pks: &[&PublicKey], pks_validate: bool) -> Result<Self, BLST_ERROR> {
            if pks.is_empty() {
                return Err(BLST_AGGR_TYPE_MISMATCH);
            }
            let mut acc = Point::zero();
            for p in pks {
                if pks_validate {
                    p.validate()?;
                }
                acc.v = acc.v.add(&p.0.v);
                acc.in_group &= p.0.in_group;
            }
            Ok(Self(acc))
        }
        pub fn add_public_key(&mut self, pk: &PublicKey, v: bool) -> Result<(), BLST_ERROR> {
            if v {
                pk.validate()?;
            }
            self.0.v = self.0.v.add(&pk.0.v);
            self.0.in_group &= pk.0.in_group;
            Ok(())
        }
    }

    #[derive(Clone, Copy, Debug)]
    pub struct AggregateSignature(Point);
    impl AggregateSignature {
        pub fn from_signature(s: &Signature) -> Self {
            Self(s.0)
        }
        pub fn to_signature(&self) -> Signature {
            Signature(self.0)
        }
        pub fn aggregate(
            sigs: &[&Signature],
            sigs_groupcheck: bool,
        ) -> Result<Self, BLST_ERROR> {
            if sigs.is_empty() {
                return Err(BLST_AGGR_TYPE_MISMATCH);
            }
            let mut acc = Point::zero();
            for s in sigs {
                if sigs_groupcheck {
                    s.validate(false)?;
                }
                acc.v = acc.v.add(&s.0.v);
                acc.in_group &= s.0.in_group;
            }
            Ok(Self(acc))
        }
        pub fn add_signature(&mut self, s: &Signature, check: bool) -> Result<(), BLST_ERROR> {
            if check {
                s.validate(false)?;
            }
            self.0.v = self.0.v.add(&s.0.v);
            self.0.in_group &= s.0.in_group;
            Ok(())
        }
    }
}
