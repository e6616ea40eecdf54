//! Offline stand-in for `c-kzg` (EIP-4844 part). The commitment group is replaced by the scalar
//! field (commitment = p(tau) for a fixed tau), so every algebraic relation the library checks
//! holds or fails exactly as with the real pairing; encodings keep the real sizes.
use fr::{sha256, Fr};
use std::{
    ops::Deref,
    sync::{Arc, OnceLock},
};

pub const BYTES_PER_BLOB: usize = 131072;
pub const BYTES_PER_COMMITMENT: usize = 48;
pub const BYTES_PER_PROOF: usize = 48;
pub const BYTES_PER_FIELD_ELEMENT: usize = 32;
pub const FIELD_ELEMENTS_PER_BLOB: usize = 4096;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Error {
    InvalidBytesLength(String),
    InvalidHexFormat(String),
    InvalidKzgProof(String),
    InvalidKzgCommitment(String),
    InvalidTrustedSetup(String),
    MismatchLength(String),
    CError(String),
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}

macro_rules! bytes {
    ($name:ident, $n:expr) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
        pub struct $name([u8; $n]);
        impl $name {
            pub fn new(b: [u8; $n]) -> Self {
                Self(b)
            }
            pub fn from_bytes(b: &[u8]) -> Result<Self, Error> {
                Ok(Self(b.try_into().map_err(|_| {
                    Error::InvalidBytesLength(format!(
                        "Invalid byte length. Expected {} got {}",
                        $n,
                        b.len()
                    ))
                })?))
            }
            pub fn into_inner(self) -> [u8; $n] {
                self.0
            }
        }
        impl Deref for $name {
            type Target = [u8; $n];
            fn deref(&self) -> &[u8; $n] {
                &self.0
            }
        }
        impl From<[u8; $n]> for $name {
            fn from(b: [u8; $n]) -> Self {
                Self(b)
            }
        }
    };
}
bytes!(Bytes32, 32);
bytes!(Bytes48, 48);

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Blob(Box<[u8]>);
impl Blob {
    pub fn from_bytes(b: &[u8]) -> Result<Self, Error> {
        if b.len() != BYTES_PER_BLOB {
            return Err(Error::InvalidBytesLength(format!(
                "Invalid byte length. Expected {BYTES_PER_BLOB} got {}",
                b.len()
            )));
        }
        Ok(Self(b.into()))
    }
    fn poly(&self) -> Result<Vec<Fr>, Error> {
        self.0
            .chunks(32)
            .map(|c| Fr::from_be_bytes(c.try_into().unwrap()).ok_or_else(|| Error::CError("C_KZG_BADARGS".into())))
            .collect()
    }
}
impl Deref for Blob {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}

fn enc(v: &Fr) -> [u8; 48] {
    let mut out = [0u8; 48];
    if v.is_zero() {
        out[0] = 0xc0;
        return out;
    }
    let s = v.to_be_bytes();
    out[0] = 0x80;
    let c = sha256(&[b"kzg", &s]);
    out[1..16].copy_from_slice(&c[..15]);
    out[16..].copy_from_slice(&s);
    out
}
fn dec(b: &[u8; 48]) -> Result<Fr, Error> {
    let bad = || Error::CError("C_KZG_BADARGS".into());
    if b[0] == 0xc0 && b[1..].iter().all(|x| *x == 0) {
        return Ok(Fr::ZERO);
    }
    let v = Fr::from_be_bytes(b[16..].try_into().unwrap()).ok_or_else(bad)?;
    if enc(&v) == *b {
        Ok(v)
    } else {
        Err(bad())
    }
}

macro_rules! point {
    ($name:ident) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
        pub struct $name([u8; 48]);
        impl $name {
            pub fn to_bytes(&self) -> Bytes48 {
                Bytes48(self.0)
            }
            pub fn from_bytes(b: &[u8]) -> Result<Self, Error> {
                Ok(Self(*Bytes48::from_bytes(b)?))
            }
            pub fn as_hex_string(&self) -> String {
                hex::encode(self.0)
            }
        }
        impl Deref for $name {
            type Target = [u8; 48];
            fn deref(&self) -> &[u8; 48] {
                &self.0
            }
        }
    };
}
point!(KzgCommitment);
point!(KzgProof);
impl Bytes48 {
    pub fn as_slice(&self) -> &[u8] {
        &self.0
    }
    pub fn to_bytes(&self) -> Self {
        *self
    }
}
impl Bytes32 {
    pub fn as_slice(&self) -> &[u8] {
        &self.0
    }
}

pub struct KzgSettings {
    tau: Fr,
    /// bit-reversed roots of unity
    domain: Vec<Fr>,
}
impl std::fmt::Debug for KzgSettings {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "KzgSettings")
    }
}
impl KzgSettings {
    fn build() -> Self {
        // primitive root 7; omega = 7^((r-1)/4096)
        let mut e = fr::R;
        e[0] -= 1;
        for _ in 0..12 {
            for i in 0..4 {
                e[i] = (e[i] >> 1) | if i < 3 { e[i + 1] << 63 } else { 0 };
            }
        }
        let w = Fr::from_u64(7).pow(&e);
        let mut nat = vec![Fr::one()];
        for i in 1..FIELD_ELEMENTS_PER_BLOB {
            nat.push(nat[i - 1].mul(&w));
        }
        let domain = (0..FIELD_ELEMENTS_PER_BLOB)
            .map(|i| nat[((i as u32).reverse_bits() >> 20) as usize])
            .collect();
        Self { tau: Fr::reduce_be(&sha256(&[b"toy trusted setup"])), domain }
    }
    fn eval(&self, p: &[Fr], z: &Fr) -> Fr {
        if let Some(i) = self.domain.iter().position(|d| d == z) {
            return p[i];
        }
        // barycentric: (z^n - 1)/n * sum p_i * w_i / (z - w_i), batch inversion
        let dens: Vec<Fr> = self.domain.iter().map(|w| z.sub(w)).collect();
        let mut pre = Vec::with_capacity(dens.len());
        let mut acc = Fr::one();
        for d in &dens {
            pre.push(acc);
            acc = acc.mul(d);
        }
        let mut inv = acc.inv();
        let mut sum = Fr::ZERO;
        for i in (0..dens.len()).rev() {
            let di = inv.mul(&pre[i]);
            inv = inv.mul(&dens[i]);
            sum = sum.add(&p[i].mul(&self.domain[i]).mul(&di));
        }
        let mut zn = *z;
        for _ in 0..12 {
            zn = zn.mul(&zn);
        }
        zn.sub(&Fr::one()).mul(&Fr::from_u64(4096).inv()).mul(&sum)
    }
    fn challenge(blob: &Blob, c: &[u8; 48]) -> Fr {
        Fr::reduce_be(&sha256(&[b"FSBLOBVERIFY_V1_", &blob.0, c]))
    }
    pub fn blob_to_kzg_commitment(&self, blob: &Blob) -> Result<KzgCommitment, Error> {
        Ok(KzgCommitment(enc(&self.eval(&blob.poly()?, &self.tau))))
    }
    pub fn compute_kzg_proof(&self, blob: &Blob, z: &Bytes32) -> Result<(KzgProof, Bytes32), Error> {
        let p = blob.poly()?;
        let z = Fr::from_be_bytes(&z.0).ok_or(Error::CError("C_KZG_BADARGS".into()))?;
        let y = self.eval(&p, &z);
        let q = self.eval(&p, &self.tau).sub(&y).mul(&self.tau.sub(&z).inv());
        Ok((KzgProof(enc(&q)), Bytes32(y.to_be_bytes())))
    }
    pub fn compute_blob_kzg_proof(&self, blob: &Blob, c: &Bytes48) -> Result<KzgProof, Error> {
        dec(&c.0)?;
        let z = Self::challenge(blob, &c.0);
        Ok(self.compute_kzg_proof(blob, &Bytes32(z.to_be_bytes()))?.0)
    }
    pub fn verify_kzg_proof(&self, c: &Bytes48, z: &Bytes32, y: &Bytes32, p: &Bytes48) -> Result<bool, Error> {
        let bad = || Error::CError("C_KZG_BADARGS".into());
        let c = dec(&c.0)?;
        let z = Fr::from_be_bytes(&z.0).ok_or_else(bad)?;
        let y = Fr::from_be_bytes(&y.0).ok_or_else(bad)?;
        let p = dec(&p.0)?;
        Ok(c.sub(&y) == p.mul(&self.tau.sub(&z)))
    }
    pub fn verify_blob_kzg_proof(&self, blob: &Blob, c: &Bytes48, p: &Bytes48) -> Result<bool, Error> {
        let poly = blob.poly()?;
        dec(&c.0)?;
        dec(&p.0)?;
        let z = Self::challenge(blob, &c.0);
        let y = self.eval(&poly, &z);
        self.verify_kzg_proof(c, &Bytes32(z.to_be_bytes()), &Bytes32(y.to_be_bytes()), p)
    }
    pub fn verify_blob_kzg_proof_batch(&self, blobs: &[Blob], cs: &[Bytes48], ps: &[Bytes48]) -> Result<bool, Error> {
        if blobs.len() != cs.len() {
            return Err(Error::MismatchLength(format!("There are {} blobs and {} commitments", blobs.len(), cs.len())));
        }
        if blobs.len() != ps.len() {
            return Err(Error::MismatchLength(format!("There are {} blobs and {} proofs", blobs.len(), ps.len())));
        }
        let mut ok = true;
        for i in 0..blobs.len() {
            ok &= self.verify_blob_kzg_proof(&blobs[i], &cs[i], &ps[i])?;
        }
        Ok(ok)
    }
}

pub fn ethereum_kzg_settings_arc(_precompute: u64) -> Arc<KzgSettings> {
    static S: OnceLock<Arc<KzgSettings>> = OnceLock::new();
    S.get_or_init(|| Arc::new(KzgSettings::build())).clone()
}
pub fn ethereum_kzg_settings(precompute: u64) -> &'static KzgSettings {
    static S: OnceLock<Arc<KzgSettings>> = OnceLock::new();
    S.get_or_init(|| ethereum_kzg_settings_arc(precompute))
}
