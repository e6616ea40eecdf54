//! The BLS12-381 scalar field, HMAC/HKDF-SHA256 and `hkdf_mod_r` (EIP-2333), from their specs.
use sha2::{Digest, Sha256};

/// r, little-endian limbs
pub const R: [u64; 4] = [
    0xffffffff00000001,
    0x53bda402fffe5bfe,
    0x3339d80809a1d805,
    0x73eda753299d7d48,
];

const fn inv() -> u64 {
    // -r^{-1} mod 2^64
    let mut x = 1u64;
    let mut i = 0;
    while i < 6 {
        x = x.wrapping_mul(2u64.wrapping_sub(R[0].wrapping_mul(x)));
        i += 1;
    }
    x.wrapping_neg()
}
const INV: u64 = inv();

const fn geq(a: &[u64; 4], b: &[u64; 4]) -> bool {
    let mut i = 4;
    while i > 0 {
        i -= 1;
        if a[i] > b[i] {
            return true;
        }
        if a[i] < b[i] {
            return false;
        }
    }
    true
}
const fn sub4(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut out = [0u64; 4];
    let mut borrow = 0u64;
    let mut i = 0;
    while i < 4 {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (y, b2) = x.overflowing_sub(borrow);
        out[i] = y;
        borrow = (b1 | b2) as u64;
        i += 1;
    }
    out
}
const fn dbl(a: &[u64; 4]) -> [u64; 4] {
    let mut out = [0u64; 4];
    let mut c = 0;
    let mut i = 0;
    while i < 4 {
        out[i] = (a[i] << 1) | c;
        c = a[i] >> 63;
        i += 1;
    }
    if geq(&out, &R) {
        sub4(&out, &R)
    } else {
        out
    }
}
const fn r2() -> [u64; 4] {
    let mut x = [1, 0, 0, 0];
    let mut i = 0;
    while i < 512 {
        x = dbl(&x);
        i += 1;
    }
    x
}
const R2: [u64; 4] = r2();

fn mont(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut t = [0u64; 6];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 {
            let v = t[j] as u128 + a[i] as u128 * b[j] as u128 + c;
            t[j] = v as u64;
            c = v >> 64;
        }
        let v = t[4] as u128 + c;
        t[4] = v as u64;
        t[5] = (v >> 64) as u64;
        let m = t[0].wrapping_mul(INV);
        let mut c = (t[0] as u128 + m as u128 * R[0] as u128) >> 64;
        for j in 1..4 {
            let v = t[j] as u128 + m as u128 * R[j] as u128 + c;
            t[j - 1] = v as u64;
            c = v >> 64;
        }
        let v = t[4] as u128 + c;
        t[3] = v as u64;
        t[4] = t[5] + (v >> 64) as u64;
    }
    let out = [t[0], t[1], t[2], t[3]];
    if t[4] != 0 || geq(&out, &R) {
        sub4(&out, &R)
    } else {
        out
    }
}

/// Field element in Montgomery form.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Fr([u64; 4]);

impl Fr {
    pub const ZERO: Self = Self([0; 4]);
    pub fn one() -> Self {
        Self::from_u64(1)
    }
    pub fn from_u64(v: u64) -> Self {
        Self(mont(&[v, 0, 0, 0], &R2))
    }
    /// canonical big-endian only
    pub fn from_be_bytes(b: &[u8; 32]) -> Option<Self> {
        let l = limbs_be(b);
        if geq(&l, &R) {
            None
        } else {
            Some(Self(mont(&l, &R2)))
        }
    }
    /// reduces an arbitrary-length big-endian integer
    pub fn reduce_be(b: &[u8]) -> Self {
        let k = Self::from_u64(256);
        let mut acc = Self::ZERO;
        for x in b {
            acc = acc.mul(&k).add(&Self::from_u64(*x as u64));
        }
        acc
    }
    pub fn to_be_bytes(&self) -> [u8; 32] {
        let l = mont(&self.0, &[1, 0, 0, 0]);
        let mut out = [0u8; 32];
        for i in 0..4 {
            out[32 - 8 * (i + 1)..32 - 8 * i].copy_from_slice(&l[i].to_be_bytes());
        }
        out
    }
    pub fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
    pub fn mul(&self, o: &Self) -> Self {
        Self(mont(&self.0, &o.0))
    }
    pub fn add(&self, o: &Self) -> Self {
        let mut out = [0u64; 4];
        let mut c = 0u128;
        for i in 0..4 {
            let v = self.0[i] as u128 + o.0[i] as u128 + c;
            out[i] = v as u64;
            c = v >> 64;
        }
        if geq(&out, &R) {
            out = sub4(&out, &R);
        }
        Self(out)
    }
    pub fn neg(&self) -> Self {
        if self.is_zero() {
            *self
        } else {
            Self(sub4(&R, &self.0))
        }
    }
    pub fn sub(&self, o: &Self) -> Self {
        self.add(&o.neg())
    }
    pub fn pow(&self, e: &[u64; 4]) -> Self {
        let mut acc = Self::one();
        for i in (0..256).rev() {
            acc = acc.mul(&acc);
            if e[i / 64] >> (i % 64) & 1 == 1 {
                acc = acc.mul(self);
            }
        }
        acc
    }
    pub fn inv(&self) -> Self {
        self.pow(&sub4(&R, &[2, 0, 0, 0]))
    }
}

fn limbs_be(b: &[u8; 32]) -> [u64; 4] {
    let mut l = [0u64; 4];
    for i in 0..4 {
        l[i] = u64::from_be_bytes(b[32 - 8 * (i + 1)..32 - 8 * i].try_into().unwrap());
    }
    l
}

pub fn sha256(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}

pub fn hmac(key: &[u8], parts: &[&[u8]]) -> [u8; 32] {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        k[..32].copy_from_slice(&sha256(&[key]));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let ipad: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    let opad: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    let mut inner: Vec<&[u8]> = vec![&ipad];
    inner.extend(parts);
    sha256(&[&opad, &sha256(&inner)])
}
pub fn hkdf_extract(salt: &[u8], ikm: &[&[u8]]) -> [u8; 32] {
    hmac(salt, ikm)
}
pub fn hkdf_expand(prk: &[u8], info: &[&[u8]], out: &mut [u8]) {
    let mut t: Vec<u8> = vec![];
    for (i, chunk) in out.chunks_mut(32).enumerate() {
        let ctr = [(i + 1) as u8];
        let mut parts: Vec<&[u8]> = vec![&t];
        parts.extend(info);
        parts.push(&ctr);
        let n = hmac(prk, &parts);
        chunk.copy_from_slice(&n[..chunk.len()]);
        t = n.to_vec();
    }
}
/// `hkdf_mod_r` of EIP-2333 / KeyGen of the BLS signature draft.
pub fn hkdf_mod_r(ikm: &[u8], key_info: &[u8]) -> Fr {
    let mut salt: Vec<u8> = b"BLS-SIG-KEYGEN-SALT-".to_vec();
    loop {
        salt = sha256(&[&salt]).to_vec();
        let prk = hkdf_extract(&salt, &[ikm, &[0]]);
        let mut okm = [0u8; 48];
        hkdf_expand(&prk, &[key_info, &[0, 48]], &mut okm);
        let sk = Fr::reduce_be(&okm);
        if !sk.is_zero() {
            return sk;
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn field() {
        let a = Fr::reduce_be(b"some bytes that make a field element");
        assert_eq!(a.mul(&a.inv()), Fr::one());
        assert_eq!(a.sub(&a), Fr::ZERO);
        assert_eq!(Fr::from_be_bytes(&a.to_be_bytes()), Some(a));
        assert_eq!(Fr::from_u64(3).mul(&Fr::from_u64(5)), Fr::from_u64(15));
    }
    #[test]
    fn hkdf() {
        // RFC 5869 test case 1
        let prk = hkdf_extract(&(0u8..13).collect::<Vec<_>>(), &[&[0x0b; 22]]);
        assert_eq!(prk[..4], [0x07, 0x77, 0x09, 0x36]);
        let mut okm = [0u8; 42];
        hkdf_expand(&prk, &[&(0xf0u8..0xfa).collect::<Vec<_>>()], &mut okm);
        assert_eq!(okm[..4], [0x3c, 0xb2, 0x5f, 0x25]);
        assert_eq!(okm[38..], [0x87, 0x18, 0x58, 0x65]);
    }
}
