//! Stand-in for `scrypt` (RFC 7914) with the part of `password_hash` in use.
use sha2::{Digest, Sha256};
fn hmac(key: &[u8], parts: &[&[u8]]) -> [u8; 32] {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        k[..32].copy_from_slice(&Sha256::digest(key));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let mut i = Sha256::new();
    i.update(k.map(|b| b ^ 0x36));
    for p in parts {
        i.update(p);
    }
    let i = i.finalize();
    let mut o = Sha256::new();
    o.update(k.map(|b| b ^ 0x5c));
    o.update(i);
    o.finalize().into()
}
fn pbkdf2_1(pw: &[u8], salt: &[u8], out: &mut [u8]) {
    for (i, c) in out.chunks_mut(32).enumerate() {
        let t = hmac(pw, &[salt, &(i as u32 + 1).to_be_bytes()]);
        c.copy_from_slice(&t[..c.len()]);
    }
}
fn salsa8(b: &mut [u32; 16]) {
    let mut x = *b;
    for _ in 0..4 {
        macro_rules! q {
            ($a:expr, $b:expr, $c:expr, $d:expr) => {
                x[$b] ^= x[$a].wrapping_add(x[$d]).rotate_left(7);
                x[$c] ^= x[$b].wrapping_add(x[$a]).rotate_left(9);
                x[$d] ^= x[$c].wrapping_add(x[$b]).rotate_left(13);
                x[$a] ^= x[$d].wrapping_add(x[$c]).rotate_left(18);
            };
        }
        q!(0, 4, 8, 12);
        q!(5, 9, 13, 1);
        q!(10, 14, 2, 6);
        q!(15, 3, 7, 11);
        q!(0, 1, 2, 3);
        q!(5, 6, 7, 4);
        q!(10, 11, 8, 9);
        q!(15, 12, 13, 14);
    }
    for i in 0..16 {
        b[i] = b[i].wrapping_add(x[i]);
    }
}
fn block_mix(b: &[u32], out: &mut [u32]) {
    let n = b.len() / 16;
    let mut x: [u32; 16] = b[(n - 1) * 16..].try_into().unwrap();
    for i in 0..n {
        for j in 0..16 {
            x[j] ^= b[i * 16 + j];
        }
        salsa8(&mut x);
        let at = if i % 2 == 0 { i / 2 } else { n / 2 + i / 2 };
        out[at * 16..at * 16 + 16].copy_from_slice(&x);
    }
}
fn ro_mix(b: &mut [u8], n: usize) {
    let w = b.len() / 4;
    let mut x: Vec<u32> = b.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
    let mut y = vec![0; w];
    let mut v = vec![0u32; w * n];
    for i in 0..n {
        v[i * w..(i + 1) * w].copy_from_slice(&x);
        block_mix(&x, &mut y);
        std::mem::swap(&mut x, &mut y);
    }
    for _ in 0..n {
        let j = x[w - 16] as usize % n;
        for (a, b) in x.iter_mut().zip(&v[j * w..(j + 1) * w]) {
            *a ^= b;
        }
        block_mix(&x, &mut y);
        std::mem::swap(&mut x, &mut y);
    }
    for (c, a) in b.chunks_mut(4).zip(&x) {
        c.copy_from_slice(&a.to_le_bytes());
    }
}
pub fn scrypt(pw: &[u8], salt: &[u8], params: &Params, out: &mut [u8]) -> Result<(), errors::InvalidOutputLen> {
    let mut b = vec![0u8; 128 * params.r as usize * params.p as usize];
    pbkdf2_1(pw, salt, &mut b);
    for c in b.chunks_mut(128 * params.r as usize) {
        ro_mix(c, 1 << params.log_n);
    }
    pbkdf2_1(pw, &b, out);
    Ok(())
}
pub mod errors {
    #[derive(Debug, Clone, Copy)]
    pub struct InvalidOutputLen;
    #[derive(Debug, Clone, Copy)]
    pub struct InvalidParams;
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Params {
    log_n: u8,
    r: u32,
    p: u32,
    len: usize,
}
impl Params {
    pub const RECOMMENDED_LOG_N: u8 = 17;
    pub const RECOMMENDED_R: u32 = 8;
    pub const RECOMMENDED_P: u32 = 1;
    pub const RECOMMENDED_LEN: usize = 32;
    pub fn new(log_n: u8, r: u32, p: u32, len: usize) -> Result<Self, errors::InvalidParams> {
        if log_n == 0 || log_n > 30 || r == 0 || p == 0 || !(10..=64).contains(&len) {
            return Err(errors::InvalidParams);
        }
        Ok(Self { log_n, r, p, len })
    }
    pub fn recommended() -> Self {
        Self { log_n: 17, r: 8, p: 1, len: 32 }
    }
    pub fn log_n(&self) -> u8 {
        self.log_n
    }
    pub fn r(&self) -> u32 {
        self.r
    }
    pub fn p(&self) -> u32 {
        self.p
    }
}
impl Default for Params {
    fn default() -> Self {
        Self::recommended()
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Scrypt;
pub mod password_hash {
    pub use rand_core;
    use std::fmt;
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct Error;
    impl fmt::Display for Error {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("password hash error")
        }
    }
    impl std::error::Error for Error {}
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    fn enc(b: &[u8]) -> String {
        let mut s = String::new();
        for c in b.chunks(3) {
            let mut n = 0u32;
            for i in 0..3 {
                n = n << 8 | *c.get(i).unwrap_or(&0) as u32;
            }
            for i in 0..=c.len() {
                s.push(A[(n >> (18 - 6 * i) & 63) as usize] as char);
            }
        }
        s
    }
    fn dec(s: &str) -> Result<Vec<u8>, Error> {
        let (mut out, mut acc, mut bits) = (vec![], 0u32, 0);
        for c in s.bytes() {
            let v = A.iter().position(|a| *a == c).ok_or(Error)? as u32;
            acc = acc << 6 | v;
            bits += 6;
            if bits >= 8 {
                bits -= 8;
                out.push((acc >> bits) as u8);
                acc &= (1 << bits) - 1;
            }
        }
        if bits >= 6 || acc != 0 {
            return Err(Error);
        }
        Ok(out)
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct SaltString(String);
    impl SaltString {
        pub fn generate(mut rng: impl rand_core::CryptoRng + rand_core::RngCore) -> Self {
            let mut b = [0u8; 16];
            rng.fill_bytes(&mut b);
            Self(enc(&b))
        }
        pub fn from_b64(s: &str) -> Result<Self, Error> {
            dec(s)?;
            if s.len() < 4 || s.len() > 64 {
                return Err(Error);
            }
            Ok(Self(s.into()))
        }
        pub fn encode_b64(b: &[u8]) -> Result<Self, Error> {
            Self::from_b64(&enc(b))
        }
        pub fn decode_b64<'a>(&self, buf: &'a mut [u8]) -> Result<&'a [u8], Error> {
            let d = dec(&self.0)?;
            let b = buf.get_mut(..d.len()).ok_or(Error)?;
            b.copy_from_slice(&d);
            Ok(b)
        }
        pub fn as_str(&self) -> &str {
            &self.0
        }
        #[allow(clippy::len_without_is_empty)]
        pub fn len(&self) -> usize {
            self.0.len()
        }
    }
    pub struct Salt<'a>(pub(crate) &'a SaltString);
    impl<'a> From<&'a SaltString> for Salt<'a> {
        fn from(s: &'a SaltString) -> Self {
            Salt(s)
        }
    }
    #[derive(Clone, Copy, Debug)]
    pub struct Ident<'a>(pub &'a str);
    #[derive(Clone, Debug)]
    pub struct Output(pub(crate) Vec<u8>);
    impl Output {
        pub fn as_bytes(&self) -> &[u8] {
            &self.0
        }
    }
    #[derive(Clone, Debug)]
    pub struct PasswordHash {
        pub hash: Option<Output>,
    }
    pub trait PasswordHasher {
        type Params: Clone + Default;
        fn hash_password_customized<'a>(
            &self,
            password: &[u8],
            algorithm: Option<Ident<'a>>,
            version: Option<u32>,
            params: Self::Params,
            salt: impl Into<Salt<'a>>,
        ) -> Result<PasswordHash, Error>;
    }
    impl PasswordHasher for super::Scrypt {
        type Params = super::Params;
        fn hash_password_customized<'a>(
            &self,
            password: &[u8],
            _: Option<Ident<'a>>,
            version: Option<u32>,
            params: super::Params,
            salt: impl Into<Salt<'a>>,
        ) -> Result<PasswordHash, Error> {
            if version.is_some() {
                return Err(Error);
            }
            let mut out = vec![0; params.len];
            let mut buf = [0u8; 64];
            let s = salt.into();
            let salt = s.0.decode_b64(&mut buf)?;
            super::scrypt(password, salt, &params, &mut out).map_err(|_| Error)?;
            Ok(PasswordHash { hash: Some(Output(out)) })
        }
    }
}
