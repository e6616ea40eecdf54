//! Stand-in for `hkdf` (RFC 5869) over a 64-byte-block digest.
use sha2::Digest;
use std::marker::PhantomData;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct InvalidLength;
impl std::fmt::Display for InvalidLength {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("invalid number of blocks, too large output")
    }
}
impl std::error::Error for InvalidLength {}
pub fn hmac<D: Digest>(key: &[u8], parts: &[&[u8]]) -> Vec<u8> {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        let h = D::digest(key);
        k[..h.len()].copy_from_slice(&h);
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let mut i = D::new();
    i.update(k.map(|b| b ^ 0x36));
    for p in parts {
        i.update(p);
    }
    let i = i.finalize();
    let mut o = D::new();
    o.update(k.map(|b| b ^ 0x5c));
    o.update(&i);
    o.finalize().to_vec()
}
pub struct Hkdf<D>(Vec<u8>, PhantomData<D>);
impl<D: Digest> Hkdf<D> {
    pub fn new(salt: Option<&[u8]>, ikm: &[u8]) -> Self {
        Self(hmac::<D>(salt.unwrap_or(&[]), &[ikm]), PhantomData)
    }
    pub fn expand(&self, info: &[u8], okm: &mut [u8]) -> Result<(), InvalidLength> {
        if okm.len() > 255 * self.0.len() {
            return Err(InvalidLength);
        }
        let mut t: Vec<u8> = vec![];
        for (i, c) in okm.chunks_mut(self.0.len()).enumerate() {
            t = hmac::<D>(&self.0, &[&t, info, &[i as u8 + 1]]);
            c.copy_from_slice(&t[..c.len()]);
        }
        Ok(())
    }
}
