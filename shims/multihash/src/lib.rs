//! Offline stand-in for `multihash` 0.16 (`MultihashGeneric<64>`, identity and sha2 codes).
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Error {
    UnsupportedCode(u64),
    InvalidSize(u64),
    Varint,
    Io,
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Code {
    Identity,
    Sha2_256,
    Sha2_512,
}
impl TryFrom<u64> for Code {
    type Error = Error;
    fn try_from(v: u64) -> Result<Self, Error> {
        match v {
            0 => Ok(Self::Identity),
            0x12 => Ok(Self::Sha2_256),
            0x13 => Ok(Self::Sha2_512),
            _ => Err(Error::UnsupportedCode(v)),
        }
    }
}
impl From<Code> for u64 {
    fn from(c: Code) -> u64 {
        match c {
            Code::Identity => 0,
            Code::Sha2_256 => 0x12,
            Code::Sha2_512 => 0x13,
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct MultihashGeneric<const S: usize> {
    code: u64,
    size: u8,
    digest: [u8; S],
}
pub type Multihash = MultihashGeneric<64>;

fn varint(b: &[u8]) -> Result<(u64, &[u8]), Error> {
    let mut v = 0u64;
    for (i, x) in b.iter().enumerate().take(10) {
        v |= ((*x & 0x7f) as u64).checked_shl(7 * i as u32).ok_or(Error::Varint)?;
        if x & 0x80 == 0 {
            if *x == 0 && i > 0 {
                return Err(Error::Varint);
            }
            return Ok((v, &b[i + 1..]));
        }
    }
    Err(Error::Varint)
}
fn put(mut v: u64, out: &mut Vec<u8>) {
    while v >= 0x80 {
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}

impl<const S: usize> MultihashGeneric<S> {
    pub fn wrap(code: u64, d: &[u8]) -> Result<Self, Error> {
        if d.len() > S {
            return Err(Error::InvalidSize(d.len() as u64));
        }
        let mut digest = [0; S];
        digest[..d.len()].copy_from_slice(d);
        Ok(Self { code, size: d.len() as u8, digest })
    }
    pub fn code(&self) -> u64 {
        self.code
    }
    pub fn size(&self) -> u8 {
        self.size
    }
    pub fn digest(&self) -> &[u8] {
        &self.digest[..self.size as usize]
    }
    pub fn from_bytes(b: &[u8]) -> Result<Self, Error> {
        let (code, b) = varint(b)?;
        let (size, b) = varint(b)?;
        if size > S as u64 || size > 255 {
            return Err(Error::InvalidSize(size));
        }
        if b.len() < size as usize {
            return Err(Error::Io);
        }
        if b.len() > size as usize {
            return Err(Error::InvalidSize(size));
        }
        Self::wrap(code, b)
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut out = vec![];
        put(self.code, &mut out);
        put(self.size as u64, &mut out);
        out.extend(self.digest());
        out
    }
}
