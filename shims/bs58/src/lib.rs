//! Offline stand-in for `bs58` (bitcoin alphabet).
const ALPHABET: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
pub struct EncodeBuilder(Vec<u8>);
pub fn encode<I: AsRef<[u8]>>(i: I) -> EncodeBuilder {
    EncodeBuilder(i.as_ref().to_vec())
}
impl EncodeBuilder {
    pub fn into_string(self) -> String {
        let mut d: Vec<u8> = vec![];
        for b in &self.0 {
            let mut c = *b as u32;
            for x in d.iter_mut() {
                c += (*x as u32) << 8;
                *x = (c % 58) as u8;
                c /= 58;
            }
            while c > 0 {
                d.push((c % 58) as u8);
                c /= 58;
            }
        }
        let z = self.0.iter().take_while(|b| **b == 0).count();
        let mut s = "1".repeat(z);
        s.extend(d.iter().rev().map(|x| ALPHABET[*x as usize] as char));
        s
    }
    pub fn into_vec(self) -> Vec<u8> {
        self.into_string().into_bytes()
    }
}
pub mod decode {
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum Error {
        BufferTooSmall,
        InvalidCharacter { character: char, index: usize },
        NonAsciiCharacter { index: usize },
    }
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for Error {}
    pub type Result<T> = std::result::Result<T, Error>;
}
pub struct DecodeBuilder(Vec<u8>);
#[allow(non_snake_case)]
pub fn decode<I: AsRef<[u8]>>(i: I) -> DecodeBuilder {
    DecodeBuilder(i.as_ref().to_vec())
}
impl DecodeBuilder {
    pub fn into_vec(self) -> decode::Result<Vec<u8>> {
        let mut out: Vec<u8> = vec![];
        for (i, c) in self.0.iter().enumerate() {
            if *c > 127 {
                return Err(decode::Error::NonAsciiCharacter { index: i });
            }
            let mut v = ALPHABET
                .iter()
                .position(|a| a == c)
                .ok_or(decode::Error::InvalidCharacter { character: *c as char, index: i })?
                as u32;
            for x in out.iter_mut() {
                v += *x as u32 * 58;
                *x = v as u8;
                v >>= 8;
            }
            while v > 0 {
                out.push(v as u8);
                v >>= 8;
            }
        }
        let z = self.0.iter().take_while(|b| **b == b'1').count();
        out.extend(vec![0; z]);
        out.reverse();
        Ok(out)
    }
}
