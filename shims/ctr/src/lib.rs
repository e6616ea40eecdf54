//! Stand-in for `ctr`: counter mode with 32-, 64- or 128-bit big-endian counters.
use aes::cipher::{InvalidLength, KeyIvInit, StreamCipher};
pub trait Block: Sized {
    fn key(k: &[u8]) -> Option<Self>;
    fn enc(&self, b: &[u8; 16]) -> [u8; 16];
}
impl Block for aes::Aes128 {
    fn key(k: &[u8]) -> Option<Self> {
        Some(aes::Aes128::new(k.try_into().ok()?))
    }
    fn enc(&self, b: &[u8; 16]) -> [u8; 16] {
        self.encrypt(b)
    }
}
pub struct Ctr<C, const BITS: u32> {
    c: C,
    iv: u128,
    n: u128,
    pos: usize,
}
pub type Ctr32BE<C> = Ctr<C, 32>;
pub type Ctr64BE<C> = Ctr<C, 64>;
pub type Ctr128BE<C> = Ctr<C, 128>;
impl<C: Block, const B: u32> KeyIvInit for Ctr<C, B> {
    fn new_from_slices(key: &[u8], iv: &[u8]) -> Result<Self, InvalidLength> {
        let iv: [u8; 16] = iv.try_into().map_err(|_| InvalidLength)?;
        Ok(Self { c: C::key(key).ok_or(InvalidLength)?, iv: u128::from_be_bytes(iv), n: 0, pos: 0 })
    }
}
impl<C: Block, const B: u32> StreamCipher for Ctr<C, B> {
    fn apply_keystream(&mut self, buf: &mut [u8]) {
        let mask = if B == 128 { u128::MAX } else { (1u128 << B) - 1 };
        for x in buf {
            let ctr = self.iv & !mask | self.iv.wrapping_add(self.n) & mask;
            *x ^= self.c.enc(&ctr.to_be_bytes())[self.pos];
            self.pos += 1;
            if self.pos == 16 {
                self.pos = 0;
                self.n += 1;
            }
        }
    }
}
