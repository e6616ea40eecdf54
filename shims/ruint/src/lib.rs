//! Stand-in for `ruint`: little-endian limbs, schoolbook arithmetic.
use std::cmp::Ordering;
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Uint<const BITS: usize, const LIMBS: usize>([u64; LIMBS]);
impl<const B: usize, const L: usize> Default for Uint<B, L> {
    fn default() -> Self {
        Self([0; L])
    }
}
pub mod aliases {
    pub type U256 = super::Uint<256, 4>;
    pub type U384 = super::Uint<384, 6>;
    pub type U512 = super::Uint<512, 8>;
    pub type U64 = super::Uint<64, 1>;
    pub type U128 = super::Uint<128, 2>;
}
pub trait Limbs {
    fn limbs(&self) -> Vec<u64>;
}
impl<const B: usize, const L: usize> Limbs for Uint<B, L> {
    fn limbs(&self) -> Vec<u64> {
        self.0.to_vec()
    }
}
macro_rules! small { ($($t:ty),*) => { $(impl Limbs for $t { fn limbs(&self) -> Vec<u64> { vec![*self as u64] } })* } }
small!(u8, u16, u32, u64, usize, i32);
impl Limbs for u128 {
    fn limbs(&self) -> Vec<u64> {
        vec![*self as u64, (*self >> 64) as u64]
    }
}
impl<const B: usize, const L: usize> Uint<B, L> {
    pub const ZERO: Self = Self([0; L]);
    pub const MAX: Self = Self([u64::MAX; L]);
    pub const BITS: usize = B;
    pub const BYTES: usize = B / 8;
    #[allow(clippy::should_implement_trait)]
    pub fn from<T: Limbs>(x: T) -> Self {
        let mut r = [0; L];
        for (i, l) in x.limbs().into_iter().enumerate() {
            if i < L {
                r[i] = l;
            } else {
                assert!(l == 0, "Overflow in Uint::from");
            }
        }
        Self(r)
    }
    pub const fn as_limbs(&self) -> &[u64; L] {
        &self.0
    }
    pub const fn from_limbs(l: [u64; L]) -> Self {
        Self(l)
    }
    pub fn is_zero(&self) -> bool {
        self.0 == [0; L]
    }
    pub fn from_be_slice(b: &[u8]) -> Self {
        assert!(b.len() <= B / 8, "Value too large for Uint");
        let mut r = [0; L];
        for (i, x) in b.iter().rev().enumerate() {
            r[i / 8] |= (*x as u64) << (8 * (i % 8));
        }
        Self(r)
    }
    pub fn from_le_slice(b: &[u8]) -> Self {
        let mut v = b.to_vec();
        v.reverse();
        Self::from_be_slice(&v)
    }
    pub fn from_be_bytes<const N: usize>(b: [u8; N]) -> Self {
        assert!(N == B / 8, "BYTES must equal Self::BYTES");
        Self::from_be_slice(&b)
    }
    pub fn from_le_bytes<const N: usize>(b: [u8; N]) -> Self {
        assert!(N == B / 8, "BYTES must equal Self::BYTES");
        Self::from_le_slice(&b)
    }
    pub fn to_le_bytes<const N: usize>(&self) -> [u8; N] {
        assert!(N == B / 8, "BYTES must equal Self::BYTES");
        let mut r = [0; N];
        for (i, x) in r.iter_mut().enumerate() {
            *x = (self.0[i / 8] >> (8 * (i % 8))) as u8;
        }
        r
    }
    pub fn to_be_bytes<const N: usize>(&self) -> [u8; N] {
        let mut r = self.to_le_bytes::<N>();
        r.reverse();
        r
    }
    pub const fn bit(&self, i: usize) -> bool {
        self.0[i / 64] >> (i % 64) & 1 == 1
    }
    fn minus(&self, o: &Self) -> (Self, bool) {
        let mut r = [0; L];
        let mut bo = false;
        for i in 0..L {
            let (a, x) = self.0[i].overflowing_sub(o.0[i]);
            let (a, y) = a.overflowing_sub(bo as u64);
            r[i] = a;
            bo = x | y;
        }
        (Self(r), bo)
    }
    pub fn div_rem(self, d: Self) -> (Self, Self) {
        assert!(!d.is_zero(), "division by zero");
        let (mut q, mut r) = ([0; L], Self::ZERO);
        for i in (0..64 * L).rev() {
            let mut carry = self.bit(i) as u64;
            for x in r.0.iter_mut() {
                let t = *x >> 63;
                *x = *x << 1 | carry;
                carry = t;
            }
            if carry == 1 || r >= d {
                r = r.minus(&d).0;
                q[i / 64] |= 1 << (i % 64);
            }
        }
        (Self(q), r)
    }
    pub const fn parse(s: &str) -> Self {
        let b = s.as_bytes();
        let mut r = [0u64; L];
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'U' {
                break;
            }
            if b[i] != b'_' {
                assert!(b[i] >= b'0' && b[i] <= b'9');
                let mut carry = (b[i] - b'0') as u128;
                let mut j = 0;
                while j < L {
                    let t = r[j] as u128 * 10 + carry;
                    r[j] = t as u64;
                    carry = t >> 64;
                    j += 1;
                }
                assert!(carry == 0);
            }
            i += 1;
        }
        Self(r)
    }
}
impl<const B: usize, const L: usize> PartialOrd for Uint<B, L> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl<const B: usize, const L: usize> Ord for Uint<B, L> {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.iter().rev().cmp(o.0.iter().rev())
    }
}
impl<const B: usize, const L: usize> std::ops::Rem for Uint<B, L> {
    type Output = Self;
    fn rem(self, d: Self) -> Self {
        self.div_rem(d).1
    }
}
impl<const B: usize, const L: usize> std::ops::Div for Uint<B, L> {
    type Output = Self;
    fn div(self, d: Self) -> Self {
        self.div_rem(d).0
    }
}
impl<const B: usize, const L: usize> std::ops::Add for Uint<B, L> {
    type Output = Self;
    fn add(self, d: Self) -> Self {
        let mut r = [0; L];
        let mut c = 0u128;
        for i in 0..L {
            let t = self.0[i] as u128 + d.0[i] as u128 + c;
            r[i] = t as u64;
            c = t >> 64;
        }
        Self(r)
    }
}
impl<const B: usize, const L: usize> std::ops::Sub for Uint<B, L> {
    type Output = Self;
    fn sub(self, d: Self) -> Self {
        self.minus(&d).0
    }
}
impl<const B: usize, const L: usize> std::fmt::Debug for Uint<B, L> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("0x")?;
        for l in self.0.iter().rev() {
            write!(f, "{l:016x}")?;
        }
        Ok(())
    }
}
impl<const B: usize, const L: usize> std::fmt::Display for Uint<B, L> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(self, f)
    }
}
/// Only the form used here: a single decimal `…_U256` literal.
#[macro_export]
macro_rules! uint {
    ($t:tt) => {
        $crate::aliases::U256::parse(stringify!($t))
    };
}
