//! Stand-in for `aes` (FIPS 197, 128-bit key) and the stream-cipher traits.
pub mod cipher {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct InvalidLength;
    pub trait KeyIvInit: Sized {
        fn new_from_slices(key: &[u8], iv: &[u8]) -> Result<Self, InvalidLength>;
    }
    pub trait StreamCipher {
        fn apply_keystream(&mut self, buf: &mut [u8]);
    }
}
#[derive(Clone)]
pub struct Aes128([[u8; 16]; 11]);
fn xt(a: u8) -> u8 {
    a << 1 ^ if a & 0x80 != 0 { 0x1b } else { 0 }
}
fn mul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b > 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        a = xt(a);
        b >>= 1;
    }
    r
}
fn sub(x: u8) -> u8 {
    // x^254 in the field, then the affine map
    let mut y = 1;
    for i in (0..8).rev() {
        y = mul(y, y);
        if 254 >> i & 1 == 1 {
            y = mul(y, x);
        }
    }
    y ^ y.rotate_left(1) ^ y.rotate_left(2) ^ y.rotate_left(3) ^ y.rotate_left(4) ^ 0x63
}
impl Aes128 {
    pub fn new(key: &[u8; 16]) -> Self {
        let mut w = vec![[0u8; 4]; 44];
        for i in 0..4 {
            w[i].copy_from_slice(&key[4 * i..4 * i + 4]);
        }
        let mut rc = 1;
        for i in 4..44 {
            let mut t = w[i - 1];
            if i % 4 == 0 {
                t = [sub(t[1]) ^ rc, sub(t[2]), sub(t[3]), sub(t[0])];
                rc = xt(rc);
            }
            for j in 0..4 {
                w[i][j] = w[i - 4][j] ^ t[j];
            }
        }
        let mut r = [[0; 16]; 11];
        for (i, x) in w.iter().enumerate() {
            r[i / 4][4 * (i % 4)..4 * (i % 4) + 4].copy_from_slice(x);
        }
        Self(r)
    }
    pub fn encrypt(&self, b: &[u8; 16]) -> [u8; 16] {
        let mut s = *b;
        for r in 0..11 {
            if r > 0 {
                let mut t = [0; 16];
                for c in 0..4 {
                    for w in 0..4 {
                        t[4 * c + w] = sub(s[4 * ((c + w) % 4) + w]);
                    }
                }
                if r < 10 {
                    for c in 0..4 {
                        let a: [u8; 4] = t[4 * c..4 * c + 4].try_into().unwrap();
                        for w in 0..4 {
                            t[4 * c + w] = xt(a[w]) ^ xt(a[(w + 1) % 4]) ^ a[(w + 1) % 4] ^ a[(w + 2) % 4] ^ a[(w + 3) % 4];
                        }
                    }
                }
                s = t;
            }
            for i in 0..16 {
                s[i] ^= self.0[r][i];
            }
        }
        s
    }
}
