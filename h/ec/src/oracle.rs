//! Independent key derivation and keystore arithmetic, written from BIP-39, EIP-2333 and EIP-2335.
use sha2::{Digest, Sha256, Sha512};

fn hmac<D: Digest>(block: usize, key: &[u8], parts: &[&[u8]]) -> Vec<u8> {
    let mut k = vec![0u8; block];
    if key.len() > block {
        let h = D::digest(key);
        k[..h.len()].copy_from_slice(&h);
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let pad = |x: u8| k.iter().map(|b| b ^ x).collect::<Vec<u8>>();
    let mut i = D::new();
    i.update(pad(0x36));
    for p in parts {
        i.update(p);
    }
    let mut o = D::new();
    o.update(pad(0x5c));
    o.update(i.finalize());
    o.finalize().to_vec()
}
pub fn sha256(b: &[u8]) -> Vec<u8> {
    Sha256::digest(b).to_vec()
}
/// BIP-39: PBKDF2-HMAC-SHA512, 2048 rounds, one block
pub fn bip39_seed(phrase_nfkd: &str, pass_nfkd: &str) -> Vec<u8> {
    let salt = format!("mnemonic{pass_nfkd}");
    let mut u = hmac::<Sha512>(128, phrase_nfkd.as_bytes(), &[salt.as_bytes(), &1u32.to_be_bytes()]);
    let mut t = u.clone();
    for _ in 1..2048 {
        u = hmac::<Sha512>(128, phrase_nfkd.as_bytes(), &[&u]);
        for (a, b) in t.iter_mut().zip(&u) {
            *a ^= b;
        }
    }
    t
}
fn hkdf(salt: &[u8], ikm: &[u8], info: &[u8], n: usize) -> Vec<u8> {
    let prk = hmac::<Sha256>(64, salt, &[ikm]);
    let (mut out, mut t, mut i) = (vec![], vec![], 1u8);
    while out.len() < n {
        t = hmac::<Sha256>(64, &prk, &[&t, info, &[i]]);
        out.extend_from_slice(&t);
        i = i.wrapping_add(1);
    }
    out.truncate(n);
    out
}
/// the group order, big-endian
pub const R: [u8; 32] = [
    0x73, 0xed, 0xa7, 0x53, 0x29, 0x9d, 0x7d, 0x48, 0x33, 0x39, 0xd8, 0x08, 0x09, 0xa1, 0xd8, 0x05, 0x53, 0xbd, 0xa4, 0x02,
    0xff, 0xfe, 0x5b, 0xfe, 0xff, 0xff, 0xff, 0xff, 0x00, 0x00, 0x00, 0x01,
];
/// big-endian bytes modulo R, bit by bit
fn mod_r(x: &[u8]) -> [u8; 32] {
    let mut acc = [0u8; 32];
    for byte in x {
        for k in (0..8).rev() {
            let mut carry = (byte >> k) & 1;
            for b in acc.iter_mut().rev() {
                let t = *b >> 7;
                *b = *b << 1 | carry;
                carry = t;
            }
            // acc < 2R < 2^256: one subtraction suffices
            if acc >= R {
                let mut bo = 0i16;
                for i in (0..32).rev() {
                    let d = acc[i] as i16 - R[i] as i16 - bo;
                    bo = (d < 0) as i16;
                    acc[i] = d as u8;
                }
            }
        }
    }
    acc
}
fn hkdf_mod_r(ikm: &[u8]) -> [u8; 32] {
    let mut salt = b"BLS-SIG-KEYGEN-SALT-".to_vec();
    loop {
        salt = sha256(&salt);
        let mut k = ikm.to_vec();
        k.push(0);
        let okm = hkdf(&salt, &k, &[0, 48], 48);
        let sk = mod_r(&okm);
        if sk != [0; 32] {
            return sk;
        }
    }
}
pub fn master(seed: &[u8]) -> [u8; 32] {
    hkdf_mod_r(seed)
}
pub fn child(parent: &[u8; 32], index: u32) -> [u8; 32] {
    let salt = index.to_be_bytes();
    let flipped: Vec<u8> = parent.iter().map(|b| !b).collect();
    let mut pk = vec![];
    for ikm in [parent.as_slice(), &flipped] {
        for c in hkdf(&salt, ikm, &[], 255 * 32).chunks(32) {
            pk.extend(sha256(c));
        }
    }
    hkdf_mod_r(&sha256(&pk))
}
pub fn path(seed: &[u8], p: &[u32]) -> [u8; 32] {
    p.iter().fold(master(seed), |k, i| child(&k, *i))
}
/// AES-128 in counter mode with the standard 128-bit counter
pub fn aes_ctr(key: &[u8], iv: &[u8], data: &[u8]) -> Vec<u8> {
    let a = aes::Aes128::new(key.try_into().expect("16-byte key"));
    let iv = u128::from_be_bytes(iv.try_into().expect("16-byte iv"));
    data.chunks(16)
        .enumerate()
        .flat_map(|(i, c)| {
            let k = a.encrypt(&iv.wrapping_add(i as u128).to_be_bytes());
            c.iter().zip(k).map(|(x, y)| x ^ y).collect::<Vec<u8>>()
        })
        .collect()
}
/// known answers for the stand-in primitives and this oracle
pub fn self_check() {
    let h = |s: &str| hex::decode(s).unwrap();
    // FIPS 197
    assert_eq!(
        aes::Aes128::new(&h("000102030405060708090a0b0c0d0e0f").try_into().unwrap()).encrypt(&h("00112233445566778899aabbccddeeff").try_into().unwrap()).to_vec(),
        h("69c4e0d86a7b0430d8cdb78070b4c55a"),
        "aes"
    );
    // RFC 7914: scrypt("password", "NaCl", 1024, 8, 16)
    let mut o = [0u8; 64];
    scrypt::scrypt(b"password", b"NaCl", &scrypt::Params::new(10, 8, 16, 64).unwrap(), &mut o).unwrap();
    assert_eq!(hex::encode(&o[..16]), "fdbabe1c9d3472007856e7190d01e9fe", "scrypt");
    // BIP-39 and EIP-2333 test case 0
    let seed = bip39_seed("abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about", "TREZOR");
    assert_eq!(hex::encode(&seed[..8]), "c55257c360c07c72", "bip39");
    let dec = |k: [u8; 32]| {
        let mut digits = vec![0u8];
        for b in k {
            let mut c = b as u32;
            for d in digits.iter_mut() {
                let t = *d as u32 * 256 + c;
                *d = (t % 10) as u8;
                c = t / 10;
            }
            while c > 0 {
                digits.push((c % 10) as u8);
                c /= 10;
            }
        }
        digits.iter().rev().map(|d| (b'0' + d) as char).collect::<String>()
    };
    let m = master(&seed);
    assert_eq!(dec(m), "6083874454709270928345386274498605044986640685124978867557563392430687146096", "eip2333 master");
    assert_eq!(dec(child(&m, 0)), "20397789859736650942317412262472558107875392172444076792671091975210932703118", "eip2333 child");
}
