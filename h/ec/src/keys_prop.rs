use crate::{
    oracle,
    validator::{keys, keystores, mnemonic},
};
use std::collections::HashSet;
use unicode_normalization::UnicodeNormalization;
use vcommon::{guard, json, scenarios, Acc, Rng, Run, Value};

fn words() -> &'static [&'static str; 2048] {
    bip39::Language::English.word_list()
}
fn phrase_of(entropy: &[u8]) -> Vec<usize> {
    let mut bits: Vec<bool> = entropy.iter().flat_map(|b| (0..8).map(move |i| b >> (7 - i) & 1 == 1)).collect();
    let h = oracle::sha256(entropy);
    bits.extend((0..entropy.len() / 4).map(|i| h[i / 8] >> (7 - i % 8) & 1 == 1));
    bits.chunks(11).map(|c| c.iter().fold(0, |a, b| a << 1 | *b as usize)).collect()
}
/// the entropy of a list of word indices when count and checksum are right
fn entropy_of(ws: &[usize]) -> Option<Vec<u8>> {
    if ![12, 15, 18, 21, 24].contains(&ws.len()) {
        return None;
    }
    let bits: Vec<bool> = ws.iter().flat_map(|w| (0..11).map(move |i| w >> (10 - i) & 1 == 1)).collect();
    let n = ws.len() * 11 * 32 / 33;
    let e: Vec<u8> = bits[..n].chunks(8).map(|c| c.iter().fold(0, |a, b| a << 1 | *b as u8)).collect();
    (phrase_of(&e) == ws).then_some(e)
}
fn text(ws: &[usize]) -> String {
    ws.iter().map(|i| words()[*i]).collect::<Vec<_>>().join(" ")
}
const PASS: &[&str] = &["", "TREZOR", "pass word", "𝔱𝔢𝔰𝔱𝔭𝔞𝔰𝔰𝔴𝔬𝔯𝔡🔑", "Å\u{0}x", "ﬁ²ǅ", "e\u{301}", "é", " lead", "trail ", "\ttab\n", " ", "  two  spaces  ", "UPPER lower", "0x00", "\"quoted\"", "\u{a0}nbsp", "ㅋㅋ 한글"];

/// number of words of a valid phrase
pub fn valid_phrase(t: &str) -> Option<usize> {
    let ix: Option<Vec<usize>> = t.split(' ').map(|w| words().iter().position(|x| *x == w)).collect();
    ix.filter(|w| entropy_of(w).is_some()).map(|w| w.len())
}
/// a phrase, valid or spoiled in one respect
pub fn some_phrase(r: &mut Rng) -> (String, bool) {
    let n = *r.pick(&[16usize, 20, 24, 28, 32]);
    let mut ws = phrase_of(&r.bytes(n));
    match r.below(5) {
        0 => {
            let k = r.idx(ws.len());
            ws[k] = r.idx(2048);
        }
        1 => {
            ws.pop();
        }
        2 => ws.push(r.idx(2048)),
        _ => {}
    }
    let ok = entropy_of(&ws).is_some();
    (text(&ws), ok)
}
pub fn mnemonics(mut run: Run) -> ! {
    run.rule("a phrase (valid, or altered in words, order or count) recovered and turned into a seed with some passphrase; a case is (phrase, passphrase, verdict)");
    scenarios(&mut run, 6000, |a, i, r| {
        let n = *r.pick(&[16usize, 20, 24, 28, 32]);
        let e = if r.chance(1, 8) { vec![*r.pick(&[0u8, 0xff, 0x80, 0x7f]); n] } else { r.bytes(n) };
        let mut ws = phrase_of(&e);
        let how = r.below(9);
        match how {
            0 => {
                let k = r.idx(ws.len());
                ws[k] = r.idx(2048);
            }
            1 => {
                ws.pop();
            }
            2 => ws.push(r.idx(2048)),
            3 => {
                let (x, y) = (r.idx(ws.len()), r.idx(ws.len()));
                ws.swap(x, y);
            }
            4 => {
                // another checksum word
                *ws.last_mut().unwrap() = r.idx(2048);
            }
            _ => {}
        }
        let mut t = text(&ws);
        let mut want = entropy_of(&ws);
        if how == 5 {
            // not a word
            let k = r.idx(ws.len());
            let mut v: Vec<String> = ws.iter().map(|i| words()[*i].to_string()).collect();
            v[k] = r.pick(&["", "zzzz", "abandonn", "0"]).to_string();
            if v[k].is_empty() {
                v.remove(k);
                want = None;
                let _ = k;
            }
            t = v.join(" ");
            want = want.filter(|_| false);
        }
        if how == 6 {
            // the right words, written otherwise
            let k = r.idx(ws.len());
            let mut v: Vec<String> = ws.iter().map(|i| words()[*i].to_string()).collect();
            t = match r.below(6) {
                0 => {
                    v[k] = v[k].to_uppercase();
                    v.join(" ")
                }
                1 => {
                    let c = v[k].remove(0).to_ascii_uppercase();
                    v[k].insert(0, c);
                    v.join(" ")
                }
                2 => text(&ws) + r.pick(&[".", ",", "\0", " 1", "-"]),
                3 => r.pick(&["\"", "1. ", "-", "\0"]).to_string() + &text(&ws),
                4 => v.join(r.pick(&["-", ",", "", "_", ", "])),
                _ => v[..k].join(" ") + " & " + &v[k..].join(" "),
            };
            want = None;
            a.count("phrases with the right words written otherwise", 1);
        }
        let got = guard(|| mnemonic::recover_from_phrase(&t));
        let got = match got {
            Ok(g) => g,
            Err(p) => {
                a.violation("recovering a phrase panics", json!({"phrase": t, "panic": p}));
                return;
            }
        };
        a.count(if want.is_some() { "valid phrases" } else { "invalid phrases" }, 1);
        a.check(got.is_ok() == want.is_some(), "phrase accepted or refused wrongly", || json!({"phrase": t, "accepted": got.is_ok(), "expected": want.is_some()}));
        let made: String;
        let pass: &str = match r.below(8) {
            // longer, built from any characters
            0 => {
                let n = *r.pick(&[1usize, 2, 5, 31, 64, 127, 128, 129, 255, 256, 257, 600]);
                made = (0..n)
                    .map(|_| match r.below(6) {
                        0 => char::from_u32(r.below(0x20) as u32),
                        1 => char::from_u32(r.below(0x250) as u32),
                        2 => char::from_u32(r.below(0x1_1000) as u32),
                        3 => Some(*r.pick(&['\0', '\n', ' ', '\u{feff}', '\u{200d}', '\u{3000}', '\u{301}', '"', '\\', '$'])),
                        _ => char::from_u32(0x20 + r.below(0x5f) as u32),
                    })
                    .map(|c| c.unwrap_or('?'))
                    .collect();
                &made
            }
            // one character after or before an ordinary one
            1 => {
                let c = *r.pick(&['\0', '\n', '\r', ' ', '\t', '\u{feff}', '\u{200b}', '\u{3000}', '.', '\'']);
                made = if r.chance(1, 2) { format!("pass{c}") } else { format!("{c}pass") };
                &made
            }
            2 if r.chance(1, 2) => {
                made = t.clone();
                &made
            }
            _ => *r.pick(PASS),
        };
        let opt = if r.chance(1, 3) { None } else { Some(pass) };
        if let (Ok(m), Some(e)) = (got, &want) {
            a.check(m.to_entropy() == *e, "recovered another entropy", || json!({"phrase": t}));
            a.check(m.to_string() == t, "phrase renders differently", || json!({"phrase": t, "got": m.to_string()}));
            let seed = mnemonic::to_seed(m, opt);
            let p: String = opt.unwrap_or("").nfkd().collect();
            let w = oracle::bip39_seed(&t, &p);
            a.check(seed.to_vec() == w, "seed", || json!({"phrase": t, "passphrase": opt, "got": hex::encode(seed), "expected": hex::encode(&w)}));
            a.count("seeds compared", 1);
        }
        a.eval(&(t.clone(), opt, want.is_some()), true);
        if i < 4 {
            a.sample(|| json!({"phrase": t, "valid": want.is_some(), "passphrase": opt}));
        }
    });
    let mut seen = HashSet::new();
    let mut ones = [0u32; 256];
    for _ in 0..200 {
        match mnemonic::generate_random_from_system_entropy() {
            Ok(m) => {
                let t = m.to_string();
                let ix: Option<Vec<usize>> = t.split(' ').map(|w| words().iter().position(|x| *x == w)).collect();
                let ok = ix.as_ref().is_some_and(|w| w.len() == 24 && entropy_of(w).is_some());
                run.check(ok, "generated phrase is not a valid 24-word phrase", || json!({"phrase": t}));
                let e = ix.and_then(|w| entropy_of(&w)).unwrap_or_default();
                for (k, n) in ones.iter_mut().enumerate().filter(|(k, _)| k / 8 < e.len()) {
                    *n += (e[k / 8] >> (7 - k % 8) & 1) as u32;
                }
                // a constant half or byte of the entropy would repeat
                run.check(seen.insert(e[..e.len() / 2].to_vec()) && seen.insert(e[e.len() / 2..].to_vec()), "generated phrases repeat entropy", || json!({"phrase": t}));
                run.eval(&("random", &t), true);
            }
            Err(e) => run.violation("generating a phrase failed", json!({"error": e.to_string()})),
        }
    }
    // a fair bit is all zero or all one over 200 phrases with probability 2^-199
    run.check(ones.iter().all(|n| (1..200).contains(n)), "a bit of the generated entropy never changes", || json!({"ones": ones.to_vec()}));
    run.floor("phrases with the right words written otherwise", 200);
    run.floor("seeds compared", 500);
    run.floor("invalid phrases", 500);
    run.finish()
}

fn seed(r: &mut Rng) -> mnemonic::Seed {
    match r.below(8) {
        0 => [0; 64],
        1 => [0xff; 64],
        2 => {
            let mut s = [0; 64];
            s[r.idx(64)] = r.u64() as u8;
            s
        }
        _ => r.arr(),
    }
}
fn start(r: &mut Rng) -> u32 {
    match r.below(6) {
        0 => 0,
        1 => r.below(20) as u32,
        2 => u32::MAX - 5 + r.below(5) as u32,
        3 => (1 << 31) - 2 + r.below(4) as u32,
        4 => 255 + r.below(3) as u32,
        _ => r.u64() as u32 / 2,
    }
}
pub fn derivation(mut run: Run) -> ! {
    run.rule("signing and withdrawal keys of an index range derived from a seed; a case is (seed, range)");
    run.assume("public keys come from the stand-in pairing library (one public key per secret key)");
    scenarios(&mut run, 3000, |a, i, r| {
        let s = seed(r);
        let from = start(r);
        let n = if r.chance(1, 60) { r.range(20, 140) as u32 } else { *r.pick(&[0u32, 1, 1, 2, 3, 5]) };
        let to = from.saturating_add(n);
        let (from, to) = if r.chance(1, 20) { (to, from) } else { (from, to) };
        let (sign, wd) = match guard(|| keys::generate(&s, from, to)) {
            Ok(x) => x,
            Err(p) => {
                a.violation("key derivation panics", json!({"seed": hex::encode(s), "from": from, "to": to, "panic": p}));
                return;
            }
        };
        let idx: Vec<u32> = (from..to).collect();
        let info = || json!({"seed": hex::encode(s), "from": from, "to": to, "signing": sign.len(), "withdrawal": wd.len()});
        if a.check(sign.len() == idx.len() && wd.len() == idx.len(), "number of derived keys", info) {
            for (k, ix) in idx.iter().enumerate() {
                let w = oracle::path(&s, &[12381, 3600, *ix, 0]);
                let g = oracle::child(&w, 0);
                for (what, got, want, path) in
                    [("withdrawal", &wd[k], w, format!("m/12381/3600/{ix}/0")), ("signing", &sign[k], g, format!("m/12381/3600/{ix}/0/0"))]
                {
                    let d = || json!({"seed": hex::encode(s), "path": path, "got": hex::encode(got.private_key.clone().to_bytes()), "expected": hex::encode(want), "got path": got.path});
                    a.check(got.private_key.clone().to_bytes() == want, &format!("{what} key"), d);
                    a.check(got.path == path, &format!("{what} path"), d);
                    a.check(got.public_key == got.private_key.public_key(), &format!("{what} public key"), d);
                    a.count("keys compared", 1);
                }
            }
        }
        a.eval(&(s, from, to), !idx.is_empty());
        if i < 4 {
            a.sample(|| json!({"seed": hex::encode(s), "from": from, "to": to}));
        }
    });
    run.floor("keys compared", 200);
    run.finish()
}

fn hexv(v: &Value) -> Option<Vec<u8>> {
    hex::decode(v.as_str()?).ok()
}
/// reads a keystore as a validator client would; `Err` says what is wrong
pub fn open(k: &Value, pass: &str) -> Result<(Vec<u8>, Value), String> {
    let e = |s: &str| s.to_string();
    let c = &k["crypto"];
    if k["version"] != json!(4) {
        return Err(e("version"));
    }
    if c["kdf"]["function"] != "scrypt" || c["checksum"]["function"] != "sha256" || c["cipher"]["function"] != "aes-128-ctr" {
        return Err(e("functions"));
    }
    if c["kdf"]["message"] != "" || c["checksum"]["params"] != json!({}) {
        return Err(e("empty fields"));
    }
    let p = &c["kdf"]["params"];
    let n = p["n"].as_u64().ok_or(e("n"))?;
    let (r, pp) = (p["r"].as_u64().ok_or(e("r"))?, p["p"].as_u64().ok_or(e("p"))?);
    let salt = hexv(&p["salt"]).ok_or(e("salt"))?;
    if !n.is_power_of_two() || p["dklen"] != json!(32) {
        return Err(e("kdf parameters"));
    }
    if n * r * pp < 1 << 20 || salt.len() < 16 {
        return Err(e("weak kdf parameters"));
    }
    let mut dk = [0u8; 32];
    let pass: String = pass.nfkd().filter(|c| !c.is_control()).collect();
    let params = scrypt::Params::new(n.trailing_zeros() as u8, r as u32, pp as u32, 32).map_err(|_| e("kdf parameters"))?;
    scrypt::scrypt(pass.as_bytes(), &salt, &params, &mut dk).map_err(|_| e("scrypt"))?;
    let ct = hexv(&c["cipher"]["message"]).ok_or(e("cipher message"))?;
    let iv = hexv(&c["cipher"]["params"]["iv"]).ok_or(e("iv"))?;
    if iv.len() != 16 {
        return Err(e("iv length"));
    }
    let sum = oracle::sha256(&[&dk[16..], &ct].concat());
    if hexv(&c["checksum"]["message"]) != Some(sum) {
        return Err(e("checksum does not match: the passphrase does not open the keystore"));
    }
    Ok((oracle::aes_ctr(&dk[..16], &iv, &ct), json!([hex::encode(&salt), hex::encode(&iv), k["uuid"]])))
}
fn judge(a: &mut Acc, seed: &[u8], ixs: &[u32], doc: &Value, fresh: &std::sync::Mutex<HashSet<String>>) {
    let Some(l) = doc.as_array() else { return a.violation("keystores are not a list", json!({})) };
    if !a.check(l.len() == ixs.len(), "number of keystores", || json!({"got": l.len(), "expected": ixs.len()})) {
        return;
    }
    for (d, ix) in l.iter().zip(ixs) {
        let want = oracle::path(seed, &[12381, 3600, *ix, 0, 0]);
        let info = |x: String| json!({"seed": hex::encode(seed), "index": ix, "wrong": x, "keystore": d});
        let (Some(t), Some(pass)) = (d["voting_keystore"].as_str(), d["voting_keystore_password"].as_str()) else {
            a.violation("keystore entry shape", info(String::new()));
            continue;
        };
        let Ok(k) = serde_json::from_str::<Value>(t) else {
            a.violation("keystore is not a document", info(String::new()));
            continue;
        };
        a.check(pass.len() >= 24, "weak passphrase", || info(pass.to_string()));
        match open(&k, pass) {
            Err(e) => a.violation("keystore does not open", info(e)),
            Ok((secret, once)) => {
                a.check(secret == want, "keystore holds another key", || info(hex::encode(&secret)));
                a.check(k["path"] == json!(format!("m/12381/3600/{ix}/0/0")), "keystore path", || info(k["path"].to_string()));
                let pk = ethereum_consensus::crypto::SecretKey::try_from(want.as_ref()).map(|s| s.public_key());
                let ok = pk.is_ok_and(|p| {
                    let p = hex::encode(p.as_ref());
                    k["pubkey"].as_str().map(|s| s.trim_start_matches("0x") == p).unwrap_or(false)
                });
                a.check(ok, "keystore public key", || info(k["pubkey"].to_string()));
                let u = k["uuid"].as_str().unwrap_or("");
                a.check(u.len() == 36 && &u[14..15] == "4", "uuid version", || info(u.into()));
                let mut f = fresh.lock().unwrap();
                for x in once.as_array().unwrap().iter().chain([&json!(pass)]) {
                    a.check(f.insert(x.to_string()), "salt, iv, uuid or passphrase used twice", || info(x.to_string()));
                }
                a.count("keystores opened", 1);
            }
        }
        a.eval(&(seed, ix), true);
    }
}
pub fn keystores(mut run: Run) -> ! {
    run.rule("keystores generated for keys derived from a seed (in process and through the command line), opened with the accompanying passphrase; a case is (seed, index)");
    run.assume("scrypt and AES are stand-ins validated against published vectors");
    let fresh = std::sync::Mutex::new(HashSet::new());
    scenarios(&mut run, 96, |a, i, r| {
        if i % 6 == 5 {
            // through the tool: phrase to keystores
            let e = r.bytes(32);
            let t = text(&phrase_of(&e));
            let from = start(r).min(u32::MAX - 2);
            let n = r.range(0, 2) as u32;
            let out = crate::tool::call(&["validator", "generate-lighthouse-keystores", &t, &from.to_string(), &(from + n).to_string()], b"");
            let seed = oracle::bip39_seed(&t, "");
            match (out.ok, serde_json::from_slice::<Value>(&out.stdout)) {
                (true, Ok(v)) => judge(a, &seed, &(from..from + n).collect::<Vec<_>>(), &v, &fresh),
                _ => a.violation("keystore command fails", json!({"phrase": t, "from": from, "n": n, "stderr": out.stderr})),
            }
            a.count("tool runs", 1);
        } else {
            let s = seed(r);
            let from = start(r);
            let to = from.saturating_add(1 + r.below(2) as u32);
            let (sign, _) = keys::generate(&s, from, to);
            let ks = match guard(|| serde_json::to_value(keystores::generate(sign)).unwrap()) {
                Ok(k) => k,
                Err(p) => return a.violation("keystore generation panics", json!({"seed": hex::encode(s), "from": from, "panic": p})),
            };
            judge(a, &s, &(from..to).collect::<Vec<_>>(), &ks, &fresh);
            if i < 3 {
                a.sample(|| json!({"seed": hex::encode(s), "from": from, "to": to, "keystores": ks.as_array().map(|l| l.len())}));
            }
        }
    });
    run.floor("keystores opened", 30);
    run.floor("tool runs", 4);
    run.finish()
}
