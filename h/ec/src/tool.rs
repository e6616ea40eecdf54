//! The `ec` command line tool as a user runs it.
use std::{
    io::{Read, Write},
    process::{Command, Stdio},
};
use vcommon::{json, scenarios, Rng, Run, Value};

pub struct Out {
    pub ok: bool,
    /// ended by a panic (exit code 101) or a signal
    pub crashed: bool,
    pub stdout: Vec<u8>,
    pub stderr: String,
}
pub fn call(args: &[&str], input: &[u8]) -> Out {
    let exe = std::env::current_exe().unwrap().with_file_name("repo-ec");
    let mut c = Command::new(&exe)
        .args(args)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap_or_else(|e| panic!("harness: cannot run {exe:?}: {e}"));
    let mut i = c.stdin.take().unwrap();
    let input = input.to_vec();
    let w = std::thread::spawn(move || {
        let _ = i.write_all(&input);
    });
    let mut e = c.stderr.take().unwrap();
    let er = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = e.read_to_end(&mut s);
        s
    });
    let mut stdout = vec![];
    c.stdout.take().unwrap().read_to_end(&mut stdout).unwrap();
    let st = c.wait().unwrap();
    let _ = w.join();
    let stderr = String::from_utf8_lossy(&er.join().unwrap()).chars().take(600).collect();
    Out { ok: st.success(), crashed: st.code().is_none() || st.code() == Some(101), stdout, stderr }
}
pub const BLOB: usize = 131072;
const FE: usize = 4096;
/// the packing: consecutive 254-bit groups, each in the low 254 bits of a 32-byte big-endian element
pub fn pack(data: &[u8]) -> Vec<Vec<u8>> {
    let bits = data.len() * 8;
    let elements = bits.div_ceil(254);
    let blobs = elements.div_ceil(FE).max(1);
    let mut out = vec![vec![0u8; BLOB]; blobs];
    for i in 0..bits {
        if data[i / 8] >> (7 - i % 8) & 1 == 1 {
            let (e, k) = (i / 254, 2 + i % 254);
            out[e / FE][(e % FE) * 32 + k / 8] |= 1 << (7 - k % 8);
        }
    }
    out
}
/// all the 254-bit groups of some blobs, as bytes (the last byte zero-filled)
pub fn unpack(blobs: &[Vec<u8>]) -> Vec<u8> {
    let n = blobs.len() * FE * 254;
    let mut out = vec![0u8; n.div_ceil(8)];
    for i in 0..n {
        let (e, k) = (i / 254, 2 + i % 254);
        if blobs[e / FE][(e % FE) * 32 + k / 8] >> (7 - k % 8) & 1 == 1 {
            out[i / 8] |= 1 << (7 - i % 8);
        }
    }
    out
}
fn to_json(blobs: &[Vec<u8>]) -> Vec<u8> {
    serde_json::to_vec(&blobs.iter().map(|b| format!("0x{}", hex::encode(b))).collect::<Vec<_>>()).unwrap()
}
fn from_json(v: &[u8]) -> Option<Vec<Vec<u8>>> {
    let v: Vec<String> = serde_json::from_slice(v).ok()?;
    v.iter().map(|s| hex::decode(s.strip_prefix("0x")?).ok()).collect()
}
/// capacity of one blob in bytes
const CAP: usize = FE * 254 / 8;
fn length(r: &mut Rng) -> usize {
    match r.below(9) {
        8 => {
            // around a whole number of blobs, past the number a block may hold
            let k = 3 + r.idx(7);
            k * CAP - 8 + r.idx(48)
        }
        0 => r.idx(6),
        1 => r.idx(100),
        2 => r.idx(CAP),
        3 => CAP - 8 + r.idx(17),
        4 => CAP + r.idx(40),
        5 => 2 * CAP - 8 + r.idx(48),
        6 => 31 + r.idx(70),
        _ => CAP + r.idx(2 * CAP),
    }
}
fn data(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(5) {
        0 => vec![0xff; n],
        1 => {
            let mut d = vec![0; n];
            if n > 0 {
                d[n - 1] = 1 + r.below(255) as u8;
            }
            d
        }
        _ => r.bytes(n),
    }
}
pub fn blobs(mut run: Run) -> ! {
    run.rule("bytes encoded to blobs and back through the command line in either framing, and blobs with altered frames decoded; a case is (framing, bytes, alteration)");
    scenarios(&mut run, 400, |a, i, r| {
        let sized = r.chance(1, 2);
        let mut n = length(r);
        if i == 5 || i % 1000 == 999 {
            // a size of four bytes
            n = (1 << 24) + r.idx(1 << 20);
        }
        // with the frame and without, exactly one, two and three blobs, a byte less and a byte more
        let exact = (6..24).contains(&i).then(|| i - 6);
        let sized = if exact.is_some_and(|k| k >= 9) { false } else { sized } || i == 5 || exact.is_some_and(|k| k < 9);
        let mode = if sized { "sized" } else { "raw" };
        if let Some(k) = exact {
            n = (1 + (k as usize % 9) / 3) * CAP + k as usize % 3 - 1;
        }
        if sized && n >= 5 && (exact.is_some() || r.chance(1, 2)) {
            n -= 5;
        }
        let d = data(r, n);
        let args: Vec<&str> = if sized && r.chance(1, 3) { vec!["blobs", "encode"] } else { vec!["blobs", "encode", mode] };
        let e = call(&args, &d);
        let mut framed = vec![];
        if sized {
            framed.push(0);
            framed.extend_from_slice(&(n as u32).to_be_bytes());
        }
        framed.extend_from_slice(&d);
        let want = pack(&framed);
        let info = |x: Value| json!({"framing": mode, "length": n, "data starts": hex::encode(&d[..n.min(40)]), "observed": x});
        a.eval(&(mode, &d), true);
        let Some(got) = from_json(&e.stdout).filter(|_| e.ok) else {
            return a.violation("encode fails", info(json!(e.stderr)));
        };
        if got != want {
            let at = got.iter().zip(&want).position(|(x, y)| x != y);
            let off = at.and_then(|b| got[b].iter().zip(&want[b]).position(|(x, y)| x != y));
            a.violation("encoding", info(json!({"blobs": got.len(), "expected blobs": want.len(), "first different blob": at, "byte": off})));
        }
        // decode: what was encoded, or with another frame
        let mut stream = framed.clone();
        let mut blobs = got;
        let how = r.below(6);
        if how >= 3 {
            stream = unpack(&want);
            match how {
                3 => {
                    let cap = want.len() * CAP;
                    let any = r.u64() as u32;
                    let size = *r.pick(&[
                        0u32, 1, n as u32, n as u32 + 1, cap as u32, cap as u32 - 4, cap as u32 - 5, cap as u32 - 6, cap as u32 + 1,
                        (want.len() * BLOB) as u32, (want.len() * BLOB) as u32 - 5, (want.len() * BLOB) as u32 - 4, u32::MAX, 1 << 31, any,
                    ]);
                    stream[0] = 0;
                    stream[1..5].copy_from_slice(&size.to_be_bytes());
                }
                4 => stream[0] = r.u64() as u8,
                _ => {
                    let k = r.idx(stream.len());
                    stream[k] ^= 1 << r.below(8);
                }
            }
            stream.truncate(want.len() * CAP);
            blobs = pack(&stream);
            blobs.truncate(want.len());
        }
        let full = unpack(&blobs);
        let args: Vec<&str> = if sized && r.chance(1, 3) { vec!["blobs", "decode"] } else { vec!["blobs", "decode", mode] };
        let o = call(&args, &to_json(&blobs));
        a.check(!o.crashed, &format!("decode crashes ({mode})"), || info(json!({"alteration": how, "stderr": o.stderr, "frame": hex::encode(&stream[..5.min(stream.len())])})));
        if !sized {
            // the encoded bytes, then nothing but padding
            let ok = o.ok && o.stdout.len() >= full.len() && o.stdout[..full.len()] == full[..] && o.stdout[full.len()..].iter().all(|b| *b == 0);
            a.check(ok, "raw decoding differs", || info(json!({"alteration": how, "got": o.stdout.len(), "stderr": o.stderr})));
            a.count("raw round trips", 1);
        } else {
            let size = u32::from_be_bytes(full[1..5].try_into().unwrap()) as usize;
            let version_ok = full[0] == 0;
            if version_ok && size + 5 <= full.len() {
                let ok = o.ok && o.stdout == full[5..5 + size];
                a.check(ok, "sized decoding differs", || info(json!({"alteration": how, "size": size, "got": o.stdout.len(), "ok": o.ok, "stderr": o.stderr})));
                a.count("sized round trips", 1);
            } else if !version_ok || size + 5 > blobs.len() * BLOB {
                a.check(!o.ok, "a frame that cannot be right is accepted", || info(json!({"version": full[0], "size": size, "available": full.len() - 5, "got": o.stdout.len()})));
                a.count("frames refused", 1);
            } else {
                // sizes between the blobs' payload capacity and their serialized size: zero padding or refusal
                a.count("frames in the padding range", 1);
            }
        }
        if how < 3 && sized {
            a.check(o.stdout == d, "data does not survive encoding and decoding", || info(json!({"got": o.stdout.len(), "stderr": o.stderr})));
        }
        if i < 4 {
            a.sample(|| json!({"framing": mode, "bytes": n, "blobs": want.len(), "alteration": how}));
        }
    });
    // documents that are not lists of blobs
    for (k, doc) in [
        "", "{}", "null", "[1]", "[\"\"]", "[\"0x\"]", "[\"0x00\"]", "\"0x00\"", "[null]", "[[]]",
    ]
    .iter()
    .enumerate()
    {
        for m in ["raw", "sized"] {
            let o = call(&["blobs", "decode", m], doc.as_bytes());
            run.check(!o.ok && !o.crashed, "malformed document accepted or crashes", || json!({"document": doc, "ok": o.ok, "stderr": o.stderr}));
            run.eval(&(k, m), true);
        }
    }
    let o = call(&["blobs", "decode", "sized"], b"[]");
    run.check(!o.ok && !o.crashed, "sized decoding of no blobs", || json!({"stderr": o.stderr}));
    run.floor("raw round trips", 60);
    run.floor("sized round trips", 60);
    run.floor("frames refused", 10);
    run.finish()
}
pub fn bundles(mut run: Run) -> ! {
    use ethereum_consensus::crypto::kzg::{kzg_settings_with_precompute_arc, verify_blob_kzg_proof, KzgCommitment, KzgProof};
    use ethereum_consensus::{crypto::PRECOMPUTE, deneb::mainnet::Blob};
    run.rule("lists of blobs (canonical or not) bundled through the command line; a case is (blobs, verdict)");
    run.assume("the commitment library is a stand-in of exact algebra");
    scenarios(&mut run, 300, |a, i, r| {
        let n = if r.chance(1, 15) { 4 + r.idx(9) } else { r.idx(4) };
        let mut bl: Vec<Vec<u8>> = (0..n)
            .map(|_| {
                let k = 31 * FE;
                let d = r.bytes(k);
                let mut b = vec![0u8; BLOB];
                for e in 0..FE {
                    b[e * 32 + 1..e * 32 + 32].copy_from_slice(&d[e * 31..e * 31 + 31]);
                }
                b
            })
            .collect();
        let mut valid = true;
        if n > 0 && r.chance(1, 3) {
            let (b, e) = (r.idx(n), r.idx(FE));
            let mut x = crate::oracle::R;
            if r.chance(1, 3) {
                x[31] = 0; // the largest canonical element
            } else {
                valid = false;
                if r.chance(1, 2) {
                    x = [0xff; 32];
                }
            }
            bl[b][e * 32..e * 32 + 32].copy_from_slice(&x);
        }
        if n > 1 && r.chance(1, 4) {
            let (x, y) = if r.chance(1, 2) { (n - 1, n - 2) } else { (1, 0) };
            bl[x] = bl[y].clone();
        }
        let valid = valid || !bl.iter().any(|b| b.chunks(32).any(|e| e >= &crate::oracle::R[..]));
        let o = call(&["blobs", "bundle"], &to_json(&bl));
        let info = |x: Value| json!({"blobs": n, "canonical": valid, "observed": x, "stderr": o.stderr});
        a.check(!o.crashed, "bundling crashes", || info(json!(null)));
        a.check(o.ok == valid, "bundling accepted or refused wrongly", || info(json!(o.ok)));
        a.count(if valid { "valid lists" } else { "invalid lists" }, 1);
        if o.ok && valid {
            let v: Value = serde_json::from_slice(&o.stdout).unwrap_or_default();
            let list = |f: &str| -> Option<Vec<Vec<u8>>> { v[f].as_array()?.iter().map(|s| hex::decode(s.as_str()?.strip_prefix("0x")?).ok()).collect() };
            match (list("commitments"), list("proofs"), list("blobs")) {
                (Some(c), Some(p), Some(b)) => {
                    a.check(b == bl && c.len() == n && p.len() == n, "bundle does not hold the given blobs", || info(json!([b.len(), c.len(), p.len()])));
                    let s = kzg_settings_with_precompute_arc(PRECOMPUTE);
                    for k in 0..n.min(c.len()).min(p.len()) {
                        let ok = (|| {
                            let b = Blob::try_from(bl[k].as_slice()).ok()?;
                            let c = KzgCommitment::try_from(c[k].as_slice()).ok()?;
                            let p = KzgProof::try_from(p[k].as_slice()).ok()?;
                            verify_blob_kzg_proof(&b, &c, &p, s.as_ref()).ok()
                        })()
                        .is_some();
                        a.check(ok, "a bundled blob's proof does not verify", || info(json!(k)));
                        a.count("proofs verified", 1);
                    }
                }
                _ => a.violation("bundle shape", info(json!(null))),
            }
        }
        a.eval(&bl, true);
        if i < 3 {
            a.sample(|| json!({"blobs": n, "valid": valid}));
        }
    });
    run.floor("proofs verified", 20);
    run.floor("invalid lists", 3);
    run.finish()
}

/// C54: the commands that make keys
pub fn commands(mut run: Run) -> ! {
    run.rule("one run of a key command of the tool (key pair, phrase, keystores) with valid or spoiled arguments; a case is its arguments, and for random output what was printed");
    let fresh = std::sync::Mutex::new(std::collections::HashSet::new());
    scenarios(&mut run, 240, |a, i, r| {
        let once = |x: &str| fresh.lock().unwrap().insert(x.to_string());
        let refused = |a: &mut vcommon::Acc, what: &str, args: &[&str]| {
            let o = call(args, b"");
            a.check(!o.ok && !o.crashed && o.stdout.is_empty(), &format!("{what} not refused"), || {
                json!({"args": args, "accepted": o.ok, "crashed": o.crashed, "stdout": String::from_utf8_lossy(&o.stdout), "stderr": o.stderr})
            });
            a.count("refusals", 1);
            a.eval(&(what.to_string(), args.iter().map(|x| x.to_string()).collect::<Vec<_>>()), true);
        };
        let keystores = |t: &str, x: &str, y: &str| {
            let v: Vec<String> = ["validator", "generate-lighthouse-keystores", t, x, y].iter().map(|s| s.to_string()).collect();
            v
        };
        match i % 6 {
            0 => {
                let o = call(&["bls"], b"");
                let t = String::from_utf8_lossy(&o.stdout).to_string();
                let hexes: Vec<Vec<u8>> = t.split(|c: char| !c.is_ascii_alphanumeric()).filter_map(|w| w.strip_prefix("0x")).filter_map(|w| hex::decode(w).ok()).collect();
                let ok = o.ok && hexes.len() == 2 && t.lines().count() == 2;
                a.check(ok, "key pair not printed", || json!({"stdout": t, "stderr": o.stderr}));
                if ok {
                    let sk = ethereum_consensus::crypto::SecretKey::try_from(hexes[0].as_ref());
                    let pk = sk.map(|k| k.public_key().as_ref().to_vec()).unwrap_or_default();
                    a.check(pk == hexes[1], "public key of another secret key", || json!({"stdout": t}));
                    a.check(once(&t) && hexes[0].iter().collect::<std::collections::HashSet<_>>().len() > 12, "key pair not random", || json!({"stdout": t}));
                }
                a.count("key pairs", 1);
                a.eval(&t, true);
            }
            1 => {
                let o = call(&["validator", "mnemonic"], b"");
                let t = String::from_utf8_lossy(&o.stdout).to_string();
                let ok = o.ok && t.lines().count() == 1 && crate::keys_prop::valid_phrase(t.trim_end_matches('\n')) == Some(24);
                a.check(ok, "no valid phrase printed", || json!({"stdout": t, "stderr": o.stderr}));
                a.check(once(&t), "phrase printed twice", || json!({"stdout": t}));
                a.count("phrases", 1);
                a.eval(&t, true);
            }
            2 => {
                let (t, valid) = crate::keys_prop::some_phrase(r);
                let v = keystores(&t, "0", "0");
                let v: Vec<&str> = v.iter().map(|s| s.as_str()).collect();
                if valid {
                    let o = call(&v, b"");
                    a.check(o.ok && serde_json::from_slice::<Value>(&o.stdout).ok() == Some(json!([])), "valid phrase refused", || json!({"phrase": t, "stderr": o.stderr}));
                    a.count("valid phrases", 1);
                    a.eval(&t, true);
                } else {
                    refused(a, "invalid phrase", &v);
                }
            }
            3 => {
                let (x, y) = (r.below(1 << 32), r.below(1 << 32));
                let (x, y) = (x.max(y).to_string(), x.min(y).to_string());
                let v = keystores("abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about", &x, &y);
                let v: Vec<&str> = v.iter().map(|s| s.as_str()).collect();
                let o = call(&v, b"");
                a.check(o.ok && serde_json::from_slice::<Value>(&o.stdout).ok() == Some(json!([])), "empty range not an empty list", || json!({"from": x, "to": y, "stderr": o.stderr}));
                a.count("empty ranges", 1);
                a.eval(&(x, y), true);
            }
            4 => {
                let bad = r.pick(&["", "x", "1x", "4294967296", "18446744073709551616", "0x1", "1.0", " "]).to_string();
                let (x, y) = if r.chance(1, 2) { (bad.as_str(), "0") } else { ("0", bad.as_str()) };
                let v = keystores("abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about", x, y);
                let v: Vec<&str> = v.iter().map(|s| s.as_str()).collect();
                refused(a, "malformed index", &v);
            }
            _ => {
                let v: &[&str] = *r.pick(&[
                    &["bls", "extra"] as &[&str],
                    &["validator"],
                    &["validator", "mnemonic", "12"],
                    &["validator", "keystores"],
                    &["validator", "generate-lighthouse-keystores"],
                    &["validator", "generate-lighthouse-keystores", "a"],
                    &["validator", "generate-lighthouse-keystores", "a", "1"],
                    &["keys"],
                    &[],
                ]);
                refused(a, "malformed command", v);
            }
        }
        if i < 3 {
            a.sample(|| json!({"kind": i % 6}));
        }
    });
    run.floor("key pairs", 20);
    run.floor("phrases", 20);
    run.floor("refusals", 60);
    run.floor("valid phrases", 5);
    run.finish()
}
