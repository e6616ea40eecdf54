//! C35: signatures and keys. C36: KZG commitments. The pairing libraries are stand-ins with the same
//! interface whose groups are replaced by scalars, so every equation keeps its truth value.
use blst::{encode_out_of_group, encode_scalar};
use ethereum_consensus::{
    crypto::{self, PublicKey, SecretKey, Signature},
    primitives::{Domain, Root},
    signing,
};
use fr::Fr;
use sha2::{Digest, Sha256};
use vcommon::*;

fn infinity<const N: usize>() -> [u8; N] {
    let mut b = [0; N];
    b[0] = 0xc0;
    b
}
fn pk(b: &[u8]) -> PublicKey {
    PublicKey::try_from(b).unwrap()
}
fn sg(b: &[u8]) -> Signature {
    Signature::try_from(b).unwrap()
}
fn h(msg: &[u8]) -> Vec<u8> {
    msg.to_vec()
}

pub fn bls(mut r: Run) {
    r.rule("one sign/verify/aggregate scenario with its expected verdict known by construction, distinct by its inputs");
    r.floor("verdicts expected valid", 500);
    r.floor("verdicts expected invalid", 500);
    let mut rng = r.rng.clone();
    let mut pool: Vec<(SecretKey, Fr)> = vec![];
    for i in 0..40u64 {
        let v = if i < 3 { Fr::from_u64(i + 1) } else { Fr::reduce_be(&rng.arr::<32>()) };
        match guard(|| SecretKey::try_from(v.to_be_bytes().as_ref()).map_err(|e| e.to_string())) {
            Ok(Ok(k)) => pool.push((k, v)),
            e => r.violation("valid secret key rejected", json!({"scalar": hexs(&v.to_be_bytes()), "observed": format!("{:?}", e.map(|x| x.map(|_| ())))})),
        }
    }
    if pool.len() < 10 {
        r.finish();
    }
    let max = if r.quick() { 150_000 } else { u64::MAX };
    while r.time_left() && r.evals() < max {
        keys(&mut r, &mut rng, &pool);
        single(&mut r, &mut rng, &pool);
        many(&mut r, &mut rng, &pool);
    }
    r.finish()
}

fn expect(r: &mut Run, what: &str, got: Result<Result<(), ethereum_consensus::Error>, String>, valid: bool, detail: Value) {
    r.count(if valid { "verdicts expected valid" } else { "verdicts expected invalid" }, 1);
    let ok = matches!(&got, Ok(x) if x.is_ok() == valid);
    let obs = format!("{:?}", got.map(|x| x.map_err(|e| e.to_string())));
    r.check(ok, what, || json!({"scenario": what, "observed": obs, "expected valid": valid, "inputs": detail}));
}

fn keys(r: &mut Run, rng: &mut Rng, pool: &[(SecretKey, Fr)]) {
    let (k, v) = rng.pick(pool);
    let raw = v.to_be_bytes();
    r.eval(&("key", raw), true);
    let obs = guard(|| {
        let p = k.public_key();
        (p.as_ref().to_vec(), k.clone().to_bytes(), format!("{k:?}"))
    });
    let want_pk = encode_scalar::<48>(&raw).to_vec();
    match &obs {
        Ok((p, b, dbg)) => {
            r.check(p == &want_pk, "public key of a secret key", || json!({"secret": hexs(&raw), "observed": hexs(p)}));
            r.check(b == &raw, "secret key bytes", || json!({"secret": hexs(&raw), "observed": hexs(b)}));
            let hexed = hex::encode(raw);
            let low = dbg.to_lowercase();
            let tail = hexed.trim_start_matches('0');
            r.check(!(tail.len() > 8 && (low.contains(&hexed) || low.contains(tail) || low.contains(&hexed[..16]))) && !dbg.contains(&format!("{:?}", raw)), "debug output shows the secret key", || json!({"debug": dbg}));
            let nested = format!("{:?}", Some((k, 1)));
            r.check(!nested.to_lowercase().contains(&hexed), "debug output shows the secret key", || json!({"debug": nested}));
        }
        Err(e) => r.violation("key operation panicked", json!(e)),
    }
    // text form
    let text = hexs(&raw);
    for t in [text.clone(), text[2..].to_string(), text.to_uppercase().replace("0X", "0x")] {
        let got = guard(|| serde_json::from_value::<SecretKey>(json!(t)).ok().map(|k| k.to_bytes()));
        r.check(got == Ok(Some(raw)), "secret key from text", || json!({"text": t, "observed": format!("{got:?}")}));
    }
    // hostile encodings
    let mut bad: Vec<Vec<u8>> = vec![vec![], vec![0; 32], vec![0xff; 32], raw[..31].to_vec(), [raw.as_ref(), &[1]].concat()];
    let order = hex::decode("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001").unwrap();
    bad.push(order.clone());
    let mut above = order.clone();
    above[31] += 1 + rng.below(200) as u8;
    bad.push(above);
    for b in bad {
        r.eval(&("bad key", &b), true);
        let got = guard(|| SecretKey::try_from(b.as_ref()).is_ok());
        r.check(got == Ok(false), "invalid secret key accepted", || json!({"bytes": hexs(&b), "observed": format!("{got:?}")}));
        let got = guard(|| serde_json::from_value::<SecretKey>(json!(hexs(&b))).is_ok());
        r.check(got == Ok(false), "invalid secret key text accepted", || json!({"bytes": hexs(&b), "observed": format!("{got:?}")}));
    }
    // key generation: deterministic in the input, rejects short inputs, EIP-2333 master keys
    let n = if rng.chance(1, 3) { rng.range(60, 300) } else { rng.range(16, 64) } as usize;
    let ikm = rng.bytes(n);
    let a = guard(|| SecretKey::key_gen(&ikm).ok().map(|k| k.to_bytes()));
    let want = (n >= 32).then(|| fr::hkdf_mod_r(&ikm, &[]).to_be_bytes());
    r.eval(&("keygen", &ikm), true);
    r.check(a == Ok(want), "generated key", || json!({"ikm": hexs(&ikm), "observed": format!("{a:?}")}));
    let a = guard(|| SecretKey::from_bytes(&ikm).ok().map(|k| k.to_bytes()));
    r.check(a == Ok(want), "master key from a seed", || json!({"seed": hexs(&ikm), "observed": format!("{a:?}")}));
    let mut rr = rand_from(rng.u64());
    let x = guard(|| (SecretKey::random(&mut rr).map(|k| k.to_bytes()).ok(), SecretKey::random(&mut rr).map(|k| k.to_bytes()).ok()));
    r.check(matches!(&x, Ok((Some(a), Some(b))) if a != b), "random keys", || json!(format!("{x:?}")));
    // fixed-size encodings
    for n in [0usize, 47, 49, 95, 97, 48, 96] {
        let b = rng.bytes(n);
        let p = guard(|| PublicKey::try_from(b.as_ref()).ok().map(|x| x.as_ref().to_vec()));
        let s = guard(|| Signature::try_from(b.as_ref()).ok().map(|x| x.as_ref().to_vec()));
        r.check(p == Ok((n == 48).then(|| b.clone())), "public key length", || json!({"len": n, "observed": format!("{p:?}")}));
        r.check(s == Ok((n == 96).then(|| b.clone())), "signature length", || json!({"len": n, "observed": format!("{s:?}")}));
        let hx = hexs(&b);
        let short = format!("{}…{}", &hx[..6.min(hx.len())], &hx[hx.len().saturating_sub(4)..]);
        let forms = match n {
            48 => guard(|| {
                let k = pk(&b);
                let t = serde_json::to_string(&k).unwrap();
                (format!("{k:?}"), format!("{k}"), t.clone(), serde_json::from_str::<PublicKey>(&t).ok() == Some(k))
            }),
            96 => guard(|| {
                let k = sg(&b);
                let t = serde_json::to_string(&k).unwrap();
                (format!("{k:?}"), format!("{k}"), t.clone(), serde_json::from_str::<Signature>(&t).ok() == Some(k))
            }),
            _ => continue,
        };
        r.check(forms == Ok((hx.clone(), short, format!("\"{hx}\""), true)), "text of a key or signature", || json!({"bytes": hx, "observed": format!("{forms:?}")}));
    }
    let m = rng.bytes(n);
    let hs = guard(|| crypto::hash(&m).as_ref().to_vec());
    let w: [u8; 32] = Sha256::digest(&m).into();
    r.check(hs == Ok(w.to_vec()), "hash", || json!({"data": hexs(&m), "observed": format!("{hs:?}")}));
}
fn rand_from(seed: u64) -> rand::rngs::StdRng {
    rand::SeedableRng::seed_from_u64(seed)
}

fn single(r: &mut Run, rng: &mut Rng, pool: &[(SecretKey, Fr)]) {
    let i = rng.idx(pool.len());
    let (k, _) = &pool[i];
    let mlen = rng.below(70) as usize;
    let msg = rng.bytes(mlen);
    let (p, s) = match guard(|| (k.public_key(), k.sign(&msg))) {
        Ok(x) => x,
        Err(e) => return r.violation("signing panicked", json!(e)),
    };
    let scen = rng.below(11);
    let (mut p2, mut s2, mut m2) = (p.clone(), s.clone(), h(&msg));
    let mut valid = false;
    let name = match scen {
        0..=2 => {
            valid = true;
            "genuine signature"
        }
        3 => {
            m2.push(0);
            "message extended"
        }
        4 => {
            if m2.is_empty() {
                m2.push(7)
            } else {
                let j = rng.idx(m2.len());
                m2[j] ^= 1 << rng.below(8);
            }
            "message bit flipped"
        }
        5 => {
            let j = (i + 1 + rng.idx(pool.len() - 1)) % pool.len();
            p2 = pool[j].0.public_key();
            "another signer's key"
        }
        6 => {
            let mut b = s.as_ref().to_vec();
            let j = rng.idx(96);
            b[j] ^= 1 << rng.below(8);
            s2 = sg(&b);
            "signature bit flipped"
        }
        7 => {
            s2 = sg(&infinity::<96>());
            "infinity signature"
        }
        8 => {
            p2 = pk(&infinity::<48>());
            s2 = sg(&infinity::<96>());
            "infinity key and signature"
        }
        9 => {
            p2 = pk(&encode_out_of_group::<48>(rng.u64()));
            "key outside the group"
        }
        _ => {
            s2 = sg(&encode_out_of_group::<96>(rng.u64()));
            "signature outside the group"
        }
    };
    r.eval(&("verify", scen, i, &msg), true);
    let detail = json!({"pk": hexs(p2.as_ref()), "msg": hexs(&m2), "sig": hexs(s2.as_ref())});
    expect(r, &format!("verify: {name}"), guard(|| crypto::verify_signature(&p2, &m2, &s2).map_err(Into::into)), valid, detail.clone());
    expect(r, &format!("fast aggregate of one: {name}"), guard(|| crypto::fast_aggregate_verify(&[&p2], &m2, &s2).map_err(Into::into)), valid, detail.clone());
    expect(r, &format!("aggregate of one: {name}"), guard(|| crypto::aggregate_verify(&[p2.clone()], &[&m2], &s2).map_err(Into::into)), valid, detail);
    // signing an object under a domain
    let d1: Domain = rng.arr();
    let mut d2 = d1;
    d2[rng.idx(32)] ^= 1 << rng.below(8);
    let o1: Root = rng.arr::<32>().as_ref().try_into().unwrap();
    let o2: Root = rng.arr::<32>().as_ref().try_into().unwrap();
    let res = guard(|| {
        let root = signing::compute_signing_root(&o1, d1).map_err(|e| e.to_string())?;
        let s = signing::sign_with_domain(&o1, k, d1).map_err(|e| e.to_string())?;
        let other = pool[(i + 1) % pool.len()].0.public_key();
        Ok::<_, String>((
            root.as_ref().to_vec(),
            k.sign(root.as_ref()) == s,
            signing::verify_signed_data(&o1, &s, &p, d1).is_ok(),
            signing::verify_signed_data(&o2, &s, &p, d1).is_ok(),
            signing::verify_signed_data(&o1, &s, &p, d2).is_ok(),
            signing::verify_signed_data(&o1, &s, &other, d1).is_ok(),
        ))
    });
    let w: [u8; 32] = Sha256::new().chain_update(o1.as_ref()).chain_update(d1).finalize().into();
    let want = Ok(Ok((w.to_vec(), true, true, false, false, false)));
    r.eval(&("signing root", d1), true);
    r.check(res == want, "signing under a domain", || json!({"observed": format!("{res:?}"), "expected": format!("{want:?}")}));
}

fn many(r: &mut Run, rng: &mut Rng, pool: &[(SecretKey, Fr)]) {
    let n = rng.below(9) as usize;
    let who: Vec<usize> = (0..n).map(|_| rng.idx(pool.len())).collect();
    let msg = rng.bytes(32);
    let msgs: Vec<Vec<u8>> = (0..n).map(|_| rng.bytes(32)).collect();
    let pks: Vec<PublicKey> = who.iter().map(|i| pool[*i].0.public_key()).collect();
    let same: Vec<Signature> = who.iter().map(|i| pool[*i].0.sign(&msg)).collect();
    let diff: Vec<Signature> = who.iter().zip(&msgs).map(|(i, m)| pool[*i].0.sign(m)).collect();
    r.eval(&("many", &who, &msg), n > 0);
    let agg = |r: &mut Run, v: &[Signature]| -> Option<Signature> {
        match guard(|| crypto::aggregate(v).map_err(|e| e.to_string())) {
            Ok(Ok(s)) => Some(s),
            Ok(Err(e)) => {
                r.check(v.is_empty(), "aggregation of valid signatures failed", || json!(e));
                None
            }
            Err(e) => {
                r.violation("aggregation panicked", json!(e));
                None
            }
        }
    };
    let refs: Vec<&PublicKey> = pks.iter().collect();
    let a_same = agg(r, &same);
    let a_diff = agg(r, &diff);
    r.check(a_same.is_some() == (n > 0), "aggregate of nothing", || json!(n));
    // the aggregate does not depend on order or grouping
    if let Some(a) = &a_same {
        let mut sh = same.clone();
        rng.shuffle(&mut sh);
        let b = agg(r, &sh);
        r.check(b.as_ref() == Some(a), "aggregate depends on order", || json!({"signers": who}));
        let cut = rng.idx(n + 1);
        if cut > 0 && cut < n {
            let (x, y) = (agg(r, &same[..cut]), agg(r, &same[cut..]));
            if let (Some(x), Some(y)) = (x, y) {
                let b = agg(r, &[x, y]);
                r.check(b.as_ref() == Some(a), "aggregate depends on grouping", || json!({"signers": who, "cut": cut}));
            }
        }
        let sum = who.iter().fold(Fr::ZERO, |t, i| t.add(&pool[*i].1));
        if !sum.is_zero() {
            let w = encode_scalar::<48>(&sum.to_be_bytes()).to_vec();
            let got = guard(|| crypto::eth_aggregate_public_keys(&pks).ok().map(|p| p.as_ref().to_vec()));
            r.check(got == Ok(Some(w)), "aggregate public key", || json!({"signers": who, "observed": format!("{got:?}")}));
        }
        // invalid members
        let mut bad = same.clone();
        let at = rng.idx(n);
        bad[at] = sg(&encode_out_of_group::<96>(rng.u64()));
        let g = guard(|| crypto::aggregate(&bad).is_ok());
        r.check(g == Ok(false), "aggregate with a signature outside the group", || json!({"at": at, "observed": format!("{g:?}")}));
        let mut garb = rng.arr::<96>();
        garb[0] &= 0x7f;
        bad[at] = sg(&garb);
        let g = guard(|| crypto::aggregate(&bad).is_ok());
        r.check(g == Ok(false), "aggregate with an undecodable signature", || json!({"at": at, "observed": format!("{g:?}")}));
        for (why, b) in [("infinity", infinity::<48>()), ("outside the group", encode_out_of_group::<48>(3)), ("garbage", [7u8; 48])] {
            let mut bp = pks.clone();
            bp[at] = pk(&b);
            let g = guard(|| crypto::eth_aggregate_public_keys(&bp).is_ok());
            r.check(g == Ok(false), &format!("aggregate key with a member at {why}"), || json!({"at": at, "observed": format!("{g:?}")}));
            let refs: Vec<&PublicKey> = bp.iter().collect();
            expect(r, &format!("fast aggregate with a member {why}"), guard(|| crypto::fast_aggregate_verify(&refs, &msg, a).map_err(Into::into)), false, json!({"signers": who, "at": at}));
        }
        // membership: exactly the signers, with multiplicity
        expect(r, "fast aggregate: exact signers", guard(|| crypto::fast_aggregate_verify(&refs, &msg, a).map_err(Into::into)), true, json!({"signers": who}));
        expect(r, "sync aggregate: exact signers", guard(|| crypto::eth_fast_aggregate_verify(&refs, &msg, a).map_err(Into::into)), true, json!({"signers": who}));
        let mut less = refs.clone();
        less.remove(at);
        expect(r, "fast aggregate: a signer missing", guard(|| crypto::fast_aggregate_verify(&less, &msg, a).map_err(Into::into)), false, json!({"signers": who, "dropped": at}));
        expect(r, "sync aggregate: a signer missing", guard(|| crypto::eth_fast_aggregate_verify(&less, &msg, a).map_err(Into::into)), false, json!({"signers": who, "dropped": at}));
        let extra_key = pool[rng.idx(pool.len())].0.public_key();
        let mut more = refs.clone();
        more.push(&extra_key);
        expect(r, "fast aggregate: an extra signer", guard(|| crypto::fast_aggregate_verify(&more, &msg, a).map_err(Into::into)), false, json!({"signers": who}));
        let mut other = msg.clone();
        other[rng.idx(32)] ^= 1;
        expect(r, "fast aggregate: another message", guard(|| crypto::fast_aggregate_verify(&refs, &other, a).map_err(Into::into)), false, json!({"signers": who}));
        expect(r, "sync aggregate: another message", guard(|| crypto::eth_fast_aggregate_verify(&refs, &other, a).map_err(Into::into)), false, json!({"signers": who}));
        expect(r, "sync aggregate: infinity with signers", guard(|| crypto::eth_fast_aggregate_verify(&refs, &msg, &sg(&infinity::<96>())).map_err(Into::into)), false, json!({"signers": who}));
        let mr: Vec<&[u8]> = msgs.iter().map(|m| m.as_ref()).collect();
        let ad = a_diff.clone().unwrap();
        expect(r, "aggregate: each signer its message", guard(|| crypto::aggregate_verify(&pks, &mr, &ad).map_err(Into::into)), true, json!({"signers": who}));
        if n >= 2 && who[0] != who[1] {
            let mut sw = mr.clone();
            sw.swap(0, 1);
            expect(r, "aggregate: messages exchanged", guard(|| crypto::aggregate_verify(&pks, &sw, &ad).map_err(Into::into)), false, json!({"signers": who}));
        }
        expect(r, "aggregate: fewer messages than keys", guard(|| crypto::aggregate_verify(&pks, &mr[1..], &ad).map_err(Into::into)), false, json!({"signers": who}));
        // a signature that would hold for the part the two lists share
        let part = agg(r, &diff[1..]);
        if let Some(part) = &part {
            expect(r, "aggregate: a message too many", guard(|| crypto::aggregate_verify(&pks[1..], &[&mr[1..], &mr[..1]].concat(), part).map_err(Into::into)), false, json!({"signers": who}));
            let keys = [&pks[1..], &pks[..1]].concat();
            expect(r, "aggregate: a key too many", guard(|| crypto::aggregate_verify(&keys, &mr[1..], part).map_err(Into::into)), false, json!({"signers": who}));
            expect(r, "aggregate: the shared part", guard(|| crypto::aggregate_verify(&pks[1..], &mr[1..], part).map_err(Into::into)), true, json!({"signers": who}));
        }
        expect(r, "aggregate: fewer keys than messages", guard(|| crypto::aggregate_verify(&pks[1..], &mr, &ad).map_err(Into::into)), false, json!({"signers": who}));
    } else {
        let inf = sg(&infinity::<96>());
        expect(r, "sync aggregate: nobody, infinity", guard(|| crypto::eth_fast_aggregate_verify(&[], &msg, &inf).map_err(Into::into)), true, json!(null));
        for (why, k) in [("zeros", [0u8; 48]), ("infinity", infinity::<48>()), ("ones", [0xff; 48])] {
            for n in 1..4 {
                let keys = vec![pk(&k); n];
                let refs: Vec<&PublicKey> = keys.iter().collect();
                expect(r, &format!("sync aggregate: keys of {why}, infinity"), guard(|| crypto::eth_fast_aggregate_verify(&refs, &msg, &inf).map_err(Into::into)), false, json!({"keys": n}));
                expect(r, &format!("fast aggregate: keys of {why}, infinity"), guard(|| crypto::fast_aggregate_verify(&refs, &msg, &inf).map_err(Into::into)), false, json!({"keys": n}));
            }
        }
        expect(r, "fast aggregate: nobody", guard(|| crypto::fast_aggregate_verify(&[], &msg, &inf).map_err(Into::into)), false, json!(null));
        let s = pool[0].0.sign(&msg);
        expect(r, "sync aggregate: nobody, a signature", guard(|| crypto::eth_fast_aggregate_verify(&[], &msg, &s).map_err(Into::into)), false, json!(null));
        expect(r, "aggregate: nobody", guard(|| crypto::aggregate_verify(&[], &[], &inf).map_err(Into::into)), false, json!(null));
        let g = guard(|| crypto::eth_aggregate_public_keys(&[]).is_ok());
        r.check(g == Ok(false), "aggregate key of nobody", || json!(format!("{g:?}")));
    }
    let i = rng.idx(96);
    let mut almost = infinity::<96>();
    almost[i] ^= 1;
    r.check(sg(&infinity::<96>()).is_infinity() && !sg(&almost).is_infinity(), "infinity test", || json!(i));
    if r.evals() % 9000 < 4 {
        r.sample(json!({"signers": who, "message": hexs(&msg)}));
    }
}

// ------------------------------------------------------------------ KZG
pub fn kzg(mut r: Run) {
    use ethereum_consensus::crypto::kzg::{
        blob_to_kzg_commitment, compute_blob_kzg_proof, compute_kzg_proof, kzg_settings_with_precompute_arc, verify_blob_kzg_proof,
        verify_blob_kzg_proof_batch, verify_kzg_proof, KzgCommitment, KzgProof,
    };
    use ethereum_consensus::primitives::Bytes32;
    r.rule("one commitment/proof scenario whose verdict is known by construction, distinct by its blobs and scenario");
    r.floor("batches verified", 20);
    r.floor("tampered proofs offered", 50);
    let mut rng = r.rng.clone();
    let st = kzg_settings_with_precompute_arc(0);
    let st = st.as_ref();
    let blob = |rng: &mut Rng| -> Vec<u8> {
        let mut b = vec![0u8; 131072];
        match rng.below(12) {
            0 => {
                // every element in use
                for i in 0..4096 {
                    b[i * 32 + 1..i * 32 + 32].copy_from_slice(&rng.arr::<31>());
                }
                return b;
            }
            1 => {
                // the same value everywhere
                let v = Fr::reduce_be(&rng.arr::<32>()).to_be_bytes();
                b.chunks_mut(32).for_each(|c| c.copy_from_slice(&v));
                return b;
            }
            _ => {}
        }
        let k = rng.below(40) as usize;
        for _ in 0..k {
            let i = rng.idx(4096);
            let v = Fr::reduce_be(&rng.arr::<32>()).to_be_bytes();
            b[i * 32..i * 32 + 32].copy_from_slice(&v);
        }
        b
    };
    let max = if r.quick() { 400 } else { u64::MAX };
    let mut it = 0;
    while r.time_left() && it < max {
        it += 1;
        let n = if rng.chance(1, 20) { 5 + rng.below(14) } else { 1 + rng.below(4) } as usize;
        let mut blobs: Vec<Vec<u8>> = (0..n).map(|_| blob(&mut rng)).collect();
        if n > 1 && rng.chance(1, 6) {
            // a blob that comes up twice
            let (i, j) = (rng.idx(n), rng.idx(n));
            blobs[i] = blobs[j].clone();
        }
        let cs: Vec<KzgCommitment> = match guard(|| blobs.iter().map(|b| blob_to_kzg_commitment(b, st)).collect::<Result<Vec<_>, _>>().map_err(|e| e.to_string())) {
            Ok(Ok(c)) => c,
            e => {
                r.violation("commitment to a valid blob failed", json!(format!("{e:?}")));
                continue;
            }
        };
        let direct: Vec<Vec<u8>> = blobs.iter().map(|b| st.blob_to_kzg_commitment(&c_kzg::Blob::from_bytes(b).unwrap()).unwrap().to_bytes().to_vec()).collect();
        r.check(cs.iter().zip(&direct).all(|(a, b)| a.as_ref() == b.as_slice()), "commitment", || json!("differs from the library's"));
        let ps: Vec<KzgProof> = match guard(|| blobs.iter().zip(&cs).map(|(b, c)| compute_blob_kzg_proof(b, c, st)).collect::<Result<Vec<_>, _>>().map_err(|e| e.to_string())) {
            Ok(Ok(c)) => c,
            e => {
                r.violation("proof for a valid blob failed", json!(format!("{e:?}")));
                continue;
            }
        };
        r.eval(&(&direct, n), true);
        for (i, c) in cs.iter().enumerate() {
            // the form in which the execution engine knows a commitment
            let vh = guard(|| ethereum_consensus::deneb::helpers::kzg_commitment_to_versioned_hash(c).to_vec());
            let mut want = Sha256::digest(&direct[i]).to_vec();
            want[0] = 1;
            r.check(vh.as_ref() == Ok(&want), "versioned hash", || json!({"commitment": hexs(c.as_ref()), "observed": format!("{vh:?}"), "expected": hexs(&want)}));
            // text and bytes
            let text = format!("\"{}\"", hexs(&direct[i]));
            let ok = guard(|| {
                let js = serde_json::to_string(c).ok();
                let back = serde_json::from_str::<KzgCommitment>(&text).ok();
                let proof = serde_json::from_str::<KzgProof>(&serde_json::to_string(&ps[i]).ok()?).ok();
                Some(js.as_ref() == Some(&text) && back.as_ref() == Some(c) && proof.as_ref() == Some(&ps[i]))
            });
            r.check(ok == Ok(Some(true)), "text form of a commitment or proof", || json!({"commitment": text, "observed": format!("{ok:?}")}));
            let long = [&direct[i][..], &[0]].concat();
            let ok = guard(|| (KzgCommitment::try_from(&direct[i][..47]).is_ok(), KzgProof::try_from(long.as_slice()).is_ok()));
            r.check(ok == Ok((false, false)), "commitment or proof of a wrong length accepted", || json!(format!("{ok:?}")));
        }
        // proofs are the library's, for a commitment that is not the blob's as well
        let (i, j) = (rng.idx(n), rng.idx(n));
        let ok = guard(|| compute_blob_kzg_proof(&blobs[i], &cs[j], st).ok().map(|p| p.to_vec()));
        let want = st
            .compute_blob_kzg_proof(&c_kzg::Blob::from_bytes(&blobs[i]).unwrap(), &c_kzg::Bytes48::from_bytes(&direct[j]).unwrap())
            .ok()
            .map(|p| p.to_bytes().to_vec());
        r.check(ok.as_ref() == Ok(&want), "proof", || json!({"observed": format!("{ok:?}"), "expected": format!("{want:?}")}));
        let ok = guard(|| blobs.iter().zip(&cs).zip(&ps).all(|((b, c), p)| verify_blob_kzg_proof(b, c, p, st).is_ok()));
        r.check(ok == Ok(true), "honest blob proof rejected", || json!(format!("{ok:?}")));
        let ok = guard(|| verify_blob_kzg_proof_batch(&blobs, &cs, &ps, st).is_ok());
        r.count("batches verified", 1);
        r.check(ok == Ok(true), "honest batch rejected", || json!(format!("{ok:?}")));
        // openings
        let at = rng.idx(n);
        let z = match rng.below(6) {
            0 => Bytes32::default(),
            1 => Bytes32::try_from([&[0u8; 31][..], &[1 + rng.below(3) as u8]].concat().as_slice()).unwrap(),
            _ => Bytes32::try_from(Fr::reduce_be(&rng.arr::<32>()).to_be_bytes().as_ref()).unwrap(),
        };
        match guard(|| compute_kzg_proof(&blobs[at], &z, st).map_err(|e| e.to_string())) {
            Ok(Ok(pe)) => {
                let y = pe.evaluation.clone();
                let (dp, dy) = st.compute_kzg_proof(&c_kzg::Blob::from_bytes(&blobs[at]).unwrap(), &c_kzg::Bytes32::from_bytes(z.as_ref()).unwrap()).unwrap();
                r.check(pe.proof.as_ref() == dp.to_bytes().as_slice() && y.as_ref() == dy.as_slice(), "opening", || json!("differs from the library's"));
                let ok = guard(|| verify_kzg_proof(&cs[at], &z, &y, &pe.proof, st).is_ok());
                r.check(ok == Ok(true), "honest opening rejected", || json!(format!("{ok:?}")));
                let y2 = Bytes32::try_from(Fr::reduce_be(&rng.arr::<32>()).to_be_bytes().as_ref()).unwrap();
                let z2 = Bytes32::try_from(Fr::reduce_be(&rng.arr::<32>()).to_be_bytes().as_ref()).unwrap();
                let zero = blobs[at].chunks(32).all(|b| b == &blobs[at][..32]);
                r.count("tampered proofs offered", 2);
                let ok = guard(|| verify_kzg_proof(&cs[at], &z, &y2, &pe.proof, st).is_ok());
                r.check(ok == Ok(false), "opening to a wrong value accepted", || json!(format!("{ok:?}")));
                if !zero {
                    let ok = guard(|| verify_kzg_proof(&cs[at], &z2, &y, &pe.proof, st).is_ok());
                    r.check(ok == Ok(false), "opening at a wrong point accepted", || json!(format!("{ok:?}")));
                }
                let high = Bytes32::try_from([0xffu8; 32].as_ref()).unwrap();
                let ok = guard(|| (verify_kzg_proof(&cs[at], &high, &y, &pe.proof, st).is_ok(), verify_kzg_proof(&cs[at], &z, &high, &pe.proof, st).is_ok(), compute_kzg_proof(&blobs[at], &high, st).is_ok()));
                r.check(ok == Ok((false, false, false)), "non-canonical field element accepted", || json!(format!("{ok:?}")));
            }
            e => r.violation("opening a valid blob failed", json!(format!("{e:?}"))),
        }
        // tampering: each component of one member
        let other = blob(&mut rng);
        let oc = blob_to_kzg_commitment(&other, st).unwrap();
        let op = compute_blob_kzg_proof(&other, &oc, st).unwrap();
        for what in ["blob", "commitment", "proof", "undecodable commitment", "undecodable proof"] {
            let (mut b, mut c, mut p) = (blobs.clone(), cs.clone(), ps.clone());
            match what {
                "blob" => b[at] = other.clone(),
                "commitment" => c[at] = oc.clone(),
                "proof" => p[at] = op.clone(),
                "undecodable commitment" => c[at] = KzgCommitment::try_from([9u8; 48].as_ref()).unwrap(),
                _ => p[at] = KzgProof::try_from([9u8; 48].as_ref()).unwrap(),
            }
            if (b == blobs && c == cs && p == ps) || (what == "blob" && oc == cs[at]) || (what == "commitment" && oc == cs[at]) {
                continue;
            }
            if what == "proof" && op == ps[at] {
                continue;
            }
            r.eval(&(what, at, &direct), true);
            r.count("tampered proofs offered", 2);
            let ok = guard(|| (verify_blob_kzg_proof(&b[at], &c[at], &p[at], st).is_ok(), verify_blob_kzg_proof_batch(&b, &c, &p, st).is_ok()));
            r.check(ok == Ok((false, false)), &format!("tampered {what} accepted"), || json!({"member": at, "of": n, "observed(single,batch)": format!("{ok:?}")}));
        }
        if n > 1 {
            let (mut c, mut p) = (cs.clone(), ps.clone());
            c.swap(0, 1);
            p.swap(0, 1);
            if cs[0] != cs[1] {
                let ok = guard(|| verify_blob_kzg_proof_batch(&blobs, &c, &p, st).is_ok());
                r.check(ok == Ok(false), "batch with exchanged members accepted", || json!(format!("{ok:?}")));
            }
        }
        let ok = guard(|| (verify_blob_kzg_proof_batch(&blobs[1..], &cs, &ps, st).is_ok(), verify_blob_kzg_proof_batch(&blobs, &cs[1..], &ps, st).is_ok(), verify_blob_kzg_proof_batch(&blobs, &cs, &ps[1..], st).is_ok()));
        r.check(ok == Ok((false, false, false)), "batch of mismatched lengths accepted", || json!(format!("{ok:?}")));
        // lists of which only one or two go on after a valid batch
        for mask in 1..7u8 {
            let (mut b, mut c, mut p) = (blobs.clone(), cs.clone(), ps.clone());
            let (x, y, z) = if rng.chance(1, 2) { (other.clone(), oc.clone(), op.clone()) } else { (blobs[0].clone(), cs[0].clone(), ps[0].clone()) };
            if mask & 1 != 0 {
                b.push(x);
            }
            if mask & 2 != 0 {
                c.push(y);
            }
            if mask & 4 != 0 {
                p.push(z);
            }
            let ok = guard(|| verify_blob_kzg_proof_batch(&b, &c, &p, st).is_ok());
            r.check(ok == Ok(false), "batch of mismatched lengths accepted", || json!({"blobs, commitments, proofs": [b.len(), c.len(), p.len()], "observed": format!("{ok:?}")}));
        }
        let none: Vec<Vec<u8>> = vec![];
        let ok = guard(|| verify_blob_kzg_proof_batch(&none, &[], &[], st).is_ok());
        r.check(ok == Ok(true), "empty batch", || json!(format!("{ok:?}")));
        // malformed blobs are errors, never panics
        let mut high = blobs[at].clone();
        let i = rng.idx(4096);
        high[i * 32..i * 32 + 32].copy_from_slice(&[0xff; 32]);
        for (why, b) in [("short", blobs[at][..131071].to_vec()), ("long", [&blobs[at][..], &[0]].concat()), ("empty", vec![]), ("non-canonical", high)] {
            let g = guard(|| {
                (
                    blob_to_kzg_commitment(&b, st).is_ok(),
                    compute_blob_kzg_proof(&b, &cs[at], st).is_ok(),
                    verify_blob_kzg_proof(&b, &cs[at], &ps[at], st).is_ok(),
                    compute_kzg_proof(&b, &z, st).is_ok(),
                    verify_blob_kzg_proof_batch(&[b.clone()], &cs[at..=at], &ps[at..=at], st).is_ok(),
                )
            });
            r.eval(&(why, i, &direct), true);
            r.check(g == Ok((false, false, false, false, false)), &format!("{why} blob"), || json!(format!("{g:?}")));
        }
        if it % 100 == 1 {
            r.sample(json!({"blobs": n, "commitments": cs.iter().map(|c| hexs(c.as_ref())).collect::<Vec<_>>()}));
        }
    }
    r.finish()
}
