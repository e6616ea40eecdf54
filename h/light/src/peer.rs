//! C39: peer ids.
use ethereum_consensus::networking::PeerId;
use std::str::FromStr;
use vcommon::*;

const ALPHA: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
fn b58(b: &[u8]) -> String {
    let zeros = b.iter().take_while(|x| **x == 0).count();
    let mut digits: Vec<u32> = vec![];
    for x in b {
        let mut carry = *x as u32;
        for d in digits.iter_mut() {
            carry += *d << 8;
            *d = carry % 58;
            carry /= 58;
        }
        while carry > 0 {
            digits.push(carry % 58);
            carry /= 58;
        }
    }
    "1".repeat(zeros) + &digits.iter().rev().map(|d| ALPHA[*d as usize] as char).collect::<String>()
}
fn varint(mut v: u64) -> Vec<u8> {
    let mut o = vec![];
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            o.push(b);
            return o;
        }
        o.push(b | 0x80);
    }
}

pub fn run(mut r: Run) {
    r.rule("a peer id parsed from bytes and text, or a malformed id offered, distinct by the bytes or text");
    r.floor("peer ids accepted", 500);
    r.floor("peer ids rejected", 500);
    let mut rng = r.rng.clone();
    let max = if r.quick() { 300_000 } else { u64::MAX };
    while r.time_left() && r.evals() < max {
        // (hash code, digest length): accepted iff sha2-256 with any digest that fits, or identity up to 42 bytes
        let code = *rng.pick(&[0x12u64, 0x12, 0x12, 0, 0, 0, 0x11, 0x13, 0x14, 0x1b, 0xb220, 0x1e, 1, 0x55, 0x7fff_ffff]);
        let len = match rng.below(5) {
            0 => 42,
            1 => 43,
            2 => 41,
            3 => rng.below(65) as usize,
            _ => 32,
        };
        let digest = rng.bytes(len);
        let mut bytes = varint(code);
        bytes.extend(varint(len as u64));
        bytes.extend(&digest);
        let mut well_formed = true;
        match rng.below(6) {
            0 => {
                well_formed = false;
                bytes.pop();
                if len == 0 {
                    bytes = vec![];
                }
            }
            1 => {
                well_formed = false;
                bytes.push(rng.u64() as u8);
            }
            _ => {}
        }
        let want = well_formed && (code == 0x12 || (code == 0 && len <= 42));
        let text = b58(&bytes);
        r.eval(&bytes, true);
        let got = guard(|| PeerId::from_bytes(&bytes).ok());
        let from_text = guard(|| PeerId::from_str(&text).ok());
        let from_json = guard(|| serde_json::from_value::<PeerId>(json!(text)).ok());
        let detail = |w: &str, o: String| json!({"what": w, "bytes": hexs(&bytes), "text": text, "observed": o, "accepted expected": want});
        for (how, g) in [("bytes", &got), ("text", &from_text), ("json", &from_json)] {
            r.check(matches!(g, Ok(x) if x.is_some() == want), &format!("peer id acceptance from {how}"), || detail(how, format!("{:?}", g.as_ref().map(|x| x.is_some()))));
        }
        if want {
            r.count("peer ids accepted", 1);
            if let (Ok(Some(a)), Ok(Some(b)), Ok(Some(c))) = (&got, &from_text, &from_json) {
                let obs = guard(|| (a.to_bytes(), a.to_base58(), a.to_string(), serde_json::to_value(a).unwrap(), a == b && b == c));
                let w = (bytes.clone(), text.clone(), text.clone(), json!(text), true);
                r.check(obs == Ok(w), "peer id round trip", || detail("round trip", format!("{obs:?}")));
                // escaped and streamed text
                let doc = json!(text).to_string();
                let s = guard(|| serde_json::from_reader::<_, PeerId>(doc.as_bytes()).ok().map(|p| p.to_bytes()));
                r.check(s == Ok(Some(bytes.clone())), "peer id from a stream", || detail("reader", format!("{s:?}")));
            }
            // one foreign character is never accepted
            let mut t: Vec<char> = text.chars().collect();
            let i = rng.idx(t.len());
            t[i] = *rng.pick(&['0', 'O', 'I', 'l', ' ', '+', 'é']);
            let t: String = t.into_iter().collect();
            let g = guard(|| PeerId::from_str(&t).is_ok());
            r.eval(&t, true);
            r.check(g == Ok(false), "peer id text with a foreign character accepted", || json!({"text": t, "observed": format!("{g:?}")}));
        } else {
            r.count("peer ids rejected", 1);
        }
        if r.evals() % 20_000 < 2 {
            r.sample(json!({"bytes": hexs(&bytes), "text": text, "accepted": want}));
        }
    }
    r.finish()
}
