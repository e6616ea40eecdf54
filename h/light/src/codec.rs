//! C03: the text codecs (hex strings, decimal strings, sequences of decimal strings).
use ethereum_consensus::{
    primitives::{Bytes32, ExecutionAddress, U256},
    serde::{as_hex, as_str, seq_of_str, try_bytes_from_hex_str, write_bytes_to_lower_hex, write_bytes_to_lower_hex_display},
    ssz::prelude::{ByteList, ByteVector},
};
use serde::{Deserialize, Serialize};
use serde_json::{from_reader, from_slice, from_str, from_value, to_string, to_value};
use vcommon::*;

#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct H4(#[serde(with = "as_hex")] [u8; 4]);
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct H32(#[serde(with = "as_hex")] [u8; 32]);
/// any number of bytes
#[derive(Debug, PartialEq, Clone)]
struct Any(Vec<u8>);
impl AsRef<[u8]> for Any {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl TryFrom<&[u8]> for Any {
    type Error = String;
    fn try_from(b: &[u8]) -> Result<Self, String> {
        Ok(Any(b.to_vec()))
    }
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct HAny(#[serde(with = "as_hex")] Any);
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct N64(#[serde(with = "as_str")] u64);
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct N256(#[serde(with = "as_str")] U256);
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct N8(#[serde(with = "as_str")] u8);
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct NSize(#[serde(with = "as_str")] usize);
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct S64(#[serde(with = "seq_of_str")] Vec<u64>);
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct S8(#[serde(with = "seq_of_str")] Vec<u8>);
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct Nested {
    #[serde(with = "as_str")]
    slot: u64,
    items: Vec<H4>,
    #[serde(with = "seq_of_str")]
    list: Vec<u64>,
}

struct Wr(Vec<u8>);
impl std::fmt::Debug for Wr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write_bytes_to_lower_hex(f, &self.0)
    }
}
struct View<'a>(&'a [u8]);
impl AsRef<[u8]> for View<'_> {
    fn as_ref(&self) -> &[u8] {
        self.0
    }
}
impl std::fmt::Display for Wr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write_bytes_to_lower_hex_display(f, self.0.iter())
    }
}

fn hx(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::new();
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    s
}
fn unhx(s: &str) -> Option<Vec<u8>> {
    let s = s.strip_prefix("0x").unwrap_or(s).as_bytes();
    if s.len() % 2 != 0 {
        return None;
    }
    let d = |c: u8| match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        b'A'..=b'F' => Some(c - b'A' + 10),
        _ => None,
    };
    s.chunks(2).map(|c| Some(d(c[0])? << 4 | d(c[1])?)).collect()
}

fn bytes(rng: &mut Rng, n: usize) -> Vec<u8> {
    match rng.below(5) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => {
            let mut v = vec![0; n];
            if n > 0 {
                let i = rng.idx(n);
                v[i] = rng.u64() as u8;
            }
            v
        }
        _ => rng.bytes(n),
    }
}

/// every way a JSON document can reach the deserializer
fn all_decoders<T: serde::de::DeserializeOwned>(doc: &str) -> Vec<(&'static str, Result<T, String>)> {
    // a copy of the document in which every character of every string is written as an escape
    let mut escaped = String::new();
    let mut in_str = false;
    for c in doc.chars() {
        if c == '"' {
            in_str = !in_str;
            escaped.push(c);
        } else if in_str {
            escaped.push_str(&format!("\\u{:04x}", c as u32));
        } else {
            escaped.push(c);
        }
    }
    let v: Result<Value, _> = from_str(doc);
    let mut out = vec![
        ("from_str", from_str::<T>(doc).map_err(|e| e.to_string())),
        ("from_slice", from_slice::<T>(doc.as_bytes()).map_err(|e| e.to_string())),
        ("from_reader", from_reader::<_, T>(doc.as_bytes()).map_err(|e| e.to_string())),
        ("escaped text", from_str::<T>(&escaped).map_err(|e| e.to_string())),
        ("whitespace", from_str::<T>(&format!(" {} ", doc.replace(',', " , ").replace(':', " : "))).map_err(|e| e.to_string())),
    ];
    if let Ok(v) = v {
        out.push(("from_value", from_value::<T>(v).map_err(|e| e.to_string())));
    }
    out
}

fn round_trip<T>(r: &mut Run, kind: &str, v: &T, want: Value)
where
    T: Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug,
{
    r.eval(&(kind, want.to_string()), true);
    r.count("values round-tripped", 1);
    let doc = guard(|| to_string(v).map_err(|e| e.to_string()));
    // object keys come out in declaration order: compare those as values
    let wants = if want.is_object() {
        doc.clone().ok().and_then(|d| d.ok()).filter(|d| from_str::<Value>(d).ok().as_ref() == Some(&want)).unwrap_or_default()
    } else {
        want.to_string()
    };
    if !r.check(doc == Ok(Ok(wants.clone())), &format!("{kind}: encoded text"), || json!({"observed": format!("{doc:?}"), "expected": wants})) {
        return;
    }
    let tv = guard(|| to_value(v).map_err(|e| e.to_string()));
    r.check(tv == Ok(Ok(want.clone())), &format!("{kind}: encoded value"), || json!({"observed": format!("{tv:?}"), "expected": want.to_string()}));
    let res = guard(|| all_decoders::<T>(&wants));
    match res {
        Err(e) => r.violation(&format!("{kind}: decoder panicked"), json!({"doc": wants, "panic": e})),
        Ok(list) => {
            for (how, got) in list {
                let ok = matches!(&got, Ok(g) if g == v);
                r.check(ok, &format!("{kind}: decoding its own encoding ({how})"), || {
                    json!({"document": wants, "observed": format!("{got:?}"), "expected": format!("{v:?}")})
                });
            }
        }
    }
}

fn reject<T>(r: &mut Run, kind: &str, why: &str, doc: &str)
where
    T: serde::de::DeserializeOwned + std::fmt::Debug,
{
    r.eval(&(kind, doc), true);
    r.count("malformed documents offered", 1);
    let got = guard(|| all_decoders::<T>(doc));
    let ok = matches!(&got, Ok(l) if l.iter().all(|(_, g)| g.is_err()));
    r.check(ok, &format!("{kind}: malformed document accepted ({why})"), || json!({"document": doc, "observed": format!("{got:?}")}));
}

pub fn run(mut r: Run) {
    r.rule("one value encoded and decoded, or one malformed document offered, distinct by codec and text");
    r.floor("values round-tripped", 1000);
    r.floor("malformed documents offered", 1000);
    r.floor("long sequences", 5);
    let mut rng = r.rng.clone();
    let max = if r.quick() { 180_000 } else { u64::MAX };
    let mut i = 0u64;
    while r.time_left() && r.evals() < max {
        i += 1;
        // hex of any length
        let n = if i < 200 { i as usize } else if rng.chance(1, 100) { *rng.pick(&[255usize, 256, 257, 1025, 4096, 65_537, 131_072]) } else { rng.below(140) as usize };
        let b = bytes(&mut rng, n);
        let h = hx(&b);
        round_trip(&mut r, "hex bytes", &HAny(Any(b.clone())), json!(format!("0x{h}")));
        let b4: [u8; 4] = bytes(&mut rng, 4).try_into().unwrap();
        let b32: [u8; 32] = bytes(&mut rng, 32).try_into().unwrap();
        round_trip(&mut r, "hex4", &H4(b4), json!(format!("0x{}", hx(&b4))));
        round_trip(&mut r, "hex32", &H32(b32), json!(format!("0x{}", hx(&b32))));
        round_trip(&mut r, "Bytes32", &Bytes32::try_from(b32.as_ref()).unwrap(), json!(format!("0x{}", hx(&b32))));
        let b20 = bytes(&mut rng, 20);
        round_trip(&mut r, "address", &ExecutionAddress::try_from(b20.as_ref()).unwrap(), json!(format!("0x{}", hx(&b20))));
        if b.len() <= 64 {
            round_trip(&mut r, "byte list", &ByteList::<64>::try_from(b.as_ref()).unwrap(), json!(format!("0x{h}")));
        } else {
            reject::<ByteList<64>>(&mut r, "byte list", "too long", &json!(format!("0x{h}")).to_string());
        }
        if b.len() != 32 {
            let d = json!(format!("0x{h}")).to_string();
            reject::<H32>(&mut r, "hex32", "wrong length", &d);
            reject::<Bytes32>(&mut r, "Bytes32", "wrong length", &d);
            reject::<ByteVector<32>>(&mut r, "byte vector", "wrong length", &d);
        }
        // decoder accepts the documented spellings: optional prefix, either case
        let spell = |up: bool, pre: bool| format!("{}{}", if pre { "0x" } else { "" }, if up { h.to_uppercase() } else { h.clone() });
        for (up, pre) in [(false, false), (true, false), (true, true), (false, true)] {
            let s = spell(up, pre);
            let got = guard(|| try_bytes_from_hex_str(&s).ok());
            r.eval(&("spelling", &s), true);
            r.check(got == Ok(Some(b.clone())), "hex text decodes to its bytes", || json!({"text": s, "observed": format!("{got:?}")}));
        }
        // hostile hex text: the verdict is the reference decoder's
        let mut s: Vec<char> = spell(rng.chance(1, 2), rng.chance(2, 3)).chars().collect();
        for _ in 0..=rng.below(2) {
            match rng.below(4) {
                0 if !s.is_empty() => {
                    let k = rng.idx(s.len());
                    s.remove(k);
                }
                1 => {
                    let k = rng.idx(s.len() + 1);
                    s.insert(k, *rng.pick(&['0', 'f', 'g', 'x', 'X', ' ', '-', '+', 'é', '\u{0}', '@', '`', '/', ':']));
                }
                _ if !s.is_empty() => {
                    let k = rng.idx(s.len());
                    s[k] = *rng.pick(&['0', 'F', 'g', 'G', 'x', ' ', '_', 'é', '@', '`', '/', ':']);
                }
                _ => {}
            }
        }
        let mut s: String = s.into_iter().collect();
        if rng.chance(1, 3) {
            // whole pieces out of place
            s = spell(rng.chance(1, 2), rng.chance(2, 3));
            let p = *rng.pick(&["0x", "0X", "x", "0x0x", " ", "\n", "\"", "0", "h", "\\x", "#"]);
            s = match rng.below(3) {
                0 => format!("{p}{s}"),
                1 => format!("{s}{p}"),
                _ => {
                    let k = rng.idx(s.len() + 1);
                    format!("{}{p}{}", &s[..k], &s[k..])
                }
            };
        }
        let want = unhx(&s);
        let got = guard(|| try_bytes_from_hex_str(&s).ok());
        r.eval(&("hostile", &s), true);
        r.check(got.as_ref() == Ok(&want), "hostile hex text", || json!({"text": s, "observed": format!("{got:?}"), "expected": format!("{want:?}")}));
        if want.is_none() && !s.contains('\u{0}') {
            reject::<HAny>(&mut r, "hex bytes", "not hex", &json!(s).to_string());
        }
        // rendering
        let w = Wr(b.clone());
        let got = guard(|| (format!("{w:?}"), format!("{w}")));
        let short = if b.len() < 4 { format!("0x{h}") } else { format!("0x{}", h) };
        let want_disp = if b.len() < 4 {
            short.clone()
        } else {
            format!("0x{}…{}", hx(&b[..2]), hx(&b[b.len() - 2..]))
        };
        r.eval(&("render", &h), true);
        r.check(got == Ok((format!("0x{h}"), want_disp.clone())), "hex rendering", || json!({"bytes": h, "observed": format!("{got:?}"), "expected": [format!("0x{h}"), want_disp]}));
        let _ = View(&b);
        if b.len() <= 64 {
            let bl = ByteList::<64>::try_from(b.as_ref()).unwrap();
            let got = guard(|| (format!("{bl:?}"), format!("{bl}"), AsRef::<[u8]>::as_ref(&bl).to_vec(), bl.iter().copied().collect::<Vec<u8>>()));
            let want = (format!("0x{h}"), want_disp.clone(), b.clone(), b.clone());
            r.check(got == Ok(want), "renderings of a byte list", || json!({"bytes": h, "observed": format!("{got:?}")}));
            let mut other = b.clone();
            if !other.is_empty() {
                let k = rng.idx(other.len());
                other[k] ^= 1 << rng.below(8);
                let mut changed = bl.clone();
                changed[k] = other[k];
                let ol = ByteList::<64>::try_from(other.as_ref()).unwrap();
                r.check(changed == ol && bl != ol, "a byte list changed in place", || json!({"bytes": h, "at": k}));
            }
            other.truncate(rng.idx(other.len() + 1));
            let twin = ByteList::<64>::try_from(b.as_ref()).unwrap();
            let set: std::collections::HashSet<ByteList<64>> = [bl.clone(), twin, ByteList::try_from(other.as_ref()).unwrap()].into_iter().collect();
            r.check(set.len() == if other == b { 1 } else { 2 } && set.contains(&bl), "byte lists as keys", || json!({"bytes": h}));
            let bv = Bytes32::try_from(b32.as_ref()).unwrap();
            let got = guard(|| (format!("{bv:?}"), format!("{bv}"), AsRef::<[u8]>::as_ref(&bv).to_vec()));
            let h32 = hx(&b32);
            let want = (format!("0x{h32}"), format!("0x{}…{}", &h32[..4], &h32[60..]), b32.to_vec());
            r.check(got == Ok(want), "renderings of a byte vector", || json!({"bytes": h32, "observed": format!("{got:?}")}));
            let mut c = b32;
            let k = rng.idx(32);
            c[k] ^= 1 << rng.below(8);
            let mut changed = bv.clone();
            changed[k] = c[k];
            let cv = Bytes32::try_from(c.as_ref()).unwrap();
            let set: std::collections::HashSet<Bytes32> = [bv.clone(), cv.clone(), changed.clone()].into_iter().collect();
            r.check(changed == cv && set.len() == 2 && (bv < cv) == (b32 < c), "byte vectors changed, compared and as keys", || json!({"bytes": h32, "at": k}));
        }

        // decimal strings
        let x = rng.edgy();
        round_trip(&mut r, "decimal u64", &N64(x), json!(x.to_string()));
        round_trip(&mut r, "decimal usize", &NSize(x as usize), json!(x.to_string()));
        round_trip(&mut r, "decimal u8", &N8(x as u8), json!((x as u8).to_string()));
        reject::<N64>(&mut r, "decimal u64", "a number, not a string", &x.to_string());
        reject::<N64>(&mut r, "decimal u64", "negative", &format!("\"-{}\"", x.max(1)));
        reject::<N64>(&mut r, "decimal u64", "overflow", &format!("\"{}\"", u64::MAX as u128 + 1 + x as u128));
        reject::<N64>(&mut r, "decimal u64", "hex", &format!("\"0x{x:x}\""));
        reject::<N64>(&mut r, "decimal u64", "trailing text", &format!("\"{x} \""));
        reject::<N64>(&mut r, "decimal u64", "empty", "\"\"");
        reject::<N64>(&mut r, "decimal u64", "fraction", &format!("\"{x}.0\""));
        // a decimal with a foreign character somewhere (a sign in front is left out: the number parser takes one)
        let d = x.to_string();
        let k = rng.idx(d.len() + 1);
        let ch = *rng.pick(&['_', ',', '.', ' ', '\u{a0}', '\t', '\n', '-', '\'', 'e', 'E', 'x', 'u', 'n', '٣', '０', '%', '\u{feff}']);
        let spoiled = format!("{}{ch}{}", &d[..k], &d[k..]);
        reject::<N64>(&mut r, "decimal u64", "foreign character", &json!(spoiled).to_string());
        reject::<S64>(&mut r, "sequence of decimals", "foreign character", &json!(["7", spoiled]).to_string());
        reject::<N8>(&mut r, "decimal u8", "overflow", &format!("\"{}\"", 256 + (x >> 8)));
        // sequences of decimal strings
        let long = rng.chance(1, 100);
        let k = if long { *rng.pick(&[255usize, 256, 1023, 1025, 4096, 4097, 16_385, 70_000]) } else { rng.below(6) as usize };
        r.count("long sequences", long as u64);
        let xs: Vec<u64> = (0..k).map(|_| rng.edgy()).collect();
        let ws: Vec<String> = xs.iter().map(|x| x.to_string()).collect();
        round_trip(&mut r, "sequence of decimals", &S64(xs.clone()), json!(ws));
        let x8: Vec<u8> = xs.iter().map(|x| *x as u8).collect();
        round_trip(&mut r, "sequence of small decimals", &S8(x8.clone()), json!(x8.iter().map(|x| x.to_string()).collect::<Vec<_>>()));
        if k > 0 {
            let mut bad: Vec<Value> = ws.iter().map(|w| json!(w)).collect();
            let at = rng.idx(k);
            bad[at] = match rng.below(8) {
                5 => json!(format!(" {}", xs[at])),
                6 => json!(format!("{} ", xs[at])),
                7 => json!(format!("0x{:x}", xs[at])),
                0 => json!(xs[at]),
                1 => json!(format!("{}x", xs[at])),
                2 => json!(""),
                3 => json!(null),
                _ => json!(format!("{}", u64::MAX as u128 + 1 + xs[at] as u128)),
            };
            reject::<S64>(&mut r, "sequence of decimals", "one bad element", &json!(bad).to_string());
            reject::<S64>(&mut r, "sequence of decimals", "a string, not a sequence", &json!(ws.join(",")).to_string());
        }
        let n = Nested { slot: x, items: vec![H4(b4); k % 3], list: xs.clone() };
        round_trip(&mut r, "nested object", &n, {
            // key order is the declaration order
            json!({"slot": x.to_string(), "items": vec![format!("0x{}", hx(&b4)); k % 3], "list": ws})
        });
        // 256-bit integers are decimal strings
        let mut le = [0u8; 32];
        let nb = rng.below(33) as usize;
        for b in le.iter_mut().take(nb) {
            *b = rng.u64() as u8;
        }
        let dec = dec256(&le);
        round_trip(&mut r, "u256", &N256(U256::from_le_bytes(le)), json!(dec));
        reject::<N256>(&mut r, "u256", "a number, not a string", &x.to_string());
        if r.evals() % 20_000 < 60 {
            r.sample(json!({"bytes": h, "number": x.to_string(), "u256": dec}));
        }
    }
    r.finish()
}

fn dec256(le: &[u8; 32]) -> String {
    let mut n: Vec<u32> = le.iter().rev().map(|b| *b as u32).collect();
    let mut out = vec![];
    loop {
        let mut rem = 0;
        for d in n.iter_mut() {
            let v = rem * 256 + *d;
            *d = v / 10;
            rem = v % 10;
        }
        out.push((b'0' + rem as u8) as char);
        if n.iter().all(|d| *d == 0) {
            break;
        }
    }
    out.iter().rev().collect()
}
