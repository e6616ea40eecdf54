//! A schema-driven SSZ engine written from the SSZ specification, independent of the code under
//! test and of its SSZ library stand-in: codec, Merkleization, JSON mapping, random values.
use serde_json::{json, Map, Value as Json};
use sha2::{Digest, Sha256};
use std::sync::{Arc, OnceLock};
use vcommon::Rng;

#[derive(Debug)]
pub struct Cont {
    pub name: String,
    pub fields: Vec<Field>,
}
#[derive(Debug, Clone)]
pub struct Field {
    pub name: &'static str,
    pub json: &'static str,
    pub ty: Ty,
}
#[derive(Debug, Clone)]
pub enum Ty {
    U8,
    U64,
    U256,
    Bool,
    /// fixed bytes
    BV(usize),
    /// byte list
    BL(usize),
    BitV(usize),
    BitL(usize),
    V(Box<Ty>, usize),
    L(Box<Ty>, usize),
    C(Arc<Cont>),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Val {
    U8(u8),
    U64(u64),
    U256([u8; 32]),
    Bool(bool),
    Bytes(Vec<u8>),
    Bits(Vec<bool>),
    U64s(Vec<u64>),
    U8s(Vec<u8>),
    Seq(Vec<Val>),
    Obj(Obj),
}
#[derive(Clone, Debug)]
pub struct Obj {
    pub cont: Arc<Cont>,
    pub f: Vec<Val>,
}
impl PartialEq for Obj {
    fn eq(&self, o: &Self) -> bool {
        self.f == o.f
    }
}
impl Eq for Obj {}

pub fn sha(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}

impl Cont {
    pub fn idx(&self, name: &str) -> usize {
        self.fields
            .iter()
            .position(|f| f.name == name)
            .unwrap_or_else(|| panic!("harness: no field {name} in {}", self.name))
    }
    pub fn has(&self, name: &str) -> bool {
        self.fields.iter().any(|f| f.name == name)
    }
    pub fn ty(&self, name: &str) -> &Ty {
        &self.fields[self.idx(name)].ty
    }
}

impl Val {
    pub fn u64(&self) -> u64 {
        match self {
            Val::U64(v) => *v,
            Val::U8(v) => *v as u64,
            _ => panic!("harness: not u64 {self:?}"),
        }
    }
    pub fn bytes(&self) -> &[u8] {
        match self {
            Val::Bytes(b) => b,
            Val::U256(b) => b,
            _ => panic!("harness: not bytes"),
        }
    }
    pub fn b32(&self) -> [u8; 32] {
        self.bytes().try_into().unwrap()
    }
    pub fn seq(&self) -> &[Val] {
        match self {
            Val::Seq(v) => v,
            _ => panic!("harness: not seq"),
        }
    }
    pub fn seq_mut(&mut self) -> &mut Vec<Val> {
        match self {
            Val::Seq(v) => v,
            _ => panic!("harness: not seq"),
        }
    }
    pub fn bits(&self) -> &[bool] {
        match self {
            Val::Bits(v) => v,
            _ => panic!("harness: not bits"),
        }
    }
    pub fn u64s(&self) -> &[u64] {
        match self {
            Val::U64s(v) => v,
            _ => panic!("harness: not u64s"),
        }
    }
    pub fn obj(&self) -> &Obj {
        match self {
            Val::Obj(o) => o,
            _ => panic!("harness: not obj"),
        }
    }
    pub fn g(&self, name: &str) -> &Val {
        let o = self.obj();
        &o.f[o.cont.idx(name)]
    }
    pub fn gm(&mut self, name: &str) -> &mut Val {
        match self {
            Val::Obj(o) => {
                let i = o.cont.idx(name);
                &mut o.f[i]
            }
            _ => panic!("harness: not obj"),
        }
    }
    pub fn has(&self, name: &str) -> bool {
        self.obj().cont.has(name)
    }
    pub fn set(&mut self, name: &str, v: Val) {
        *self.gm(name) = v;
    }
    pub fn n(&self, name: &str) -> u64 {
        self.g(name).u64()
    }
    pub fn r(&self, name: &str) -> [u8; 32] {
        self.g(name).b32()
    }
    pub fn root(b: [u8; 32]) -> Val {
        Val::Bytes(b.to_vec())
    }
    pub fn ty(&self) -> Ty {
        match self {
            Val::Obj(o) => Ty::C(o.cont.clone()),
            _ => panic!("harness: untyped"),
        }
    }
    pub fn htr(&self) -> [u8; 32] {
        self.ty().htr(self)
    }
    pub fn enc(&self) -> Vec<u8> {
        self.ty().enc(self)
    }
}

type R<T> = Result<T, String>;

impl Ty {
    pub fn cont(&self) -> &Arc<Cont> {
        match self {
            Ty::C(c) => c,
            _ => panic!("harness: not a container"),
        }
    }
    /// Some(size) for fixed-size types
    pub fn fixed(&self) -> Option<usize> {
        Some(match self {
            Ty::U8 | Ty::Bool => 1,
            Ty::U64 => 8,
            Ty::U256 => 32,
            Ty::BV(n) => *n,
            Ty::BitV(n) => n.div_ceil(8),
            Ty::BL(_) | Ty::BitL(_) | Ty::L(..) => return None,
            Ty::V(t, n) => t.fixed()? * n,
            Ty::C(c) => {
                let mut s = 0;
                for f in &c.fields {
                    s += f.ty.fixed()?;
                }
                s
            }
        })
    }
    pub fn default(&self) -> Val {
        match self {
            Ty::U8 => Val::U8(0),
            Ty::U64 => Val::U64(0),
            Ty::U256 => Val::U256([0; 32]),
            Ty::Bool => Val::Bool(false),
            Ty::BV(n) => Val::Bytes(vec![0; *n]),
            Ty::BL(_) => Val::Bytes(vec![]),
            Ty::BitV(n) => Val::Bits(vec![false; *n]),
            Ty::BitL(_) => Val::Bits(vec![]),
            Ty::V(t, n) => match **t {
                Ty::U64 => Val::U64s(vec![0; *n]),
                Ty::U8 => Val::U8s(vec![0; *n]),
                _ => Val::Seq(vec![t.default(); *n]),
            },
            Ty::L(t, _) => match **t {
                Ty::U64 => Val::U64s(vec![]),
                Ty::U8 => Val::U8s(vec![]),
                _ => Val::Seq(vec![]),
            },
            Ty::C(c) => Val::Obj(Obj {
                cont: c.clone(),
                f: c.fields.iter().map(|f| f.ty.default()).collect(),
            }),
        }
    }
    pub fn enc(&self, v: &Val) -> Vec<u8> {
        let mut o = vec![];
        self.enc_into(v, &mut o);
        o
    }
    fn enc_into(&self, v: &Val, o: &mut Vec<u8>) {
        match (self, v) {
            (Ty::U8, Val::U8(x)) => o.push(*x),
            (Ty::U64, Val::U64(x)) => o.extend(x.to_le_bytes()),
            (Ty::U256, Val::U256(x)) => o.extend(x),
            (Ty::Bool, Val::Bool(x)) => o.push(*x as u8),
            (Ty::BV(_) | Ty::BL(_), Val::Bytes(b)) => o.extend(b),
            (Ty::BitV(n), Val::Bits(b)) => {
                let s = o.len();
                o.resize(s + n.div_ceil(8), 0);
                for (i, x) in b.iter().enumerate() {
                    if *x {
                        o[s + i / 8] |= 1 << (i % 8);
                    }
                }
            }
            (Ty::BitL(_), Val::Bits(b)) => {
                let s = o.len();
                o.resize(s + b.len() / 8 + 1, 0);
                for (i, x) in b.iter().enumerate() {
                    if *x {
                        o[s + i / 8] |= 1 << (i % 8);
                    }
                }
                o[s + b.len() / 8] |= 1 << (b.len() % 8);
            }
            (Ty::V(..) | Ty::L(..), Val::U64s(x)) => x.iter().for_each(|e| o.extend(e.to_le_bytes())),
            (Ty::V(..) | Ty::L(..), Val::U8s(x)) => o.extend(x),
            (Ty::V(t, _) | Ty::L(t, _), Val::Seq(s)) => {
                let parts: Vec<(&Ty, &Val)> = s.iter().map(|e| (&**t, e)).collect();
                enc_parts(&parts, o)
            }
            (Ty::C(c), Val::Obj(x)) => {
                let parts: Vec<(&Ty, &Val)> =
                    c.fields.iter().zip(&x.f).map(|(f, v)| (&f.ty, v)).collect();
                enc_parts(&parts, o)
            }
            _ => panic!("harness: value does not match type {self:?}"),
        }
    }
    /// strict decoding: Err for every byte string that is not the encoding of a value
    pub fn dec(&self, b: &[u8]) -> R<Val> {
        if let Some(n) = self.fixed() {
            if b.len() != n {
                return Err(format!("length {} for fixed size {n}", b.len()));
            }
        }
        Ok(match self {
            Ty::U8 => Val::U8(b[0]),
            Ty::U64 => Val::U64(u64::from_le_bytes(b.try_into().unwrap())),
            Ty::U256 => Val::U256(b.try_into().unwrap()),
            Ty::Bool => match b[0] {
                0 => Val::Bool(false),
                1 => Val::Bool(true),
                _ => return Err("bool".into()),
            },
            Ty::BV(_) => Val::Bytes(b.to_vec()),
            Ty::BL(n) => {
                if b.len() > *n {
                    return Err("byte list too long".into());
                }
                Val::Bytes(b.to_vec())
            }
            Ty::BitV(n) => {
                for i in *n..b.len() * 8 {
                    if b[i / 8] >> (i % 8) & 1 == 1 {
                        return Err("excess bit".into());
                    }
                }
                Val::Bits((0..*n).map(|i| b[i / 8] >> (i % 8) & 1 == 1).collect())
            }
            Ty::BitL(n) => {
                let last = *b.last().ok_or("empty bitlist")?;
                if last == 0 {
                    return Err("no sentinel".into());
                }
                let len = (b.len() - 1) * 8 + (7 - last.leading_zeros() as usize);
                if len > *n {
                    return Err("bitlist too long".into());
                }
                Val::Bits((0..len).map(|i| b[i / 8] >> (i % 8) & 1 == 1).collect())
            }
            Ty::V(t, _) | Ty::L(t, _) => {
                let v = match (&**t, t.fixed()) {
                    (Ty::U64, _) => {
                        if b.len() % 8 != 0 {
                            return Err("ragged".into());
                        }
                        Val::U64s(
                            b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect(),
                        )
                    }
                    (Ty::U8, _) => Val::U8s(b.to_vec()),
                    (_, Some(s)) => {
                        if b.len() % s != 0 {
                            return Err("ragged".into());
                        }
                        Val::Seq(b.chunks(s).map(|c| t.dec(c)).collect::<R<_>>()?)
                    }
                    (_, None) => {
                        if b.is_empty() {
                            Val::Seq(vec![])
                        } else {
                            if b.len() < 4 {
                                return Err("short".into());
                            }
                            let first = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize;
                            if first % 4 != 0 || first == 0 || first > b.len() {
                                return Err("offset".into());
                            }
                            let k = first / 4;
                            let offs = offsets(b, &(0..k).map(|i| i * 4).collect::<Vec<_>>(), first)?;
                            Val::Seq(
                                (0..k)
                                    .map(|i| t.dec(&b[offs[i]..offs[i + 1]]))
                                    .collect::<R<_>>()?,
                            )
                        }
                    }
                };
                let len = match &v {
                    Val::U64s(x) => x.len(),
                    Val::U8s(x) => x.len(),
                    Val::Seq(x) => x.len(),
                    _ => unreachable!(),
                };
                match self {
                    Ty::V(_, n) if len != *n => return Err("vector length".into()),
                    Ty::L(_, n) if len > *n => return Err("list too long".into()),
                    _ => {}
                }
                v
            }
            Ty::C(c) => {
                let mut pos = 0;
                let mut var = vec![];
                let mut spans = vec![];
                for f in &c.fields {
                    let n = f.ty.fixed();
                    let w = n.unwrap_or(4);
                    if pos + w > b.len() {
                        return Err("container truncated".into());
                    }
                    if n.is_none() {
                        var.push(pos);
                    }
                    spans.push((pos, pos + w, n.is_some()));
                    pos += w;
                }
                let offs = offsets(b, &var, pos)?;
                let mut k = 0;
                let mut out = vec![];
                for (f, (s, e, fixed)) in c.fields.iter().zip(spans) {
                    if fixed {
                        out.push(f.ty.dec(&b[s..e])?);
                    } else {
                        out.push(f.ty.dec(&b[offs[k]..offs[k + 1]])?);
                        k += 1;
                    }
                }
                Val::Obj(Obj { cont: c.clone(), f: out })
            }
        })
    }
    pub fn htr(&self, v: &Val) -> [u8; 32] {
        match (self, v) {
            (Ty::U8, Val::U8(x)) => pad32(&[*x]),
            (Ty::U64, Val::U64(x)) => pad32(&x.to_le_bytes()),
            (Ty::U256, Val::U256(x)) => *x,
            (Ty::Bool, Val::Bool(x)) => pad32(&[*x as u8]),
            (Ty::BV(n), Val::Bytes(b)) => merkle(chunks(b), n.div_ceil(32)),
            (Ty::BL(n), Val::Bytes(b)) => mixin(merkle(chunks(b), n.div_ceil(32)), b.len()),
            (Ty::BitV(n), Val::Bits(_)) => merkle(chunks(&self.enc(v)), n.div_ceil(256)),
            (Ty::BitL(n), Val::Bits(b)) => {
                let raw = Ty::BitV(b.len()).enc(v);
                mixin(merkle(chunks(&raw), n.div_ceil(256)), b.len())
            }
            (Ty::V(_, n), Val::U64s(_)) => merkle(chunks(&self.enc(v)), n.div_ceil(4)),
            (Ty::L(_, n), Val::U64s(x)) => mixin(merkle(chunks(&self.enc(v)), n.div_ceil(4)), x.len()),
            (Ty::V(_, n), Val::U8s(x)) => merkle(chunks(x), n.div_ceil(32)),
            (Ty::L(_, n), Val::U8s(x)) => mixin(merkle(chunks(x), n.div_ceil(32)), x.len()),
            (Ty::V(t, n), Val::Seq(s)) => merkle(s.iter().map(|e| t.htr(e)).collect(), *n),
            (Ty::L(t, n), Val::Seq(s)) => {
                mixin(merkle(s.iter().map(|e| t.htr(e)).collect(), *n), s.len())
            }
            (Ty::C(c), Val::Obj(o)) => merkle(
                c.fields.iter().zip(&o.f).map(|(f, v)| f.ty.htr(v)).collect(),
                c.fields.len(),
            ),
            _ => panic!("harness: value does not match type {self:?}"),
        }
    }
    pub fn json(&self, v: &Val) -> Json {
        match (self, v) {
            (Ty::U8, Val::U8(x)) => json!(x.to_string()),
            (Ty::U64, Val::U64(x)) => json!(x.to_string()),
            (Ty::U256, Val::U256(x)) => json!(dec256(x)),
            (Ty::Bool, Val::Bool(x)) => json!(x),
            (Ty::BV(_) | Ty::BL(_), Val::Bytes(b)) => json!(vcommon::hexs(b)),
            (Ty::BitV(_) | Ty::BitL(_), _) => json!(vcommon::hexs(&self.enc(v))),
            (_, Val::U64s(x)) => x.iter().map(|e| json!(e.to_string())).collect(),
            (_, Val::U8s(x)) => x.iter().map(|e| json!(e.to_string())).collect(),
            (Ty::V(t, _) | Ty::L(t, _), Val::Seq(s)) => s.iter().map(|e| t.json(e)).collect(),
            (Ty::C(c), Val::Obj(o)) => {
                let mut m = Map::new();
                for (f, v) in c.fields.iter().zip(&o.f) {
                    m.insert(f.json.into(), f.ty.json(v));
                }
                Json::Object(m)
            }
            _ => panic!("harness: value does not match type {self:?}"),
        }
    }
    /// random value; `scale` bounds list lengths
    pub fn rand(&self, r: &mut Rng, scale: usize) -> Val {
        let len = |r: &mut Rng, n: usize| -> usize {
            let cap = n.min(scale);
            match r.below(6) {
                0 => 0,
                1 => cap,
                _ => r.idx(cap + 1),
            }
        };
        match self {
            Ty::U8 => Val::U8(r.edgy() as u8),
            Ty::U64 => Val::U64(r.edgy()),
            Ty::U256 => {
                let mut b: [u8; 32] = r.arr();
                match r.below(4) {
                    0 => b = [0; 32],
                    1 => {
                        let k = r.idx(33);
                        b[k..].fill(0)
                    }
                    2 => b = [255; 32],
                    _ => {}
                }
                Val::U256(b)
            }
            Ty::Bool => Val::Bool(r.chance(1, 2)),
            Ty::BV(n) => Val::Bytes(if r.chance(1, 12) { vec![0; *n] } else { r.bytes(*n) }),
            Ty::BL(n) => {
                let cap = (*n).min(scale * 40);
                let k = match r.below(6) {
                    0 => 0,
                    1 => cap,
                    _ => r.idx(cap + 1),
                };
                Val::Bytes(r.bytes(k))
            }
            Ty::BitV(n) => {
                let m = r.below(4);
                Val::Bits((0..*n).map(|_| m == 0 || (m != 1 && r.chance(1, 2))).collect())
            }
            Ty::BitL(n) => {
                let k = match r.below(8) {
                    0 => 0,
                    1 => *n,
                    2 => 8.min(*n),
                    3 => 7.min(*n),
                    _ => r.idx((*n).min(40) + 1),
                };
                let m = r.below(4);
                Val::Bits((0..k).map(|_| m == 0 || (m != 1 && r.chance(1, 2))).collect())
            }
            Ty::V(t, n) => match **t {
                Ty::U64 => Val::U64s((0..*n).map(|_| r.edgy()).collect()),
                Ty::U8 => Val::U8s(r.bytes(*n)),
                _ => {
                    if *n > 64 && r.chance(1, 2) {
                        let mut v = vec![t.default(); *n];
                        for _ in 0..16 {
                            let i = r.idx(*n);
                            v[i] = t.rand(r, scale);
                        }
                        Val::Seq(v)
                    } else {
                        Val::Seq((0..*n).map(|_| t.rand(r, scale)).collect())
                    }
                }
            },
            Ty::L(t, n) => {
                let k = len(r, *n);
                match **t {
                    Ty::U64 => Val::U64s((0..k).map(|_| r.edgy()).collect()),
                    Ty::U8 => Val::U8s(r.bytes(k)),
                    _ => Val::Seq((0..k).map(|_| t.rand(r, scale)).collect()),
                }
            }
            Ty::C(c) => Val::Obj(Obj {
                cont: c.clone(),
                f: c.fields.iter().map(|f| f.ty.rand(r, scale)).collect(),
            }),
        }
    }
}

fn enc_parts(parts: &[(&Ty, &Val)], o: &mut Vec<u8>) {
    let mut head: usize = parts.iter().map(|(t, _)| t.fixed().unwrap_or(4)).sum();
    let mut tail = vec![];
    for (t, v) in parts {
        if t.fixed().is_some() {
            t.enc_into(v, o);
        } else {
            o.extend((head as u32).to_le_bytes());
            let s = tail.len();
            t.enc_into(v, &mut tail);
            head += tail.len() - s;
        }
    }
    o.extend(tail);
}
fn offsets(b: &[u8], at: &[usize], first: usize) -> R<Vec<usize>> {
    if at.is_empty() {
        if first != b.len() {
            return Err("trailing bytes".into());
        }
        return Ok(vec![]);
    }
    let mut out = vec![];
    for p in at {
        out.push(u32::from_le_bytes(b[*p..*p + 4].try_into().unwrap()) as usize);
    }
    if out[0] != first {
        return Err("first offset".into());
    }
    out.push(b.len());
    if out.windows(2).any(|w| w[0] > w[1]) {
        return Err("offset order".into());
    }
    Ok(out)
}
pub fn pad32(b: &[u8]) -> [u8; 32] {
    let mut o = [0; 32];
    o[..b.len()].copy_from_slice(b);
    o
}
pub fn chunks(b: &[u8]) -> Vec<[u8; 32]> {
    b.chunks(32).map(pad32).collect()
}
pub fn zero_hash(d: usize) -> [u8; 32] {
    static Z: OnceLock<Vec<[u8; 32]>> = OnceLock::new();
    Z.get_or_init(|| {
        let mut v = vec![[0u8; 32]];
        for i in 0..64 {
            let h = sha(&[&v[i], &v[i]]);
            v.push(h);
        }
        v
    })[d]
}
pub fn depth_for(limit: usize) -> usize {
    limit.max(1).next_power_of_two().trailing_zeros() as usize
}
pub fn merkle(mut layer: Vec<[u8; 32]>, limit: usize) -> [u8; 32] {
    let d = depth_for(limit);
    assert!(layer.len() <= 1usize << d, "harness: too many chunks");
    if layer.is_empty() {
        return zero_hash(d);
    }
    for i in 0..d {
        if layer.len() % 2 == 1 {
            layer.push(zero_hash(i));
        }
        layer = layer.chunks(2).map(|p| sha(&[&p[0], &p[1]])).collect();
    }
    layer[0]
}
/// sibling path of leaf `i` in the tree of `limit` leaves, bottom up
pub fn branch(mut layer: Vec<[u8; 32]>, limit: usize, mut i: usize) -> Vec<[u8; 32]> {
    let d = depth_for(limit);
    let mut out = vec![];
    for l in 0..d {
        if layer.len() % 2 == 1 || layer.is_empty() {
            layer.push(zero_hash(l));
        }
        out.push(layer.get(i ^ 1).copied().unwrap_or(zero_hash(l)));
        layer = layer.chunks(2).map(|p| sha(&[&p[0], p.get(1).unwrap_or(&zero_hash(l))])).collect();
        i /= 2;
    }
    out
}
pub fn mixin(root: [u8; 32], n: usize) -> [u8; 32] {
    sha(&[&root, &pad32(&(n as u64).to_le_bytes())])
}
pub fn dec256(le: &[u8; 32]) -> String {
    let mut v: Vec<u32> = le.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
    let mut s = vec![];
    loop {
        let mut rem = 0u64;
        for d in v.iter_mut().rev() {
            let cur = rem << 32 | *d as u64;
            *d = (cur / 10) as u32;
            rem = cur % 10;
        }
        s.push(b'0' + rem as u8);
        if v.iter().all(|d| *d == 0) {
            break;
        }
    }
    s.reverse();
    String::from_utf8(s).unwrap()
}
/// first difference between two values, as a path
pub fn diff(ty: &Ty, a: &Val, b: &Val, path: &str, out: &mut Vec<String>) {
    if a == b || out.len() > 12 {
        return;
    }
    match (ty, a, b) {
        (Ty::C(c), Val::Obj(x), Val::Obj(y)) => {
            for (i, f) in c.fields.iter().enumerate() {
                diff(&f.ty, &x.f[i], &y.f[i], &format!("{path}.{}", f.name), out);
            }
        }
        (Ty::V(t, _) | Ty::L(t, _), Val::Seq(x), Val::Seq(y)) => {
            if x.len() != y.len() {
                out.push(format!("{path}: length {} vs {}", x.len(), y.len()));
            }
            for (i, (p, q)) in x.iter().zip(y).enumerate() {
                diff(t, p, q, &format!("{path}[{i}]"), out);
            }
        }
        (_, Val::U64s(x), Val::U64s(y)) => {
            if x.len() != y.len() {
                out.push(format!("{path}: length {} vs {}", x.len(), y.len()));
            }
            for (i, (p, q)) in x.iter().zip(y).enumerate() {
                if p != q && out.len() < 12 {
                    out.push(format!("{path}[{i}]: {p} vs {q}"));
                }
            }
        }
        _ => {
            let f = |v: &Val| {
                let s = match v {
                    Val::Bytes(b) => vcommon::hexs(b),
                    v => format!("{v:?}"),
                };
                s.chars().take(90).collect::<String>()
            };
            out.push(format!("{path}: {} vs {}", f(a), f(b)));
        }
    }
}
