//! Offline stand-in for `serde_yaml` 0.8: block mappings/sequences, flow sequences of scalars,
//! plain and quoted scalars, comments. Plain scalars resolve per the YAML 1.2 core schema when
//! the type is not hinted; hinted strings get the raw text, as serde_yaml 0.8 does.
use serde::de::{self, IntoDeserializer};
use std::fmt;

#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl de::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}

#[derive(Debug, Clone)]
enum Node {
    Plain(String),
    Quoted(String),
    Seq(Vec<Node>),
    Map(Vec<(String, Node)>),
}

fn strip_comment(l: &str) -> &str {
    let (mut q, b) = (None, l.as_bytes());
    for i in 0..b.len() {
        match (q, b[i]) {
            (None, b'\'') | (None, b'"') => q = Some(b[i]),
            (Some(c), x) if c == x => q = None,
            (None, b'#') if i == 0 || b[i - 1] == b' ' || b[i - 1] == b'\t' => return &l[..i],
            _ => {}
        }
    }
    l
}
fn scalar(s: &str) -> Result<Node, Error> {
    let s = s.trim();
    if let Some(r) = s.strip_prefix('\'') {
        return r.strip_suffix('\'').map(|r| Node::Quoted(r.replace("''", "'"))).ok_or(Error("unterminated quote".into()));
    }
    if let Some(r) = s.strip_prefix('"') {
        return r.strip_suffix('"').map(|r| Node::Quoted(r.replace("\\\"", "\"").replace("\\\\", "\\"))).ok_or(Error("unterminated quote".into()));
    }
    if let Some(r) = s.strip_prefix('[') {
        let r = r.strip_suffix(']').ok_or(Error("unterminated sequence".into()))?;
        return Ok(Node::Seq(r.split(',').filter(|x| !x.trim().is_empty()).map(scalar).collect::<Result<_, _>>()?));
    }
    if s == "{}" {
        return Ok(Node::Map(vec![]));
    }
    Ok(Node::Plain(s.to_string()))
}
fn key_split(s: &str) -> Option<(&str, &str)> {
    if let Some(k) = s.strip_suffix(':') {
        if !k.contains(": ") {
            return Some((k, ""));
        }
    }
    s.split_once(": ")
}
type Line<'a> = (usize, &'a str);
fn block(lines: &[Line<'_>], at: &mut usize, indent: usize) -> Result<Node, Error> {
    if *at >= lines.len() {
        return Ok(Node::Plain(String::new()));
    }
    if lines[*at].1.starts_with("- ") || lines[*at].1 == "-" {
        let mut out = vec![];
        while *at < lines.len() && lines[*at].0 == indent && lines[*at].1.starts_with('-') {
            let rest = lines[*at].1[1..].trim_start();
            let off = indent + lines[*at].1.len() - rest.len();
            if rest.is_empty() {
                *at += 1;
                let ind = lines.get(*at).map(|l| l.0).unwrap_or(0);
                out.push(block(lines, at, ind)?);
            } else if key_split(rest).is_some() && !rest.starts_with(['"', '\'']) {
                let mut sub: Vec<Line<'_>> = vec![(off, rest)];
                *at += 1;
                while *at < lines.len() && lines[*at].0 >= off {
                    sub.push(lines[*at]);
                    *at += 1;
                }
                let mut k = 0;
                out.push(block(&sub, &mut k, off)?);
            } else {
                out.push(scalar(rest)?);
                *at += 1;
            }
        }
        return Ok(Node::Seq(out));
    }
    let mut out: Vec<(String, Node)> = vec![];
    while *at < lines.len() {
        let (ind, text) = lines[*at];
        if ind < indent {
            break;
        }
        if ind > indent {
            return Err(Error(format!("unexpected indentation at {text:?}")));
        }
        let Some((k, v)) = key_split(text) else {
            if lines.len() == 1 {
                *at += 1;
                return scalar(text);
            }
            return Err(Error(format!("expected a mapping entry at {text:?}")));
        };
        let k = match scalar(k)? {
            Node::Plain(s) | Node::Quoted(s) => s,
            _ => return Err(Error("bad key".into())),
        };
        if out.iter().any(|(o, _)| *o == k) {
            return Err(Error(format!("duplicate field `{k}`")));
        }
        *at += 1;
        if v.trim().is_empty() {
            match lines.get(*at) {
                Some((i2, t)) if *i2 > indent || (*i2 == indent && t.starts_with("- ")) => {
                    let i2 = *i2;
                    out.push((k, block(lines, at, i2)?));
                }
                _ => out.push((k, Node::Plain(String::new()))),
            }
        } else {
            out.push((k, scalar(v)?));
        }
    }
    Ok(Node::Map(out))
}
fn parse(s: &str) -> Result<Node, Error> {
    let lines: Vec<Line<'_>> = s
        .lines()
        .map(strip_comment)
        .map(|l| l.trim_end())
        .filter(|l| !l.trim().is_empty() && *l != "---" && *l != "...")
        .map(|l| (l.len() - l.trim_start().len(), l.trim_start()))
        .collect();
    if lines.is_empty() {
        return Err(Error("EOF while parsing a value".into()));
    }
    let mut at = 0;
    let n = block(&lines, &mut at, lines[0].0)?;
    if at < lines.len() {
        return Err(Error(format!("trailing content at {:?}", lines[at].1)));
    }
    Ok(n)
}

enum Num {
    U(u64),
    I(i64),
    F(f64),
}
fn num(s: &str) -> Option<Num> {
    let t = s.strip_prefix('+').unwrap_or(s);
    if let Some(h) = t.strip_prefix("0x") {
        return u64::from_str_radix(h, 16).ok().map(Num::U);
    }
    if let Some(h) = t.strip_prefix("0o") {
        return u64::from_str_radix(h, 8).ok().map(Num::U);
    }
    if t.len() > 1 && t.starts_with('0') && t.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    t.parse::<u64>().ok().map(Num::U).or_else(|| t.parse::<i64>().ok().map(Num::I)).or_else(|| {
        t.starts_with(|c: char| c.is_ascii_digit() || c == '-' || c == '.')
            .then(|| t.parse::<f64>().ok().map(Num::F))
            .flatten()
    })
}

struct De(Node);
impl<'de> IntoDeserializer<'de, Error> for De {
    type Deserializer = De;
    fn into_deserializer(self) -> De {
        self
    }
}
macro_rules! prim {
    ($($m:ident)*) => {$(
        fn $m<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.deserialize_any(v) }
    )*}
}
impl<'de> de::Deserializer<'de> for De {
    type Error = Error;
    fn deserialize_any<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.0 {
            Node::Plain(s) => match s.as_str() {
                "" | "~" | "null" | "Null" | "NULL" => v.visit_unit(),
                "true" | "True" | "TRUE" => v.visit_bool(true),
                "false" | "False" | "FALSE" => v.visit_bool(false),
                _ => match num(&s) {
                    Some(Num::U(n)) => v.visit_u64(n),
                    Some(Num::I(n)) => v.visit_i64(n),
                    Some(Num::F(n)) => v.visit_f64(n),
                    None => v.visit_string(s),
                },
            },
            Node::Quoted(s) => v.visit_string(s),
            Node::Seq(s) => v.visit_seq(de::value::SeqDeserializer::new(s.into_iter().map(De))),
            Node::Map(m) => {
                v.visit_map(de::value::MapDeserializer::new(m.into_iter().map(|(k, n)| (k, De(n)))))
            }
        }
    }
    fn deserialize_str<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.0 {
            Node::Plain(s) | Node::Quoted(s) => v.visit_string(s),
            _ => self.deserialize_any(v),
        }
    }
    fn deserialize_string<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.deserialize_str(v)
    }
    fn deserialize_option<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match &self.0 {
            Node::Plain(s) if matches!(s.as_str(), "" | "~" | "null") => v.visit_none(),
            _ => v.visit_some(self),
        }
    }
    fn deserialize_newtype_struct<V: de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_enum<V: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        match self.0 {
            Node::Plain(s) | Node::Quoted(s) => v.visit_enum(IntoDeserializer::<Error>::into_deserializer(s)),
            Node::Map(m) => v.visit_enum(de::value::MapAccessDeserializer::new(
                de::value::MapDeserializer::new(m.into_iter().map(|(k, n)| (k, De(n)))),
            )),
            _ => Err(Error("invalid enum".into())),
        }
    }
    prim!(deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_f32 deserialize_f64 deserialize_bytes deserialize_byte_buf deserialize_unit deserialize_seq deserialize_map deserialize_ignored_any deserialize_i128 deserialize_u128);
    fn deserialize_char<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.deserialize_str(v) }
    fn deserialize_identifier<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.deserialize_str(v) }
    fn deserialize_unit_struct<V: de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> { self.deserialize_any(v) }
    fn deserialize_tuple<V: de::Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Error> { self.deserialize_any(v) }
    fn deserialize_tuple_struct<V: de::Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, Error> { self.deserialize_any(v) }
    fn deserialize_struct<V: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Error> { self.deserialize_any(v) }
}

pub fn from_str<T: de::DeserializeOwned>(s: &str) -> Result<T, Error> {
    T::deserialize(De(parse(s)?))
}
pub fn from_slice<T: de::DeserializeOwned>(s: &[u8]) -> Result<T, Error> {
    from_str(std::str::from_utf8(s).map_err(|e| Error(e.to_string()))?)
}
pub fn from_reader<R: std::io::Read, T: de::DeserializeOwned>(mut r: R) -> Result<T, Error> {
    let mut s = String::new();
    r.read_to_string(&mut s).map_err(|e| Error(e.to_string()))?;
    from_str(&s)
}
