//! Offline stand-in for `reqwest` 0.11: same builder interface, the network replaced by a handler
//! on the calling thread that sees every request and answers it.
use serde::ser::{self, Impossible, Serialize};
use std::fmt;
pub use http::StatusCode;
pub use url::Url;

#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

pub mod stand_in {
    use std::cell::RefCell;
    #[derive(Debug, Clone, PartialEq)]
    pub struct Request {
        pub method: String,
        pub url: url::Url,
        pub headers: Vec<(String, String)>,
        pub body: Option<Vec<u8>>,
    }
    #[derive(Debug, Clone)]
    pub struct Reply {
        pub status: u16,
        pub body: Vec<u8>,
    }
    type Handler = Box<dyn FnMut(Request) -> Result<Reply, String>>;
    thread_local! {
        static HANDLER: RefCell<Option<Handler>> = const { RefCell::new(None) };
    }
    pub fn set(h: impl FnMut(Request) -> Result<Reply, String> + 'static) {
        HANDLER.set(Some(Box::new(h)));
    }
    pub(crate) fn send(r: Request) -> super::Result<Reply> {
        HANDLER.with_borrow_mut(|h| match h {
            Some(h) => h(r).map_err(super::Error),
            None => Err(super::Error("no network".into())),
        })
    }
    /// for the event client
    pub fn fetch(url: &str) -> super::Result<Reply> {
        let url = url::Url::parse(url).map_err(|e| super::Error(e.to_string()))?;
        send(Request { method: "GET".into(), url, headers: vec![], body: None })
    }
}

#[derive(Clone, Debug, Default)]
pub struct Client;
impl Client {
    pub fn new() -> Self {
        Self
    }
    pub fn request(&self, method: &str, url: Url) -> RequestBuilder {
        RequestBuilder(Ok(stand_in::Request { method: method.into(), url, headers: vec![], body: None }))
    }
    pub fn get(&self, url: Url) -> RequestBuilder {
        self.request("GET", url)
    }
    pub fn post(&self, url: Url) -> RequestBuilder {
        self.request("POST", url)
    }
    pub fn put(&self, url: Url) -> RequestBuilder {
        self.request("PUT", url)
    }
    pub fn delete(&self, url: Url) -> RequestBuilder {
        self.request("DELETE", url)
    }
}
#[derive(Debug)]
pub struct RequestBuilder(Result<stand_in::Request>);
impl RequestBuilder {
    pub fn query<T: Serialize + ?Sized>(mut self, q: &T) -> Self {
        let pairs = q.serialize(Pairs);
        match (&mut self.0, pairs) {
            (Ok(r), Ok(p)) => {
                {
                    let mut out = r.url.query_pairs_mut();
                    for (k, v) in p {
                        out.append_pair(&k, &v);
                    }
                }
                if r.url.query() == Some("") {
                    r.url.set_query(None);
                }
            }
            (Ok(_), Err(e)) => self.0 = Err(Error(e.0)),
            _ => {}
        }
        self
    }
    pub fn json<T: Serialize + ?Sized>(mut self, v: &T) -> Self {
        match (&mut self.0, serde_json::to_vec(v)) {
            (Ok(r), Ok(b)) => {
                if !r.headers.iter().any(|h| h.0 == "content-type") {
                    r.headers.push(("content-type".into(), "application/json".into()));
                }
                r.body = Some(b);
            }
            (Ok(_), Err(e)) => self.0 = Err(Error(e.to_string())),
            _ => {}
        }
        self
    }
    pub fn header<K: AsRef<str>, V: AsRef<str>>(mut self, k: K, v: V) -> Self {
        if let Ok(r) = &mut self.0 {
            r.headers.push((k.as_ref().to_ascii_lowercase(), v.as_ref().to_string()));
        }
        self
    }
    pub fn body<B: Into<Vec<u8>>>(mut self, b: B) -> Self {
        if let Ok(r) = &mut self.0 {
            r.body = Some(b.into());
        }
        self
    }
    pub async fn send(self) -> Result<Response> {
        let url;
        let reply = {
            let r = self.0?;
            url = r.url.clone();
            stand_in::send(r)?
        };
        let status = StatusCode::from_u16(reply.status).map_err(|e| Error(e.to_string()))?;
        Ok(Response { status, body: reply.body, url })
    }
}
#[derive(Debug)]
pub struct Response {
    status: StatusCode,
    body: Vec<u8>,
    url: Url,
}
impl Response {
    pub fn status(&self) -> StatusCode {
        self.status
    }
    pub fn url(&self) -> &Url {
        &self.url
    }
    pub async fn json<T: serde::de::DeserializeOwned>(self) -> Result<T> {
        serde_json::from_slice(&self.body).map_err(|e| Error(format!("error decoding response body: {e}")))
    }
    pub async fn bytes(self) -> Result<Vec<u8>> {
        Ok(self.body)
    }
    pub async fn text(self) -> Result<String> {
        Ok(String::from_utf8_lossy(&self.body).into_owned())
    }
    pub fn error_for_status(self) -> Result<Self> {
        if self.status.is_client_error() || self.status.is_server_error() {
            Err(Error(format!("HTTP status {}", self.status)))
        } else {
            Ok(self)
        }
    }
}

// ---- what serde_urlencoded accepts: a sequence or map of (key, primitive) pairs
#[derive(Debug)]
struct QErr(String);
impl fmt::Display for QErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for QErr {}
impl ser::Error for QErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        QErr(m.to_string())
    }
}
type List = Vec<(String, String)>;
fn top<T>() -> std::result::Result<T, QErr> {
    Err(QErr("top-level serializer supports only maps and structs".into()))
}
fn unsupported<T>() -> std::result::Result<T, QErr> {
    Err(QErr("unsupported value".into()))
}
struct Pairs;
macro_rules! refuse {
    ($f:ident; $($n:ident($($t:ty),*)),* $(,)?) => { $(fn $n(self, $(_: $t),*) -> std::result::Result<Self::Ok, QErr> { $f() })* };
}
impl ser::Serializer for Pairs {
    type Ok = List;
    type Error = QErr;
    type SerializeSeq = Seq;
    type SerializeTuple = Seq;
    type SerializeTupleStruct = Seq;
    type SerializeTupleVariant = Impossible<List, QErr>;
    type SerializeMap = MapOf;
    type SerializeStruct = MapOf;
    type SerializeStructVariant = Impossible<List, QErr>;
    refuse!(top; serialize_bool(bool), serialize_i8(i8), serialize_i16(i16), serialize_i32(i32), serialize_i64(i64), serialize_u8(u8),
        serialize_u16(u16), serialize_u32(u32), serialize_u64(u64), serialize_f32(f32), serialize_f64(f64), serialize_char(char),
        serialize_str(&str), serialize_bytes(&[u8]), serialize_none(), serialize_unit_variant(&'static str, u32, &'static str));
    fn serialize_unit(self) -> std::result::Result<List, QErr> {
        Ok(vec![])
    }
    fn serialize_unit_struct(self, _: &'static str) -> std::result::Result<List, QErr> {
        Ok(vec![])
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> std::result::Result<List, QErr> {
        v.serialize(self)
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> std::result::Result<List, QErr> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> std::result::Result<List, QErr> {
        top()
    }
    fn serialize_seq(self, _: Option<usize>) -> std::result::Result<Seq, QErr> {
        Ok(Seq(vec![]))
    }
    fn serialize_tuple(self, _: usize) -> std::result::Result<Seq, QErr> {
        Ok(Seq(vec![]))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> std::result::Result<Seq, QErr> {
        Ok(Seq(vec![]))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> std::result::Result<Self::SerializeTupleVariant, QErr> {
        top()
    }
    fn serialize_map(self, _: Option<usize>) -> std::result::Result<MapOf, QErr> {
        Ok(MapOf(vec![], None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> std::result::Result<MapOf, QErr> {
        Ok(MapOf(vec![], None))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> std::result::Result<Self::SerializeStructVariant, QErr> {
        top()
    }
}
struct Seq(List);
impl Seq {
    fn add<T: Serialize + ?Sized>(&mut self, v: &T) -> std::result::Result<(), QErr> {
        if let Some(p) = v.serialize(Pair(vec![]))? {
            self.0.push(p);
        }
        Ok(())
    }
}
impl ser::SerializeSeq for Seq {
    type Ok = List;
    type Error = QErr;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> std::result::Result<(), QErr> {
        self.add(v)
    }
    fn end(self) -> std::result::Result<List, QErr> {
        Ok(self.0)
    }
}
impl ser::SerializeTuple for Seq {
    type Ok = List;
    type Error = QErr;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> std::result::Result<(), QErr> {
        self.add(v)
    }
    fn end(self) -> std::result::Result<List, QErr> {
        Ok(self.0)
    }
}
impl ser::SerializeTupleStruct for Seq {
    type Ok = List;
    type Error = QErr;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> std::result::Result<(), QErr> {
        self.add(v)
    }
    fn end(self) -> std::result::Result<List, QErr> {
        Ok(self.0)
    }
}
struct MapOf(List, Option<String>);
impl ser::SerializeMap for MapOf {
    type Ok = List;
    type Error = QErr;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> std::result::Result<(), QErr> {
        self.1 = k.serialize(Text)?;
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> std::result::Result<(), QErr> {
        if let (Some(k), Some(v)) = (self.1.take(), v.serialize(Text)?) {
            self.0.push((k, v));
        }
        Ok(())
    }
    fn end(self) -> std::result::Result<List, QErr> {
        Ok(self.0)
    }
}
impl ser::SerializeStruct for MapOf {
    type Ok = List;
    type Error = QErr;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> std::result::Result<(), QErr> {
        if let Some(v) = v.serialize(Text)? {
            self.0.push((k.into(), v));
        }
        Ok(())
    }
    fn end(self) -> std::result::Result<List, QErr> {
        Ok(self.0)
    }
}
/// one element of the sequence: a tuple of two
struct Pair(Vec<Option<String>>);
fn pair<T>() -> std::result::Result<T, QErr> {
    Err(QErr("unsupported pair".into()))
}
impl ser::Serializer for Pair {
    type Ok = Option<(String, String)>;
    type Error = QErr;
    type SerializeSeq = Impossible<Self::Ok, QErr>;
    type SerializeTuple = Pair;
    type SerializeTupleStruct = Pair;
    type SerializeTupleVariant = Impossible<Self::Ok, QErr>;
    type SerializeMap = Impossible<Self::Ok, QErr>;
    type SerializeStruct = Impossible<Self::Ok, QErr>;
    type SerializeStructVariant = Impossible<Self::Ok, QErr>;
    refuse!(pair; serialize_bool(bool), serialize_i8(i8), serialize_i16(i16), serialize_i32(i32), serialize_i64(i64), serialize_u8(u8),
        serialize_u16(u16), serialize_u32(u32), serialize_u64(u64), serialize_f32(f32), serialize_f64(f64), serialize_char(char),
        serialize_str(&str), serialize_bytes(&[u8]), serialize_unit(), serialize_unit_struct(&'static str),
        serialize_unit_variant(&'static str, u32, &'static str));
    fn serialize_none(self) -> std::result::Result<Self::Ok, QErr> {
        Ok(None)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> std::result::Result<Self::Ok, QErr> {
        v.serialize(self)
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> std::result::Result<Self::Ok, QErr> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> std::result::Result<Self::Ok, QErr> {
        pair()
    }
    fn serialize_seq(self, _: Option<usize>) -> std::result::Result<Self::SerializeSeq, QErr> {
        pair()
    }
    fn serialize_tuple(self, n: usize) -> std::result::Result<Pair, QErr> {
        if n == 2 {
            Ok(self)
        } else {
            pair()
        }
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> std::result::Result<Pair, QErr> {
        pair()
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> std::result::Result<Self::SerializeTupleVariant, QErr> {
        pair()
    }
    fn serialize_map(self, _: Option<usize>) -> std::result::Result<Self::SerializeMap, QErr> {
        pair()
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> std::result::Result<Self::SerializeStruct, QErr> {
        pair()
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> std::result::Result<Self::SerializeStructVariant, QErr> {
        pair()
    }
}
impl Pair {
    fn finish(mut self) -> std::result::Result<Option<(String, String)>, QErr> {
        let v = self.0.pop().flatten();
        let k = self.0.pop().flatten();
        Ok(k.zip(v))
    }
}
impl ser::SerializeTuple for Pair {
    type Ok = Option<(String, String)>;
    type Error = QErr;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> std::result::Result<(), QErr> {
        self.0.push(v.serialize(Text)?);
        Ok(())
    }
    fn end(self) -> std::result::Result<Self::Ok, QErr> {
        self.finish()
    }
}
impl ser::SerializeTupleStruct for Pair {
    type Ok = Option<(String, String)>;
    type Error = QErr;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> std::result::Result<(), QErr> {
        self.0.push(v.serialize(Text)?);
        Ok(())
    }
    fn end(self) -> std::result::Result<Self::Ok, QErr> {
        self.finish()
    }
}
/// a key or value: primitives only
struct Text;
macro_rules! print {
    ($($n:ident($t:ty)),* $(,)?) => { $(fn $n(self, v: $t) -> std::result::Result<Self::Ok, QErr> { Ok(Some(v.to_string())) })* };
}
impl ser::Serializer for Text {
    type Ok = Option<String>;
    type Error = QErr;
    type SerializeSeq = Impossible<Self::Ok, QErr>;
    type SerializeTuple = Impossible<Self::Ok, QErr>;
    type SerializeTupleStruct = Impossible<Self::Ok, QErr>;
    type SerializeTupleVariant = Impossible<Self::Ok, QErr>;
    type SerializeMap = Impossible<Self::Ok, QErr>;
    type SerializeStruct = Impossible<Self::Ok, QErr>;
    type SerializeStructVariant = Impossible<Self::Ok, QErr>;
    print!(serialize_bool(bool), serialize_i8(i8), serialize_i16(i16), serialize_i32(i32), serialize_i64(i64), serialize_u8(u8),
        serialize_u16(u16), serialize_u32(u32), serialize_u64(u64), serialize_f32(f32), serialize_f64(f64), serialize_char(char), serialize_str(&str));
    refuse!(unsupported; serialize_bytes(&[u8]), serialize_unit(), serialize_unit_struct(&'static str));
    fn serialize_none(self) -> std::result::Result<Self::Ok, QErr> {
        Ok(None)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> std::result::Result<Self::Ok, QErr> {
        v.serialize(self)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> std::result::Result<Self::Ok, QErr> {
        Ok(Some(v.to_string()))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> std::result::Result<Self::Ok, QErr> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> std::result::Result<Self::Ok, QErr> {
        unsupported()
    }
    fn serialize_seq(self, _: Option<usize>) -> std::result::Result<Self::SerializeSeq, QErr> {
        unsupported()
    }
    fn serialize_tuple(self, _: usize) -> std::result::Result<Self::SerializeTuple, QErr> {
        unsupported()
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> std::result::Result<Self::SerializeTupleStruct, QErr> {
        unsupported()
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> std::result::Result<Self::SerializeTupleVariant, QErr> {
        unsupported()
    }
    fn serialize_map(self, _: Option<usize>) -> std::result::Result<Self::SerializeMap, QErr> {
        unsupported()
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> std::result::Result<Self::SerializeStruct, QErr> {
        unsupported()
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> std::result::Result<Self::SerializeStructVariant, QErr> {
        unsupported()
    }
}
