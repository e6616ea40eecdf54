//! Offline stand-in for `multiaddr`: an opaque textual address ("/proto/value/...").
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Multiaddr(String);
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Error {
    InvalidMultiaddr,
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "invalid multiaddr")
    }
}
impl std::error::Error for Error {}
impl std::str::FromStr for Multiaddr {
    type Err = Error;
    fn from_str(s: &str) -> Result<Self, Error> {
        if s.starts_with('/') {
            Ok(Self(s.to_string()))
        } else {
            Err(Error::InvalidMultiaddr)
        }
    }
}
impl std::fmt::Display for Multiaddr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl serde::Serialize for Multiaddr {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.0)
    }
}
impl<'de> serde::Deserialize<'de> for Multiaddr {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        s.parse().map_err(serde::de::Error::custom)
    }
}
