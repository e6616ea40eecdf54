//! Offline stand-in for the parts of `ssz_rs` (rev 84ef2b71) that ethereum-consensus uses.
//! Written from the SSZ specification (simple-serialize.md, merkle-proofs.md).
use bitvec::prelude::{BitVec, Lsb0};
use sha2::{Digest, Sha256};
use std::{
    fmt,
    hash::Hash,
    ops::{Deref, DerefMut, Index, IndexMut},
    slice::SliceIndex,
    str::FromStr,
    sync::OnceLock,
};
use thiserror::Error;

pub use ssz_rs_derive::{
    GeneralizedIndexable, HashTreeRoot, Prove, Serializable, SimpleSerialize,
};

// ---------------------------------------------------------------- errors
#[derive(Debug, Clone, PartialEq, Eq, Error)]
pub enum InstanceError {
    #[error("required {required} elements for this type but {provided} elements given")]
    Exact { required: usize, provided: usize },
    #[error("{provided} elements given for type with (inclusive) upper bound {bound}")]
    Bounded { bound: usize, provided: usize },
}

#[derive(Debug, Clone, PartialEq, Eq, Error)]
pub enum TypeError {
    #[error("the type for this value has a bound of {0} which is not valid")]
    InvalidBound(usize),
}

#[derive(Debug, Clone, PartialEq, Eq, Error)]
pub enum SerializeError {
    #[error("the encoded length is {0} which exceeds the maximum length")]
    MaximumEncodedLengthExceeded(usize),
    #[error("invalid instance: {0}")]
    InvalidInstance(#[from] InstanceError),
    #[error("invalid type: {0}")]
    InvalidType(#[from] TypeError),
}

#[derive(Debug, Clone, PartialEq, Eq, Error)]
pub enum DeserializeError {
    #[error("expected at least {expected} bytes when decoding but only {provided} bytes provided")]
    ExpectedFurtherInput { provided: usize, expected: usize },
    #[error("{provided} bytes given but only {expected} bytes expected")]
    AdditionalInput { provided: usize, expected: usize },
    #[error("invalid byte {0:x} when decoding data of the expected type")]
    InvalidByte(u8),
    #[error("invalid offset points to byte {0}")]
    InvalidOffsetPoint(usize),
    #[error("offsets were not monotone")]
    OffsetNotMonotone,
    #[error("invalid input")]
    InvalidInput,
    #[error("invalid instance: {0}")]
    InvalidInstance(#[from] InstanceError),
    #[error("invalid type: {0}")]
    InvalidType(#[from] TypeError),
}

#[derive(Debug, Clone, PartialEq, Eq, Error)]
pub enum MerkleizationError {
    #[error("failed to serialize value: {0}")]
    SerializationError(#[from] SerializeError),
    #[error("could not validate merkle proof")]
    InvalidProof,
    #[error("cannot merkleize data that exceeds the declared limit {0}")]
    InputExceedsLimit(usize),
    #[error("invalid path element {0:?}")]
    InvalidPathElement(PathElement),
    #[error("invalid path")]
    InvalidPath,
    #[error("invalid generalized index")]
    InvalidGeneralizedIndex,
    #[error("invalid depth")]
    InvalidDepth,
}

#[derive(Debug, Clone, PartialEq, Eq, Error)]
pub enum SimpleSerializeError {
    #[error("could not serialize: {0}")]
    Serialize(#[from] SerializeError),
    #[error("could not deserialize: {0}")]
    Deserialize(#[from] DeserializeError),
    #[error("merkleization error: {0}")]
    Merkleization(#[from] MerkleizationError),
    #[error("invalid instance: {0}")]
    Instance(#[from] InstanceError),
    #[error("invalid type: {0}")]
    Type(#[from] TypeError),
}

// ---------------------------------------------------------------- traits
pub trait Sized {
    fn is_variable_size() -> bool;
    fn size_hint() -> usize;
}
pub trait Serialize {
    fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError>;
}
pub trait Deserialize: std::marker::Sized {
    fn deserialize(encoding: &[u8]) -> Result<Self, DeserializeError>;
}
pub trait Serializable: Sized + Serialize + Deserialize {}
pub trait HashTreeRoot {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError>;
    fn is_basic() -> bool
    where
        Self: std::marker::Sized,
    {
        false
    }
    fn pack(&self, _out: &mut Vec<u8>) -> Result<(), MerkleizationError> {
        unreachable!("only basic types pack")
    }
}
impl<T: HashTreeRoot + ?std::marker::Sized> HashTreeRoot for &T {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        (**self).hash_tree_root()
    }
}
impl<T: HashTreeRoot + ?std::marker::Sized> HashTreeRoot for &mut T {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        (**self).hash_tree_root()
    }
}
impl<T: HashTreeRoot + ?std::marker::Sized> HashTreeRoot for Box<T> {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        (**self).hash_tree_root()
    }
}
pub trait GeneralizedIndexable {
    fn chunk_count() -> usize {
        1
    }
    fn generalized_index(path: Path<'_>) -> Result<usize, MerkleizationError> {
        Self::compute_generalized_index(1, path)
    }
    fn compute_generalized_index(
        parent: usize,
        path: Path<'_>,
    ) -> Result<usize, MerkleizationError> {
        if path.is_empty() {
            Ok(parent)
        } else {
            Err(MerkleizationError::InvalidPathElement(path[0].clone()))
        }
    }
}
pub trait SimpleSerialize: Serializable + HashTreeRoot + GeneralizedIndexable {}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum PathElement {
    Index(usize),
    Field(String),
    Length,
    Selector,
}
pub type Path<'a> = &'a [PathElement];
pub type GeneralizedIndex = usize;
impl From<usize> for PathElement {
    fn from(i: usize) -> Self {
        Self::Index(i)
    }
}
impl From<&str> for PathElement {
    fn from(s: &str) -> Self {
        Self::Field(s.to_string())
    }
}

// ---------------------------------------------------------------- Node
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Node(pub [u8; 32]);
impl Node {
    pub const ZERO: Self = Self([0; 32]);
    pub fn as_slice(&self) -> &[u8] {
        &self.0
    }
}
impl Deref for Node {
    type Target = [u8; 32];
    fn deref(&self) -> &[u8; 32] {
        &self.0
    }
}
impl DerefMut for Node {
    fn deref_mut(&mut self) -> &mut [u8; 32] {
        &mut self.0
    }
}
impl AsRef<[u8]> for Node {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl AsMut<[u8]> for Node {
    fn as_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}
impl From<[u8; 32]> for Node {
    fn from(b: [u8; 32]) -> Self {
        Self(b)
    }
}
impl From<Node> for [u8; 32] {
    fn from(n: Node) -> Self {
        n.0
    }
}
impl TryFrom<&[u8]> for Node {
    type Error = std::array::TryFromSliceError;
    fn try_from(b: &[u8]) -> Result<Self, Self::Error> {
        Ok(Self(b.try_into()?))
    }
}
impl fmt::Debug for Node {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "0x{}", hex::encode(self.0))
    }
}
impl fmt::LowerHex for Node {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if f.alternate() {
            write!(f, "0x")?;
        }
        write!(f, "{}", hex::encode(self.0))
    }
}
impl fmt::Display for Node {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "0x{}", hex::encode(self.0))
    }
}
impl FromStr for Node {
    type Err = hex::FromHexError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        let mut out = [0u8; 32];
        hex::decode_to_slice(s.strip_prefix("0x").unwrap_or(s), &mut out)?;
        Ok(Self(out))
    }
}
impl serde::Serialize for Node {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(self)
    }
}
impl<'de> serde::Deserialize<'de> for Node {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = <String as serde::Deserialize>::deserialize(d)?;
        s.parse().map_err(serde::de::Error::custom)
    }
}

// ---------------------------------------------------------------- merkle
fn hash_pair(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    let mut h = Sha256::new();
    h.update(a);
    h.update(b);
    h.finalize().into()
}
fn zero_hash(depth: usize) -> [u8; 32] {
    static Z: OnceLock<Vec<[u8; 32]>> = OnceLock::new();
    Z.get_or_init(|| {
        let mut v = vec![[0u8; 32]];
        for i in 0..64 {
            let n = hash_pair(&v[i], &v[i]);
            v.push(n);
        }
        v
    })[depth]
}

pub mod __internal {
    use super::*;

    pub fn next_pow2(n: usize) -> usize {
        n.max(1).next_power_of_two()
    }

    pub fn merkleize(
        mut layer: Vec<[u8; 32]>,
        limit: usize,
    ) -> Result<Node, MerkleizationError> {
        if layer.len() > limit {
            return Err(MerkleizationError::InputExceedsLimit(limit));
        }
        let depth = next_pow2(limit).trailing_zeros() as usize;
        if layer.is_empty() {
            return Ok(Node(zero_hash(depth)));
        }
        for d in 0..depth {
            let mut i = 0;
            let mut o = 0;
            let n = layer.len();
            while i < n {
                let right = if i + 1 < n { layer[i + 1] } else { zero_hash(d) };
                layer[o] = hash_pair(&layer[i], &right);
                o += 1;
                i += 2;
            }
            layer.truncate(o);
        }
        Ok(Node(layer[0]))
    }

    pub fn chunks(bytes: &[u8]) -> Vec<[u8; 32]> {
        bytes
            .chunks(32)
            .map(|c| {
                let mut out = [0u8; 32];
                out[..c.len()].copy_from_slice(c);
                out
            })
            .collect()
    }

    pub fn mix_in(root: Node, n: usize) -> Node {
        let mut l = [0u8; 32];
        l[..8].copy_from_slice(&(n as u64).to_le_bytes());
        Node(hash_pair(&root.0, &l))
    }

    /// Serializer for the elements of a container or homogeneous collection.
    #[derive(Default)]
    pub struct Serializer {
        fixed: Vec<u8>,
        offsets: Vec<(usize, usize)>,
        variable: Vec<u8>,
    }
    impl Serializer {
        pub fn field<T: Serialize + super::Sized>(&mut self, v: &T) -> Result<(), SerializeError> {
            if T::is_variable_size() {
                self.offsets.push((self.fixed.len(), self.variable.len()));
                self.fixed.extend([0; 4]);
                v.serialize(&mut self.variable)?;
            } else {
                v.serialize(&mut self.fixed)?;
            }
            Ok(())
        }
        pub fn finish(mut self, out: &mut Vec<u8>) -> Result<usize, SerializeError> {
            let base = self.fixed.len();
            let total = base + self.variable.len();
            if total > u32::MAX as usize {
                return Err(SerializeError::MaximumEncodedLengthExceeded(total));
            }
            for (at, off) in self.offsets {
                let o = (base + off) as u32;
                self.fixed[at..at + 4].copy_from_slice(&o.to_le_bytes());
            }
            out.extend(self.fixed);
            out.extend(self.variable);
            Ok(total)
        }
    }

    /// Splits the encoding of a container into the encodings of its fields.
    pub fn split<'a>(
        encoding: &'a [u8],
        layout: &[(bool, usize)],
    ) -> Result<Vec<&'a [u8]>, DeserializeError> {
        let fixed: usize = layout.iter().map(|(v, s)| if *v { 4 } else { *s }).sum();
        if encoding.len() < fixed {
            return Err(DeserializeError::ExpectedFurtherInput {
                provided: encoding.len(),
                expected: fixed,
            });
        }
        let mut out: Vec<&[u8]> = vec![&[]; layout.len()];
        let mut vars = vec![];
        let mut at = 0;
        for (i, (v, s)) in layout.iter().enumerate() {
            if *v {
                let o = u32::from_le_bytes(encoding[at..at + 4].try_into().unwrap()) as usize;
                vars.push((i, o));
                at += 4;
            } else {
                out[i] = &encoding[at..at + s];
                at += s;
            }
        }
        if vars.is_empty() {
            if encoding.len() > fixed {
                return Err(DeserializeError::AdditionalInput {
                    provided: encoding.len(),
                    expected: fixed,
                });
            }
        } else if vars[0].1 != fixed {
            return Err(DeserializeError::InvalidOffsetPoint(vars[0].1));
        }
        for k in 0..vars.len() {
            let (i, start) = vars[k];
            let end = if k + 1 < vars.len() { vars[k + 1].1 } else { encoding.len() };
            if end < start {
                return Err(DeserializeError::OffsetNotMonotone);
            }
            if end > encoding.len() {
                return Err(DeserializeError::InvalidOffsetPoint(end));
            }
            out[i] = &encoding[start..end];
        }
        Ok(out)
    }

    pub fn split_homogeneous<T: super::Sized>(
        encoding: &[u8],
    ) -> Result<Vec<&[u8]>, DeserializeError> {
        if encoding.is_empty() {
            return Ok(vec![]);
        }
        if T::is_variable_size() {
            if encoding.len() < 4 {
                return Err(DeserializeError::ExpectedFurtherInput {
                    provided: encoding.len(),
                    expected: 4,
                });
            }
            let first = u32::from_le_bytes(encoding[..4].try_into().unwrap()) as usize;
            if first % 4 != 0 || first == 0 || first > encoding.len() {
                return Err(DeserializeError::InvalidOffsetPoint(first));
            }
            split(encoding, &vec![(true, 0); first / 4])
        } else {
            let s = T::size_hint();
            if encoding.len() % s != 0 {
                return Err(DeserializeError::AdditionalInput {
                    provided: encoding.len(),
                    expected: encoding.len() - encoding.len() % s,
                });
            }
            Ok(encoding.chunks(s).collect())
        }
    }
}
use __internal::*;

pub fn is_valid_merkle_branch<T: AsRef<[u8]>>(
    leaf: Node,
    branch: &[T],
    depth: usize,
    index: usize,
    root: Node,
) -> Result<(), MerkleizationError> {
    if branch.len() < depth {
        return Err(MerkleizationError::InvalidProof);
    }
    let mut value = leaf.0;
    for (i, node) in branch.iter().take(depth).enumerate() {
        let sib: [u8; 32] =
            node.as_ref().try_into().map_err(|_| MerkleizationError::InvalidProof)?;
        value = if (index >> i) & 1 == 1 { hash_pair(&sib, &value) } else { hash_pair(&value, &sib) };
    }
    if value == root.0 {
        Ok(())
    } else {
        Err(MerkleizationError::InvalidProof)
    }
}

pub mod proofs {
    use super::*;
    pub use super::is_valid_merkle_branch;
    pub fn log_2(x: usize) -> Option<u32> {
        x.checked_ilog2()
    }
    pub fn get_depth(i: GeneralizedIndex) -> Result<usize, MerkleizationError> {
        log_2(i).map(|d| d as usize).ok_or(MerkleizationError::InvalidGeneralizedIndex)
    }
    pub fn get_subtree_index(i: GeneralizedIndex) -> Result<usize, MerkleizationError> {
        let d = get_depth(i)?;
        Ok(i % (1usize << d))
    }
}

// ---------------------------------------------------------------- basic types
macro_rules! uint {
    ($($t:ty),*) => {$(
        impl Sized for $t {
            fn is_variable_size() -> bool { false }
            fn size_hint() -> usize { std::mem::size_of::<$t>() }
        }
        impl Serialize for $t {
            fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
                let e = self.to_le_bytes();
                b.extend(e);
                Ok(e.len())
            }
        }
        impl Deserialize for $t {
            fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
                let n = std::mem::size_of::<$t>();
                if e.len() < n { return Err(DeserializeError::ExpectedFurtherInput { provided: e.len(), expected: n }) }
                if e.len() > n { return Err(DeserializeError::AdditionalInput { provided: e.len(), expected: n }) }
                Ok(<$t>::from_le_bytes(e.try_into().unwrap()))
            }
        }
        impl Serializable for $t {}
        impl HashTreeRoot for $t {
            fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
                let mut o = [0u8; 32];
                let e = self.to_le_bytes();
                o[..e.len()].copy_from_slice(&e);
                Ok(Node(o))
            }
            fn is_basic() -> bool { true }
            fn pack(&self, out: &mut Vec<u8>) -> Result<(), MerkleizationError> { out.extend(self.to_le_bytes()); Ok(()) }
        }
        impl GeneralizedIndexable for $t {}
        impl SimpleSerialize for $t {}
    )*}
}
uint!(u8, u16, u32, u64, u128, usize);

impl Sized for bool {
    fn is_variable_size() -> bool {
        false
    }
    fn size_hint() -> usize {
        1
    }
}
impl Serialize for bool {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        b.push(*self as u8);
        Ok(1)
    }
}
impl Deserialize for bool {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        match e {
            [0] => Ok(false),
            [1] => Ok(true),
            [b] => Err(DeserializeError::InvalidByte(*b)),
            [] => Err(DeserializeError::ExpectedFurtherInput { provided: 0, expected: 1 }),
            _ => Err(DeserializeError::AdditionalInput { provided: e.len(), expected: 1 }),
        }
    }
}
impl Serializable for bool {}
impl HashTreeRoot for bool {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        let mut o = [0u8; 32];
        o[0] = *self as u8;
        Ok(Node(o))
    }
    fn is_basic() -> bool {
        true
    }
    fn pack(&self, out: &mut Vec<u8>) -> Result<(), MerkleizationError> {
        out.push(*self as u8);
        Ok(())
    }
}
impl GeneralizedIndexable for bool {}
impl SimpleSerialize for bool {}

// Node is `Bytes32`
impl Sized for Node {
    fn is_variable_size() -> bool {
        false
    }
    fn size_hint() -> usize {
        32
    }
}
impl Serialize for Node {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        b.extend(self.0);
        Ok(32)
    }
}
impl Deserialize for Node {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        Ok(Node(<[u8; 32]>::deserialize(e)?))
    }
}
impl Serializable for Node {}
impl HashTreeRoot for Node {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        Ok(*self)
    }
}
impl GeneralizedIndexable for Node {}
impl SimpleSerialize for Node {}

// ---------------------------------------------------------------- sequences
fn ser_seq<T: Serialize + Sized>(v: &[T], b: &mut Vec<u8>) -> Result<usize, SerializeError> {
    let mut s = Serializer::default();
    for x in v {
        s.field(x)?;
    }
    s.finish(b)
}
fn de_seq<T: Deserialize + Sized>(
    e: &[u8],
    exact: Option<usize>,
    bound: usize,
) -> Result<Vec<T>, DeserializeError> {
    let parts = split_homogeneous::<T>(e)?;
    if let Some(n) = exact {
        if parts.len() != n {
            return Err(InstanceError::Exact { required: n, provided: parts.len() }.into());
        }
    } else if parts.len() > bound {
        return Err(InstanceError::Bounded { bound, provided: parts.len() }.into());
    }
    parts.into_iter().map(T::deserialize).collect()
}
fn leaves<T: HashTreeRoot>(v: &[T]) -> Result<Vec<[u8; 32]>, MerkleizationError> {
    if T::is_basic() {
        let mut out = vec![];
        for x in v {
            x.pack(&mut out)?;
        }
        Ok(chunks(&out))
    } else {
        v.iter().map(|x| Ok(x.hash_tree_root()?.0)).collect()
    }
}
fn seq_chunk_count<T: HashTreeRoot + Sized>(n: usize) -> usize {
    if T::is_basic() {
        (n * T::size_hint()).div_ceil(32)
    } else {
        n
    }
}
fn seq_gi<T: SimpleSerialize>(
    root: usize,
    n: usize,
    path: Path<'_>,
) -> Result<usize, MerkleizationError> {
    match &path[0] {
        PathElement::Index(i) if *i < n => {
            let pos = if T::is_basic() { i * T::size_hint() / 32 } else { *i };
            let child = root
                .checked_mul(next_pow2(seq_chunk_count::<T>(n)))
                .and_then(|x| x.checked_add(pos))
                .ok_or(MerkleizationError::InvalidPath)?;
            T::compute_generalized_index(child, &path[1..])
        }
        other => Err(MerkleizationError::InvalidPathElement(other.clone())),
    }
}

impl<T: SimpleSerialize, const N: usize> Sized for [T; N] {
    fn is_variable_size() -> bool {
        T::is_variable_size()
    }
    fn size_hint() -> usize {
        if T::is_variable_size() {
            0
        } else {
            N * T::size_hint()
        }
    }
}
impl<T: SimpleSerialize, const N: usize> Serialize for [T; N] {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        ser_seq(self, b)
    }
}
impl<T: SimpleSerialize, const N: usize> Deserialize for [T; N] {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        let v = de_seq::<T>(e, Some(N), N)?;
        Ok(v.try_into().ok().expect("length checked"))
    }
}
impl<T: SimpleSerialize, const N: usize> Serializable for [T; N] {}
impl<T: SimpleSerialize, const N: usize> HashTreeRoot for [T; N] {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        merkleize(leaves(self)?, seq_chunk_count::<T>(N))
    }
}
impl<T: SimpleSerialize, const N: usize> GeneralizedIndexable for [T; N] {
    fn chunk_count() -> usize {
        seq_chunk_count::<T>(N)
    }
    fn compute_generalized_index(parent: usize, path: Path<'_>) -> Result<usize, MerkleizationError> {
        if path.is_empty() {
            return Ok(parent);
        }
        seq_gi::<T>(parent, N, path)
    }
}
impl<T: SimpleSerialize, const N: usize> SimpleSerialize for [T; N] {}

macro_rules! collection {
    ($name:ident) => {
        #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $name<T, const N: usize> {
            data: Vec<T>,
        }
        impl<T: fmt::Debug, const N: usize> fmt::Debug for $name<T, N> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.data.fmt(f)
            }
        }
        impl<T, const N: usize> AsRef<[T]> for $name<T, N> {
            fn as_ref(&self) -> &[T] {
                &self.data
            }
        }
        impl<T, const N: usize> Index<usize> for $name<T, N> {
            type Output = T;
            fn index(&self, i: usize) -> &T {
                &self.data[i]
            }
        }
        impl<'a, T, const N: usize> IntoIterator for &'a $name<T, N> {
            type Item = &'a T;
            type IntoIter = std::slice::Iter<'a, T>;
            fn into_iter(self) -> Self::IntoIter {
                self.data.iter()
            }
        }
        impl<'a, T, const N: usize> IntoIterator for &'a mut $name<T, N> {
            type Item = &'a mut T;
            type IntoIter = std::slice::IterMut<'a, T>;
            fn into_iter(self) -> Self::IntoIter {
                self.data.iter_mut()
            }
        }
        impl<T, const N: usize> IntoIterator for $name<T, N> {
            type Item = T;
            type IntoIter = std::vec::IntoIter<T>;
            fn into_iter(self) -> Self::IntoIter {
                self.data.into_iter()
            }
        }
        impl<T, const N: usize> From<$name<T, N>> for Vec<T> {
            fn from(v: $name<T, N>) -> Self {
                v.data
            }
        }
        impl<T: Clone, const N: usize> TryFrom<&[T]> for $name<T, N> {
            type Error = SimpleSerializeError;
            fn try_from(v: &[T]) -> Result<Self, Self::Error> {
                Self::try_from(v.to_vec()).map_err(|(_, e)| e)
            }
        }
        impl<T: serde::Serialize, const N: usize> serde::Serialize for $name<T, N> {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                serde::Serialize::serialize(&self.data, s)
            }
        }
        impl<'de, T: serde::Deserialize<'de>, const N: usize> serde::Deserialize<'de>
            for $name<T, N>
        {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                let v = <Vec<T> as serde::Deserialize>::deserialize(d)?;
                Self::try_from(v).map_err(|(_, e)| serde::de::Error::custom(e))
            }
        }
    };
}

collection!(List);
collection!(Vector);

impl<T, const N: usize> Default for List<T, N> {
    fn default() -> Self {
        Self { data: vec![] }
    }
}
impl<T, const N: usize> Deref for List<T, N> {
    type Target = Vec<T>;
    fn deref(&self) -> &Vec<T> {
        &self.data
    }
}
impl<T, const N: usize> DerefMut for List<T, N> {
    fn deref_mut(&mut self) -> &mut Vec<T> {
        &mut self.data
    }
}
impl<T, const N: usize> IndexMut<usize> for List<T, N> {
    fn index_mut(&mut self, i: usize) -> &mut T {
        &mut self.data[i]
    }
}
impl<T, const N: usize> TryFrom<Vec<T>> for List<T, N> {
    type Error = (Vec<T>, SimpleSerializeError);
    fn try_from(v: Vec<T>) -> Result<Self, Self::Error> {
        if v.len() > N {
            let e = InstanceError::Bounded { bound: N, provided: v.len() };
            Err((v, e.into()))
        } else {
            Ok(Self { data: v })
        }
    }
}
impl<T: SimpleSerialize, const N: usize> Sized for List<T, N> {
    fn is_variable_size() -> bool {
        true
    }
    fn size_hint() -> usize {
        0
    }
}
impl<T: SimpleSerialize, const N: usize> Serialize for List<T, N> {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        if self.data.len() > N {
            return Err(InstanceError::Bounded { bound: N, provided: self.data.len() }.into());
        }
        ser_seq(&self.data, b)
    }
}
impl<T: SimpleSerialize, const N: usize> Deserialize for List<T, N> {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        Ok(Self { data: de_seq(e, None, N)? })
    }
}
impl<T: SimpleSerialize, const N: usize> Serializable for List<T, N> {}
impl<T: SimpleSerialize, const N: usize> HashTreeRoot for List<T, N> {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        if self.data.len() > N {
            return Err(MerkleizationError::InputExceedsLimit(N));
        }
        Ok(mix_in(merkleize(leaves(&self.data)?, seq_chunk_count::<T>(N))?, self.data.len()))
    }
}
impl<T: SimpleSerialize, const N: usize> GeneralizedIndexable for List<T, N> {
    fn chunk_count() -> usize {
        seq_chunk_count::<T>(N)
    }
    fn compute_generalized_index(parent: usize, path: Path<'_>) -> Result<usize, MerkleizationError> {
        if path.is_empty() {
            return Ok(parent);
        }
        if path[0] == PathElement::Length {
            return if path.len() == 1 {
                Ok(parent * 2 + 1)
            } else {
                Err(MerkleizationError::InvalidPath)
            };
        }
        seq_gi::<T>(parent * 2, N, path)
    }
}
impl<T: SimpleSerialize, const N: usize> SimpleSerialize for List<T, N> {}

impl<T: Default + Clone, const N: usize> Default for Vector<T, N> {
    fn default() -> Self {
        Self { data: vec![T::default(); N] }
    }
}
impl<T, const N: usize> Deref for Vector<T, N> {
    type Target = [T];
    fn deref(&self) -> &[T] {
        &self.data
    }
}
impl<T, const N: usize> DerefMut for Vector<T, N> {
    fn deref_mut(&mut self) -> &mut [T] {
        &mut self.data
    }
}
impl<T, const N: usize> Vector<T, N> {
    pub fn as_slice(&self) -> &[T] {
        &self.data
    }
}
macro_rules! vec_ranges {
    ($($r:ty),*) => {$(
        impl<T, const N: usize> Index<$r> for Vector<T, N> {
            type Output = [T];
            fn index(&self, i: $r) -> &[T] { &self.data[i] }
        }
        impl<T, const N: usize> IndexMut<$r> for Vector<T, N> {
            fn index_mut(&mut self, i: $r) -> &mut [T] { &mut self.data[i] }
        }
        impl<T, const N: usize> Index<$r> for List<T, N> {
            type Output = [T];
            fn index(&self, i: $r) -> &[T] { &self.data[i] }
        }
        impl<T, const N: usize> IndexMut<$r> for List<T, N> {
            fn index_mut(&mut self, i: $r) -> &mut [T] { &mut self.data[i] }
        }
    )*}
}
vec_ranges!(
    std::ops::Range<usize>,
    std::ops::RangeFull,
    std::ops::RangeFrom<usize>,
    std::ops::RangeTo<usize>,
    std::ops::RangeInclusive<usize>,
    std::ops::RangeToInclusive<usize>
);
#[allow(unused)]
fn _assert_slice_index<I: SliceIndex<[u8]>>() {}
impl<T, const N: usize> IndexMut<usize> for Vector<T, N> {
    fn index_mut(&mut self, i: usize) -> &mut T {
        &mut self.data[i]
    }
}
impl<T, const N: usize> TryFrom<Vec<T>> for Vector<T, N> {
    type Error = (Vec<T>, SimpleSerializeError);
    fn try_from(v: Vec<T>) -> Result<Self, Self::Error> {
        if v.len() != N {
            let e = InstanceError::Exact { required: N, provided: v.len() };
            Err((v, e.into()))
        } else {
            Ok(Self { data: v })
        }
    }
}
impl<T: SimpleSerialize, const N: usize> Sized for Vector<T, N> {
    fn is_variable_size() -> bool {
        T::is_variable_size()
    }
    fn size_hint() -> usize {
        if T::is_variable_size() {
            0
        } else {
            N * T::size_hint()
        }
    }
}
impl<T: SimpleSerialize, const N: usize> Serialize for Vector<T, N> {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        ser_seq(&self.data, b)
    }
}
impl<T: SimpleSerialize, const N: usize> Deserialize for Vector<T, N> {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        if !T::is_variable_size() && e.len() != N * T::size_hint() {
            let expected = N * T::size_hint();
            return Err(if e.len() < expected {
                DeserializeError::ExpectedFurtherInput { provided: e.len(), expected }
            } else {
                DeserializeError::AdditionalInput { provided: e.len(), expected }
            });
        }
        Ok(Self { data: de_seq(e, Some(N), N)? })
    }
}
impl<T: SimpleSerialize, const N: usize> Serializable for Vector<T, N> {}
impl<T: SimpleSerialize, const N: usize> HashTreeRoot for Vector<T, N> {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        merkleize(leaves(&self.data)?, seq_chunk_count::<T>(N))
    }
}
impl<T: SimpleSerialize, const N: usize> GeneralizedIndexable for Vector<T, N> {
    fn chunk_count() -> usize {
        seq_chunk_count::<T>(N)
    }
    fn compute_generalized_index(parent: usize, path: Path<'_>) -> Result<usize, MerkleizationError> {
        if path.is_empty() {
            return Ok(parent);
        }
        seq_gi::<T>(parent, N, path)
    }
}
impl<T: SimpleSerialize, const N: usize> SimpleSerialize for Vector<T, N> {}

// ---------------------------------------------------------------- bitfields
macro_rules! bits {
    ($name:ident) => {
        #[derive(Clone, PartialEq, Eq, Hash)]
        pub struct $name<const N: usize>(BitVec<u8, Lsb0>);
        impl<const N: usize> fmt::Debug for $name<N> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "{}[len={}]: ", stringify!($name), self.0.len())?;
                for b in self.0.iter() {
                    write!(f, "{}", *b as u8)?;
                }
                Ok(())
            }
        }
        impl<const N: usize> Deref for $name<N> {
            type Target = BitVec<u8, Lsb0>;
            fn deref(&self) -> &Self::Target {
                &self.0
            }
        }
        impl<const N: usize> DerefMut for $name<N> {
            fn deref_mut(&mut self) -> &mut Self::Target {
                &mut self.0
            }
        }
        impl<const N: usize> serde::Serialize for $name<N> {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                let mut b = vec![];
                Serialize::serialize(self, &mut b).map_err(serde::ser::Error::custom)?;
                s.collect_str(&format!("0x{}", hex::encode(b)))
            }
        }
        impl<'de, const N: usize> serde::Deserialize<'de> for $name<N> {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                let s = <String as serde::Deserialize>::deserialize(d)?;
                let b = hex::decode(s.strip_prefix("0x").unwrap_or(&s))
                    .map_err(serde::de::Error::custom)?;
                <Self as Deserialize>::deserialize(&b).map_err(serde::de::Error::custom)
            }
        }
        impl<const N: usize> Serializable for $name<N> {}
        impl<const N: usize> SimpleSerialize for $name<N> {}
    };
}
bits!(Bitlist);
bits!(Bitvector);

fn bit_bytes(b: &BitVec<u8, Lsb0>) -> Vec<u8> {
    let mut out = vec![0u8; b.len().div_ceil(8)];
    for i in b.iter_ones() {
        out[i / 8] |= 1 << (i % 8);
    }
    out
}

impl<const N: usize> Default for Bitlist<N> {
    fn default() -> Self {
        Self(BitVec::new())
    }
}
impl<const N: usize> Default for Bitvector<N> {
    fn default() -> Self {
        Self(BitVec::repeat(false, N))
    }
}
impl<const N: usize> FromIterator<bool> for Bitlist<N> {
    fn from_iter<I: IntoIterator<Item = bool>>(it: I) -> Self {
        Self(it.into_iter().collect())
    }
}
impl<const N: usize> TryFrom<&[bool]> for Bitlist<N> {
    type Error = InstanceError;
    fn try_from(v: &[bool]) -> Result<Self, InstanceError> {
        if v.len() > N {
            return Err(InstanceError::Bounded { bound: N, provided: v.len() });
        }
        Ok(v.iter().copied().collect())
    }
}
impl<const N: usize> TryFrom<&[bool]> for Bitvector<N> {
    type Error = InstanceError;
    fn try_from(v: &[bool]) -> Result<Self, InstanceError> {
        if v.len() != N {
            return Err(InstanceError::Exact { required: N, provided: v.len() });
        }
        Ok(Self(v.iter().copied().collect()))
    }
}
impl<const N: usize> Sized for Bitlist<N> {
    fn is_variable_size() -> bool {
        true
    }
    fn size_hint() -> usize {
        0
    }
}
impl<const N: usize> Serialize for Bitlist<N> {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        if self.0.len() > N {
            return Err(InstanceError::Bounded { bound: N, provided: self.0.len() }.into());
        }
        let mut e = bit_bytes(&self.0);
        if self.0.len() % 8 == 0 {
            e.push(1);
        } else {
            *e.last_mut().unwrap() |= 1 << (self.0.len() % 8);
        }
        let n = e.len();
        b.extend(e);
        Ok(n)
    }
}
impl<const N: usize> Deserialize for Bitlist<N> {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        let Some(last) = e.last() else {
            return Err(DeserializeError::ExpectedFurtherInput { provided: 0, expected: 1 });
        };
        if *last == 0 {
            return Err(DeserializeError::InvalidByte(0));
        }
        let len = (e.len() - 1) * 8 + last.ilog2() as usize;
        if len > N {
            return Err(InstanceError::Bounded { bound: N, provided: len }.into());
        }
        Ok(Self((0..len).map(|i| e[i / 8] >> (i % 8) & 1 == 1).collect()))
    }
}
impl<const N: usize> HashTreeRoot for Bitlist<N> {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        if self.0.len() > N {
            return Err(MerkleizationError::InputExceedsLimit(N));
        }
        Ok(mix_in(merkleize(chunks(&bit_bytes(&self.0)), N.div_ceil(256))?, self.0.len()))
    }
}
impl<const N: usize> GeneralizedIndexable for Bitlist<N> {
    fn chunk_count() -> usize {
        N.div_ceil(256)
    }
}
impl<const N: usize> Sized for Bitvector<N> {
    fn is_variable_size() -> bool {
        false
    }
    fn size_hint() -> usize {
        N.div_ceil(8)
    }
}
impl<const N: usize> Serialize for Bitvector<N> {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        let e = bit_bytes(&self.0);
        let n = e.len();
        b.extend(e);
        Ok(n)
    }
}
impl<const N: usize> Deserialize for Bitvector<N> {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        let n = N.div_ceil(8);
        if e.len() < n {
            return Err(DeserializeError::ExpectedFurtherInput { provided: e.len(), expected: n });
        }
        if e.len() > n {
            return Err(DeserializeError::AdditionalInput { provided: e.len(), expected: n });
        }
        for i in N..n * 8 {
            if e[i / 8] >> (i % 8) & 1 == 1 {
                return Err(DeserializeError::InvalidByte(e[i / 8]));
            }
        }
        Ok(Self((0..N).map(|i| e[i / 8] >> (i % 8) & 1 == 1).collect()))
    }
}
impl<const N: usize> HashTreeRoot for Bitvector<N> {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        merkleize(chunks(&bit_bytes(&self.0)), N.div_ceil(256))
    }
}
impl<const N: usize> GeneralizedIndexable for Bitvector<N> {
    fn chunk_count() -> usize {
        N.div_ceil(256)
    }
}

// ---------------------------------------------------------------- U256
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct U256([u64; 4]);
impl U256 {
    pub const ZERO: Self = Self([0; 4]);
    pub const MAX: Self = Self([u64::MAX; 4]);
    pub const fn from_le_bytes<const N: usize>(b: [u8; N]) -> Self {
        assert!(N == 32);
        let mut out = [0u64; 4];
        let mut i = 0;
        while i < 32 {
            out[i / 8] |= (b[i] as u64) << (8 * (i % 8));
            i += 1;
        }
        Self(out)
    }
    pub const fn from_be_bytes<const N: usize>(b: [u8; N]) -> Self {
        assert!(N == 32);
        let mut out = [0u64; 4];
        let mut i = 0;
        while i < 32 {
            let j = 31 - i;
            out[j / 8] |= (b[i] as u64) << (8 * (j % 8));
            i += 1;
        }
        Self(out)
    }
    pub const fn from_limbs(l: [u64; 4]) -> Self {
        Self(l)
    }
    pub fn try_from_bytes_le(b: &[u8]) -> Result<Self, DeserializeError> {
        <Self as Deserialize>::deserialize(b)
    }
    pub fn to_le_bytes<const N: usize>(&self) -> [u8; N] {
        assert!(N == 32);
        let mut out = [0u8; N];
        for i in 0..32 {
            out[i] = (self.0[i / 8] >> (8 * (i % 8))) as u8;
        }
        out
    }
    pub fn to_bytes_le(&self) -> Vec<u8> {
        self.to_le_bytes::<32>().to_vec()
    }
    fn mul_add(&self, m: u64, a: u64) -> Option<Self> {
        let mut c = a as u128;
        let mut out = [0u64; 4];
        for i in 0..4 {
            let v = self.0[i] as u128 * m as u128 + c;
            out[i] = v as u64;
            c = v >> 64;
        }
        (c == 0).then_some(Self(out))
    }
}
impl From<u64> for U256 {
    fn from(v: u64) -> Self {
        Self([v, 0, 0, 0])
    }
}
impl PartialOrd for U256 {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for U256 {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.iter().rev().cmp(o.0.iter().rev())
    }
}
impl fmt::Display for U256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut l = self.0;
        let mut digits = vec![];
        loop {
            let mut rem = 0u128;
            for i in (0..4).rev() {
                let cur = (rem << 64) | l[i] as u128;
                l[i] = (cur / 10) as u64;
                rem = cur % 10;
            }
            digits.push(b'0' + rem as u8);
            if l == [0; 4] {
                break;
            }
        }
        digits.reverse();
        f.write_str(std::str::from_utf8(&digits).unwrap())
    }
}
impl fmt::Debug for U256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self}_U256")
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Error)]
#[error("invalid integer")]
pub struct ParseU256Error;
impl FromStr for U256 {
    type Err = ParseU256Error;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        let (radix, s) = if let Some(h) = s.strip_prefix("0x") { (16, h) } else { (10, s) };
        let mut out = Self::ZERO;
        for c in s.chars() {
            if c == '_' {
                continue;
            }
            let d = c.to_digit(radix).ok_or(ParseU256Error)?;
            out = out.mul_add(radix as u64, d as u64).ok_or(ParseU256Error)?;
        }
        Ok(out)
    }
}
impl serde::Serialize for U256 {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let h = hex::encode({
            let mut b = self.to_le_bytes::<32>();
            b.reverse();
            b
        });
        let h = h.trim_start_matches('0');
        s.collect_str(&format!("0x{}", if h.is_empty() { "0" } else { h }))
    }
}
impl<'de> serde::Deserialize<'de> for U256 {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = <String as serde::Deserialize>::deserialize(d)?;
        s.parse().map_err(serde::de::Error::custom)
    }
}
impl Sized for U256 {
    fn is_variable_size() -> bool {
        false
    }
    fn size_hint() -> usize {
        32
    }
}
impl Serialize for U256 {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        b.extend(self.to_le_bytes::<32>());
        Ok(32)
    }
}
impl Deserialize for U256 {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        Ok(Self::from_le_bytes(<[u8; 32]>::deserialize(e)?))
    }
}
impl Serializable for U256 {}
impl HashTreeRoot for U256 {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        Ok(Node(self.to_le_bytes::<32>()))
    }
    fn is_basic() -> bool {
        true
    }
    fn pack(&self, out: &mut Vec<u8>) -> Result<(), MerkleizationError> {
        out.extend(self.to_le_bytes::<32>());
        Ok(())
    }
}
impl GeneralizedIndexable for U256 {}
impl SimpleSerialize for U256 {}

// ---------------------------------------------------------------- entry points
pub fn serialize<T: Serialize>(v: &T) -> Result<Vec<u8>, SerializeError> {
    let mut b = vec![];
    v.serialize(&mut b)?;
    Ok(b)
}
pub fn deserialize<T: Deserialize>(b: &[u8]) -> Result<T, DeserializeError> {
    T::deserialize(b)
}

pub mod prelude {
    pub use crate::{
        deserialize, is_valid_merkle_branch, proofs, serialize, Bitlist, Bitvector, Deserialize,
        DeserializeError, GeneralizedIndex, GeneralizedIndexable, HashTreeRoot, InstanceError,
        List, MerkleizationError, Node, Path, PathElement, Prove, Serializable, Serialize,
        SerializeError, SimpleSerialize, SimpleSerializeError, Sized as SszSized, TypeError,
        Vector, U256,
    };
}
