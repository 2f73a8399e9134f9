//! Stand-in: arrays of any length as serde tuples.
use core::fmt;
use core::marker::PhantomData;

use serde::de::{Deserialize, Deserializer, Error, SeqAccess, Visitor};
use serde::ser::{Serialize, SerializeTuple, Serializer};

pub trait BigArray<'de>: Sized {
    fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error>;
    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error>;
}
impl<'de, T: Serialize + Deserialize<'de>, const N: usize> BigArray<'de> for [T; N] {
    fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
        let mut seq = serializer.serialize_tuple(N)?;
        for elem in self {
            seq.serialize_element(elem)?;
        }
        seq.end()
    }

    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<[T; N], D::Error> {
        struct V<T, const N: usize>(PhantomData<T>);
        impl<'de, T: Deserialize<'de>, const N: usize> Visitor<'de> for V<T, N> {
            type Value = [T; N];

            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "an array of length {N}")
            }

            fn visit_seq<A: SeqAccess<'de>>(self, mut seq: A) -> Result<[T; N], A::Error> {
                let mut v = Vec::with_capacity(N);
                while v.len() < N {
                    v.push(seq.next_element()?.ok_or_else(|| A::Error::invalid_length(v.len(), &self))?);
                }
                Ok(v.try_into().unwrap_or_else(|_| unreachable!()))
            }
        }
        deserializer.deserialize_tuple(N, V::<T, N>(PhantomData))
    }
}
