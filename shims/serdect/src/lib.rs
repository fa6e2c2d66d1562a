//! Offline stand-in for serdect 0.1 (binary formats: a length-prefixed byte
//! sequence; human-readable formats: upper-case hex).
extern crate alloc;
pub use serde;

fn hex_upper(b: &[u8]) -> alloc::string::String {
    b.iter().map(|x| alloc::format!("{:02X}", x)).collect()
}

fn unhex<E: serde::de::Error>(s: &str) -> Result<alloc::vec::Vec<u8>, E> {
    if s.len() % 2 != 0 {
        return Err(E::custom("odd hex length"));
    }
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).map_err(E::custom))
        .collect()
}

pub mod slice {
    use super::*;
    use serde::{Deserialize, Deserializer, Serialize, Serializer};

    pub fn serialize_hex_upper_or_bin<S, T>(value: &T, serializer: S) -> Result<S::Ok, S::Error>
    where
        S: Serializer,
        T: AsRef<[u8]>,
    {
        if serializer.is_human_readable() {
            hex_upper(value.as_ref()).serialize(serializer)
        } else {
            value.as_ref().serialize(serializer)
        }
    }

    pub fn deserialize_hex_or_bin_vec<'de, D>(
        deserializer: D,
    ) -> Result<alloc::vec::Vec<u8>, D::Error>
    where
        D: Deserializer<'de>,
    {
        if deserializer.is_human_readable() {
            let s = <alloc::string::String as Deserialize>::deserialize(deserializer)?;
            unhex(&s)
        } else {
            <alloc::vec::Vec<u8> as Deserialize>::deserialize(deserializer)
        }
    }
}

pub mod array {
    use super::*;
    use serde::{de::Error, Deserializer, Serializer};

    pub fn serialize_hex_upper_or_bin<S, T>(value: &T, serializer: S) -> Result<S::Ok, S::Error>
    where
        S: Serializer,
        T: AsRef<[u8]>,
    {
        super::slice::serialize_hex_upper_or_bin(value, serializer)
    }

    pub fn deserialize_hex_or_bin<'de, D>(buffer: &mut [u8], deserializer: D) -> Result<(), D::Error>
    where
        D: Deserializer<'de>,
    {
        let v = super::slice::deserialize_hex_or_bin_vec(deserializer)?;
        if v.len() != buffer.len() {
            return Err(D::Error::invalid_length(v.len(), &"fixed length"));
        }
        buffer.copy_from_slice(&v);
        Ok(())
    }
}
