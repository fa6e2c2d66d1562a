//! Offline stand-in: deterministic ECDSA nonces are not used by this project.
use crypto_bigint::{ArrayEncoding, ByteArray, Integer};
use hmac::digest::{core_api::BlockSizeUser, Digest, FixedOutput, FixedOutputReset};
use zeroize::{Zeroize, Zeroizing};

pub fn generate_k<D, I>(_x: &I, _n: &I, _h: &ByteArray<I>, _data: &[u8]) -> Zeroizing<I>
where
    D: Digest + BlockSizeUser + FixedOutput<OutputSize = I::ByteSize> + FixedOutputReset,
    I: ArrayEncoding + Integer + Zeroize,
{
    unimplemented!("offline stand-in")
}
