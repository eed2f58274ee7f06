// Fixtures shared by the workloads: tiny Paillier parameters, scripted byte sources, serde helpers.
use std::boxed::Box;
use std::format;
use std::prelude::rust_2021::*;
use std::string::{String, ToString};
use std::vec;
use std::vec::Vec;

use super::bigref::*;
use super::common::*;
use crate::paillier::*;
use crate::tools::hashing::{Chain, Hasher};
use crate::uint::*;
use serde::{de::DeserializeOwned, Serialize};

macro_rules! tiny_params {
    ($name:ident, $bits:expr, $h:expr) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub struct $name;
        impl PaillierParams for $name {
            const PRIME_BITS: u32 = $bits;
            type HalfUint = crypto_bigint::Uint<$h>;
            type Uint = crypto_bigint::Uint<{ 2 * $h }>;
            type WideUint = crypto_bigint::Uint<{ 4 * $h }>;
        }
    };
}
// Self-consistent parameter sets far smaller than any shipped one: allow exhaustive enumeration.
tiny_params!(Tiny8, 8, 1);
tiny_params!(Tiny12, 12, 1);
tiny_params!(Tiny16, 16, 1);
tiny_params!(Tiny32, 32, 1);
tiny_params!(Full64, 64, 1);
tiny_params!(Mid256, 256, 4);

/// An XOF whose output is a script followed by a keystream.
#[derive(Clone)]
pub struct FakeXof {
    pub script: Vec<u8>,
    pub pos: usize,
    pub rng: Rng,
}
impl FakeXof {
    pub fn new(script: Vec<u8>, seed: u64) -> Self {
        FakeXof { script, pos: 0, rng: rng_for("xof", seed) }
    }
}
impl digest::XofReader for FakeXof {
    fn read(&mut self, buf: &mut [u8]) {
        for b in buf {
            *b = if self.pos < self.script.len() {
                self.script[self.pos]
            } else {
                let mut x = [0u8; 1];
                self.rng.fill_bytes(&mut x);
                x[0]
            };
            self.pos += 1;
        }
    }
}

/// An RNG that starts with scripted bytes, then continues pseudo-randomly.
pub struct ScriptRng {
    pub script: Vec<u8>,
    pub pos: usize,
    pub rng: Rng,
}
impl ScriptRng {
    pub fn new(script: Vec<u8>, rng: Rng) -> Self {
        ScriptRng { script, pos: 0, rng }
    }
}
impl RngCore for ScriptRng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for d in dest {
            if self.pos < self.script.len() {
                *d = self.script[self.pos];
                self.pos += 1;
            } else {
                let mut x = [0u8; 1];
                self.rng.fill_bytes(&mut x);
                *d = x[0];
            }
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for ScriptRng {}

/// Value of any integer type of the library.
pub fn bn<T: BoxedEncoding>(x: &T) -> Nat {
    Nat::from_be(&x.to_be_bytes())
}
/// The integer type's value for a natural number; panics if it does not fit.
pub fn nb<T: BoxedEncoding + crypto_bigint::Bounded>(n: &Nat) -> T {
    T::try_from_be_bytes(&n.to_be_padded(T::BYTES)).expect("length")
}
pub fn sval<T>(x: &SecretSigned<T>) -> Int
where
    T: BoxedEncoding + crypto_bigint::Integer + crypto_bigint::Bounded + zeroize::Zeroize + crypto_bigint::subtle::ConditionallySelectable,
{
    Int::new(x.is_negative().into(), bn(x.abs_value().expose_secret()))
}
pub fn pval<T>(x: &PublicSigned<T>) -> Int
where
    T: BoxedEncoding + crypto_bigint::Integer + crypto_bigint::Bounded,
{
    Int::new(x.is_negative(), bn(&x.abs()))
}
pub fn twos<T: BoxedEncoding + crypto_bigint::Bounded>(i: &Int) -> T {
    let n = if i.neg { Nat::pow2(T::BITS).sub(&i.mag) } else { i.mag.clone() };
    nb(&n)
}
pub fn mk_secret<T>(v: &Int, bound: u32) -> SecretSigned<T>
where
    T: BoxedEncoding + crypto_bigint::Integer + crypto_bigint::Bounded + zeroize::Zeroize + crypto_bigint::subtle::ConditionallySelectable,
{
    Option::from(SecretSigned::new_from_unsigned(crate::tools::Secret::init_with(|| twos::<T>(v)), bound)).expect("in bound")
}
pub fn mk_public<T>(v: &Int, bound: u32) -> PublicSigned<T>
where
    T: BoxedEncoding + crypto_bigint::Integer + crypto_bigint::Bounded,
{
    PublicSigned::new_from_unsigned(twos::<T>(v), bound).expect("in bound")
}

pub fn to_json<T: Serialize>(x: &T) -> serde_json::Value {
    serde_json::to_value(x).expect("serializes")
}
pub fn from_json<T: DeserializeOwned>(v: &serde_json::Value) -> Result<T, String> {
    T::deserialize(v).map_err(|e| e.to_string())
}
pub fn to_cbor<T: Serialize>(x: &T) -> Vec<u8> {
    let mut out: Vec<u8> = vec![];
    ciborium::into_writer(x, &mut out).expect("serializes");
    out
}
pub fn from_cbor<T: DeserializeOwned>(b: &[u8]) -> Result<T, String> {
    ciborium::from_reader(b).map_err(|e| format!("{:?}", e))
}

/// Hex string the library's serde uses for big integers.
pub fn hex0x(b: &[u8]) -> String {
    format!("0x{}", hexs(b))
}
pub fn unhex(s: &str) -> Vec<u8> {
    let s = s.strip_prefix("0x").unwrap_or(s);
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// The primes of a Paillier key (read through its wire form).
pub fn primes_of<P: PaillierParams>(sk: &SecretKeyPaillierWire<P>) -> (Nat, Nat) {
    let j = to_json(sk);
    let get = |k: &str| Nat::from_be(&unhex(j["primes"][k].as_str().unwrap()));
    (get("p"), get("q"))
}
/// A Paillier key made of given primes.
pub fn sk_from_primes<P: PaillierParams>(p: &Nat, q: &Nat) -> Result<SecretKeyPaillierWire<P>, String> {
    let n = <P::HalfUint as crypto_bigint::Bounded>::BYTES;
    from_json(&serde_json::json!({"primes": {"p": hex0x(&p.to_be_padded(n)), "q": hex0x(&q.to_be_padded(n))}}))
}
pub fn rp_wire<P: PaillierParams>(n: &Nat, t: &Nat, s: &Nat) -> RPParamsWire<P> {
    let l = <P::Uint as crypto_bigint::Bounded>::BYTES;
    let h = |x: &Nat| hex0x(&x.to_be_padded(l));
    from_json(&serde_json::json!({"modulus": h(n), "base_randomizer": h(t), "base_value": h(s)})).expect("well-formed")
}

/// The curve order as the backend declares it.
pub fn order_of<P: crate::params::SchemeParams>() -> Nat {
    use elliptic_curve::bigint::Encoding;
    Nat::from_be(<<P as crate::params::SchemeParams>::Curve as elliptic_curve::Curve>::ORDER.to_be_bytes().as_ref())
}

