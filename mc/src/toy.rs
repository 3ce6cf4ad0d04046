//! Tiny prime-order groups and a recording hash, implementing the crate's public
//! `Group` / `CipherSuite` traits, so that the *real* generic protocol code of
//! voprf can be driven through every value of a finite domain.
//!
//! Elements are represented by their discrete logarithm (additive Z_q), with a
//! generator different from 1 so that an element and a scalar never coincide by
//! accident. Every hash (hash-to-group, hash-to-scalar, transcript hash) is an
//! oracle that can be logged and whose answers can be overridden per query, which
//! turns hash outputs into environment choices owned by the explorer.

use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Debug;
use std::hash::Hash as StdHash;
use std::marker::PhantomData;
use std::ops::{Add, Mul, Sub};

use digest::core_api::BlockSizeUser;
use digest::{FixedOutput, HashMarker, OutputSizeUser, Update};
use generic_array::typenum::{IsLess, IsLessOrEqual, Unsigned, U17, U200, U255, U256, U300, U32, U64, U8, U9};
use generic_array::{ArrayLength, GenericArray};
use rand_core::{CryptoRng, RngCore};
use subtle::{Choice, ConstantTimeEq};
use voprf::{CipherSuite, Error, Group, InternalError};
use zeroize::Zeroize;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum QK {
    Group,
    Scalar,
    Hash,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Query {
    pub kind: QK,
    pub dst: Vec<u8>,
    pub input: Vec<u8>,
}

#[derive(Default)]
pub struct Oracle {
    pub log: Option<Vec<Query>>,
    /// queries of the reference model
    pub ref_log: Option<Vec<Query>>,
    pub over: HashMap<Query, u64>,
    /// number of Zeroize::zeroize calls on toy elements / scalars
    pub wipes: u64,
}

thread_local! {
    static ORACLE: RefCell<Oracle> = RefCell::new(Oracle::default());
}

pub fn oracle_reset() {
    ORACLE.with(|o| *o.borrow_mut() = Oracle::default());
}
pub fn oracle_log_on() {
    ORACLE.with(|o| o.borrow_mut().log = Some(vec![]));
}
pub fn oracle_take_log() -> Vec<Query> {
    ORACLE.with(|o| o.borrow_mut().log.take().unwrap_or_default())
}
pub fn ref_log_on() {
    ORACLE.with(|o| o.borrow_mut().ref_log = Some(vec![]));
}
pub fn ref_take_log() -> Vec<Query> {
    ORACLE.with(|o| o.borrow_mut().ref_log.take().unwrap_or_default())
}
pub fn oracle_override(kind: QK, dst: &[u8], input: &[u8], ans: u64) {
    ORACLE.with(|o| {
        o.borrow_mut().over.insert(
            Query {
                kind,
                dst: dst.to_vec(),
                input: input.to_vec(),
            },
            ans,
        )
    });
}

fn mum(a: u64, b: u64) -> u64 {
    let m = (a as u128) * (b as u128);
    (m as u64) ^ ((m >> 64) as u64)
}

/// Fast non-cryptographic 64-bit hash (wyhash-like), used as a random-looking oracle.
pub fn fh(seed: u64, data: &[u8]) -> u64 {
    let mut h = seed ^ 0x9E37_79B9_7F4A_7C15;
    let mut it = data.chunks_exact(8);
    for c in &mut it {
        let w = u64::from_le_bytes(c.try_into().unwrap());
        h = mum(h ^ w ^ 0xA076_1D64_78BD_642F, 0xE703_7ED1_A0B4_28DB).wrapping_add(h.rotate_left(23));
    }
    let r = it.remainder();
    let mut last = [0u8; 8];
    last[..r.len()].copy_from_slice(r);
    h = mum(h ^ u64::from_le_bytes(last), 0x8EBC_6AF0_9C88_C6E3);
    mum(h ^ (data.len() as u64), 0x5899_65CC_7537_4CC3) ^ h
}

fn oracle_query(kind: QK, dst: Vec<u8>, input: Vec<u8>, record: bool) -> u64 {
    ORACLE.with(|o| {
        let mut o = o.borrow_mut();
        let need = o.log.is_some() || o.ref_log.is_some() || !o.over.is_empty();
        let v = fh(fh(kind as u64 + 1, &dst), &input) >> 1;
        if !need {
            return v;
        }
        let q = Query { kind, dst, input };
        let ans = o.over.get(&q).copied();
        if record {
            if let Some(l) = o.log.as_mut() {
                l.push(q);
            }
        } else if let Some(l) = o.ref_log.as_mut() {
            l.push(q);
        }
        ans.unwrap_or(v)
    })
}

fn to_mod(v: u64, q: u64) -> u64 {
    v % q
}

fn cat(parts: &[&[u8]]) -> Vec<u8> {
    parts.concat()
}

/// Reference access to the oracles (never logged).
pub fn ref_h2x(kind: QK, input: &[u8], dst: &[u8], q: u64) -> u64 {
    to_mod(oracle_query(kind, dst.to_vec(), input.to_vec(), false), q)
}

fn expand_out(v: u64, out: &mut [u8]) {
    let mut i = 0u64;
    for ch in out.chunks_mut(8) {
        let w = fh(v ^ 0x51ED_270B, &i.to_be_bytes()).to_be_bytes();
        let n = ch.len();
        ch.copy_from_slice(&w[..n]);
        i += 1;
    }
}

pub fn ref_hash(input: &[u8], len: usize) -> Vec<u8> {
    let v = oracle_query(QK::Hash, vec![], input.to_vec(), false);
    let mut out = vec![0; len];
    expand_out(v, &mut out);
    out
}

/// Recording transcript hash with output size `O` and block size `B`.
pub struct TH<O, B>(Vec<u8>, PhantomData<(O, B)>);
impl<O, B> Clone for TH<O, B> {
    fn clone(&self) -> Self {
        TH(self.0.clone(), PhantomData)
    }
}
impl<O, B> Default for TH<O, B> {
    fn default() -> Self {
        TH(Vec::new(), PhantomData)
    }
}
impl<O, B> HashMarker for TH<O, B> {}
impl<O: ArrayLength<u8> + 'static, B> OutputSizeUser for TH<O, B> {
    type OutputSize = O;
}
impl<O, B: ArrayLength<u8> + 'static> BlockSizeUser for TH<O, B> {
    type BlockSize = B;
}
impl<O, B> Update for TH<O, B> {
    fn update(&mut self, data: &[u8]) {
        self.0.extend_from_slice(data);
    }
}
impl<O: ArrayLength<u8> + 'static, B> FixedOutput for TH<O, B> {
    fn finalize_into(self, out: &mut GenericArray<u8, O>) {
        let v = oracle_query(QK::Hash, vec![], self.0, true);
        expand_out(v, out);
    }
}

pub trait Params:
    'static + Copy + Debug + Eq + Ord + StdHash + Default + Send + Sync
{
    const Q: u64;
    const G: u64;
    const NAME: &'static str;
    type EL: ArrayLength<u8> + 'static;
    type SL: ArrayLength<u8> + 'static;
    const HLEN: usize;
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct TE<P>(pub u64, PhantomData<P>);
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct TS<P>(pub u64, PhantomData<P>);

impl<P: Params> TE<P> {
    pub fn new(v: u64) -> Self {
        assert!(v < P::Q);
        TE(v, PhantomData)
    }
}
impl<P: Params> TS<P> {
    pub fn new(v: u64) -> Self {
        assert!(v < P::Q);
        TS(v, PhantomData)
    }
}

pub fn mulm(a: u64, b: u64, q: u64) -> u64 {
    ((a as u128 * b as u128) % q as u128) as u64
}
pub fn addm(a: u64, b: u64, q: u64) -> u64 {
    ((a as u128 + b as u128) % q as u128) as u64
}
pub fn subm(a: u64, b: u64, q: u64) -> u64 {
    addm(a, q - b % q, q)
}
pub fn invm(a: u64, q: u64) -> u64 {
    let (mut r, mut b, mut e) = (1u64, a % q, q - 2);
    while e > 0 {
        if e & 1 == 1 {
            r = mulm(r, b, q);
        }
        b = mulm(b, b, q);
        e >>= 1;
    }
    r
}

impl<P> ConstantTimeEq for TE<P> {
    fn ct_eq(&self, o: &Self) -> Choice {
        self.0.ct_eq(&o.0)
    }
}
impl<P> ConstantTimeEq for TS<P> {
    fn ct_eq(&self, o: &Self) -> Choice {
        self.0.ct_eq(&o.0)
    }
}
impl<P> Zeroize for TE<P> {
    fn zeroize(&mut self) {
        ORACLE.with(|o| o.borrow_mut().wipes += 1);
        self.0.zeroize()
    }
}
impl<P> Zeroize for TS<P> {
    fn zeroize(&mut self) {
        ORACLE.with(|o| o.borrow_mut().wipes += 1);
        self.0.zeroize()
    }
}
impl<P: Params> Add<&TE<P>> for TE<P> {
    type Output = TE<P>;
    fn add(self, o: &TE<P>) -> TE<P> {
        TE::new(addm(self.0, o.0, P::Q))
    }
}
impl<P: Params> Mul<&TS<P>> for TE<P> {
    type Output = TE<P>;
    fn mul(self, o: &TS<P>) -> TE<P> {
        TE::new(mulm(self.0, o.0, P::Q))
    }
}
impl<P: Params> Add<&TS<P>> for TS<P> {
    type Output = TS<P>;
    fn add(self, o: &TS<P>) -> TS<P> {
        TS::new(addm(self.0, o.0, P::Q))
    }
}
impl<P: Params> Sub<&TS<P>> for TS<P> {
    type Output = TS<P>;
    fn sub(self, o: &TS<P>) -> TS<P> {
        TS::new(subm(self.0, o.0, P::Q))
    }
}
impl<P: Params> Mul<&TS<P>> for TS<P> {
    type Output = TS<P>;
    fn mul(self, o: &TS<P>) -> TS<P> {
        TS::new(mulm(self.0, o.0, P::Q))
    }
}

pub const ETAG: u8 = 0xE5;

pub fn enc_e(v: u64, n: usize) -> Vec<u8> {
    let mut o = vec![0u8; n];
    o[0] = ETAG;
    o[n - 8..].copy_from_slice(&v.to_be_bytes());
    o
}
pub fn enc_s(v: u64, n: usize) -> Vec<u8> {
    let mut o = vec![0u8; n];
    o[n - 8..].copy_from_slice(&v.to_be_bytes());
    o
}
pub fn dec_e(b: &[u8], n: usize, q: u64) -> Option<u64> {
    if b.len() != n || b[0] != ETAG || b[1..n - 8].iter().any(|&x| x != 0) {
        return None;
    }
    let v = u64::from_be_bytes(b[n - 8..].try_into().unwrap());
    (v < q).then_some(v)
}
pub fn dec_s(b: &[u8], n: usize, q: u64) -> Option<u64> {
    if b.len() != n || b[..n - 8].iter().any(|&x| x != 0) {
        return None;
    }
    let v = u64::from_be_bytes(b[n - 8..].try_into().unwrap());
    (v < q).then_some(v)
}

macro_rules! toy {
    ($name:ident, $q:expr, $g:expr, $id:expr, $el:ty, $sl:ty, $ho:ty, $hb:ty) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
        pub struct $name;
        impl Params for $name {
            const Q: u64 = $q;
            const G: u64 = $g;
            const NAME: &'static str = $id;
            type EL = $el;
            type SL = $sl;
            const HLEN: usize = <$ho as Unsigned>::USIZE;
        }
        impl CipherSuite for $name {
            const ID: &'static str = $id;
            type Group = $name;
            type Hash = TH<$ho, $hb>;
        }
        impl Group for $name {
            type Elem = TE<$name>;
            type ElemLen = $el;
            type Scalar = TS<$name>;
            type ScalarLen = $sl;
            fn hash_to_curve<H>(input: &[&[u8]], dst: &[&[u8]]) -> Result<Self::Elem, InternalError>
            where
                H: BlockSizeUser + Default + FixedOutput + HashMarker,
                H::OutputSize: IsLess<U256> + IsLessOrEqual<H::BlockSize>,
            {
                let v = oracle_query(QK::Group, cat(dst), cat(input), true);
                Ok(TE::new(to_mod(v, $q)))
            }
            fn hash_to_scalar<H>(input: &[&[u8]], dst: &[&[u8]]) -> Result<Self::Scalar, InternalError>
            where
                H: BlockSizeUser + Default + FixedOutput + HashMarker,
                H::OutputSize: IsLess<U256> + IsLessOrEqual<H::BlockSize>,
            {
                let v = oracle_query(QK::Scalar, cat(dst), cat(input), true);
                Ok(TS::new(to_mod(v, $q)))
            }
            fn base_elem() -> Self::Elem {
                TE::new($g)
            }
            fn identity_elem() -> Self::Elem {
                TE::new(0)
            }
            fn serialize_elem(elem: Self::Elem) -> GenericArray<u8, $el> {
                GenericArray::clone_from_slice(&enc_e(elem.0, <$el as Unsigned>::USIZE))
            }
            fn deserialize_elem(b: &[u8]) -> Result<Self::Elem, Error> {
                dec_e(b, <$el as Unsigned>::USIZE, $q)
                    .filter(|v| *v != 0)
                    .map(TE::new)
                    .ok_or(Error::Deserialization)
            }
            fn random_scalar<R: RngCore + CryptoRng>(rng: &mut R) -> Self::Scalar {
                loop {
                    let mut b = [0u8; 8];
                    rng.fill_bytes(&mut b);
                    // words below 2^32 are taken literally (and rejected when out of range),
                    // larger ones are reduced so that unscripted streams terminate
                    let w = u64::from_be_bytes(b);
                    let v = if w >> 32 == 0 { w } else { w % $q };
                    if v != 0 && v < $q {
                        return TS::new(v);
                    }
                }
            }
            fn invert_scalar(s: Self::Scalar) -> Self::Scalar {
                assert!(s.0 != 0, "inverse of zero");
                TS::new(invm(s.0, $q))
            }
            fn is_zero_scalar(s: Self::Scalar) -> Choice {
                s.0.ct_eq(&0)
            }
            fn serialize_scalar(s: Self::Scalar) -> GenericArray<u8, $sl> {
                GenericArray::clone_from_slice(&enc_s(s.0, <$sl as Unsigned>::USIZE))
            }
            fn deserialize_scalar(b: &[u8]) -> Result<Self::Scalar, Error> {
                dec_s(b, <$sl as Unsigned>::USIZE, $q)
                    .filter(|v| *v != 0)
                    .map(TS::new)
                    .ok_or(Error::Deserialization)
            }
        }
    };
}

pub const M61: u64 = (1 << 61) - 1;

toy!(T3, 3, 2, "toy3-mix", U9, U8, U32, U64);
toy!(T5, 5, 3, "toy5-mix", U9, U8, U32, U64);
toy!(T7, 7, 3, "toy7-mix", U9, U8, U32, U64);
toy!(T11, 11, 7, "toy11-mix", U9, U8, U32, U64);
toy!(T13, 13, 5, "toy13-mix", U9, U8, U32, U64);
toy!(T61, M61, 0x1234_5678_9ABC, "toy61-mix", U9, U8, U32, U64);
// wide encodings: element encoding longer than 255 bytes, odd scalar and hash sizes
toy!(TW, M61, 0x0FED_CBA9_8765, "toyW-wide", U300, U17, U200, U255);

// the group of T61 under an identifier that extends its identifier
toy!(T61X, M61, 0x1234_5678_9ABC, "toy61-mixX", U9, U8, U32, U64);
// identifier longer than 255 bytes
toy!(TL, M61, 0x1234_5678_9ABC, "toyL-0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef", U9, U8, U32, U64);

/// RNG whose output the explorer decides.
#[derive(Clone)]
pub struct ScriptRng {
    pub data: Vec<u8>,
    pub pos: usize,
    pub calls: Vec<usize>,
    /// after the script: None = panic, Some(seed) = deterministic stream
    pub tail: Option<u64>,
}
impl ScriptRng {
    pub fn script(data: Vec<u8>) -> Self {
        ScriptRng { data, pos: 0, calls: vec![], tail: None }
    }
    pub fn stream(seed: u64) -> Self {
        ScriptRng { data: vec![], pos: 0, calls: vec![], tail: Some(seed) }
    }
    pub fn with_tail(data: Vec<u8>, seed: u64) -> Self {
        ScriptRng { data, pos: 0, calls: vec![], tail: Some(seed) }
    }
    pub fn used(&self) -> usize {
        self.pos
    }
    fn byte(&mut self) -> u8 {
        let p = self.pos;
        self.pos += 1;
        if p < self.data.len() {
            return self.data[p];
        }
        match self.tail {
            Some(s) => {
                let k = (p - self.data.len()) as u64;
                fh(s ^ 0xC0FFEE, &(k / 8).to_be_bytes()).to_be_bytes()[(k % 8) as usize]
            }
            None => panic!("RNG script exhausted after {} bytes (calls {:?})", p, self.calls),
        }
    }
}
impl RngCore for ScriptRng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        self.calls.push(dest.len());
        assert!(self.pos < 64 << 20, "the implementation drew more than 64 MB of randomness");
        for d in dest {
            *d = self.byte();
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for ScriptRng {}
