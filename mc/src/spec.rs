//! Reference model of RFC 9497, written from the RFC text, independent of the
//! voprf crate: byte strings are built by plain concatenation and arithmetic goes
//! straight to the curve crates (or to u64 modular arithmetic for toy groups).

use crate::toy::{self, Params, QK, TE, TS};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Md {
    Oprf,
    Voprf,
    Poprf,
}
pub const MODES: [Md; 3] = [Md::Oprf, Md::Voprf, Md::Poprf];
impl Md {
    pub fn byte(self) -> u8 {
        match self {
            Md::Oprf => 0,
            Md::Voprf => 1,
            Md::Poprf => 2,
        }
    }
    pub fn name(self) -> &'static str {
        ["oprf", "voprf", "poprf"][self.byte() as usize]
    }
}

/// What the RFC says can go wrong, in the crate's vocabulary.
pub type Er = voprf::Error;
pub type R<T> = Result<T, Er>;
pub type B = Vec<u8>;

/// Group, hash and encoding primitives of one ciphersuite.
pub trait Ref: 'static + Sync {
    type E: Copy + PartialEq;
    type S: Copy + PartialEq;
    const ID: &'static str;
    const NE: usize;
    const NS: usize;
    fn h2g(msg: &[u8], dst: &[u8]) -> Self::E;
    fn h2s(msg: &[u8], dst: &[u8]) -> Self::S;
    fn hash(x: &[u8]) -> B;
    fn base() -> Self::E;
    fn id() -> Self::E;
    fn add(a: Self::E, b: Self::E) -> Self::E;
    fn mul(a: Self::E, s: Self::S) -> Self::E;
    fn sadd(a: Self::S, b: Self::S) -> Self::S;
    fn ssub(a: Self::S, b: Self::S) -> Self::S;
    fn smul(a: Self::S, b: Self::S) -> Self::S;
    fn sinv(a: Self::S) -> Self::S;
    fn szero() -> Self::S;
    fn sone() -> Self::S;
    fn ser_e(e: Self::E) -> B;
    fn ser_s(s: Self::S) -> B;
    /// Strict decoding; the identity is representable (all-zero for NIST).
    fn de_e(b: &[u8]) -> Option<Self::E>;
    fn de_s(b: &[u8]) -> Option<Self::S>;
    /// group order, big endian
    fn order() -> B;
    const SCALAR_LE: bool;
}

pub fn i2(n: usize) -> [u8; 2] {
    assert!(n < 65536);
    [(n >> 8) as u8, n as u8]
}
fn cat(p: &[&[u8]]) -> B {
    p.concat()
}
/// RFC 9497 section 3.1: contextString = "OPRFV1-" || I2OSP(mode, 1) || "-" || identifier
pub fn context(id: &str, m: Md) -> B {
    cat(&[b"OPRFV1-", &[m.byte()], b"-", id.as_bytes()])
}

/// The RFC's functions, generic over the primitives.
pub struct Rfc<T>(std::marker::PhantomData<T>);

impl<T: Ref> Rfc<T> {
    pub fn ctx(m: Md) -> B {
        context(T::ID, m)
    }
    pub fn dst(prefix: &[u8], m: Md) -> B {
        cat(&[prefix, &Self::ctx(m)])
    }
    pub fn h2g(x: &[u8], m: Md) -> T::E {
        T::h2g(x, &Self::dst(b"HashToGroup-", m))
    }
    pub fn h2s(x: &[u8], m: Md) -> T::S {
        T::h2s(x, &Self::dst(b"HashToScalar-", m))
    }

    /// 3.2.1 DeriveKeyPair
    pub fn derive(seed: &[u8], info: &[u8], m: Md) -> R<(T::S, T::E)> {
        if info.len() > 65535 {
            return Err(Er::DeriveKeyPair);
        }
        let input = cat(&[seed, &i2(info.len()), info]);
        for counter in 0u16..=255 {
            let sk = T::h2s(&cat(&[&input, &[counter as u8]]), &Self::dst(b"DeriveKeyPair", m));
            if sk != T::szero() {
                return Ok((sk, T::mul(T::base(), sk)));
            }
        }
        Err(Er::Protocol)
    }

    /// 3.3.x Blind
    pub fn blind(input: &[u8], blind: T::S, m: Md) -> R<T::E> {
        if input.len() > 65535 {
            return Err(Er::Input);
        }
        let p = Self::h2g(input, m);
        if p == T::id() {
            return Err(Er::Input);
        }
        Ok(T::mul(p, blind))
    }

    /// H(info) of 3.3.3
    pub fn info_scalar(info: &[u8]) -> R<T::S> {
        if info.len() > 65535 {
            return Err(Er::Info);
        }
        Ok(Self::h2s(&cat(&[b"Info", &i2(info.len()), info]), Md::Poprf))
    }
    pub fn tweak(sk: T::S, info: &[u8]) -> R<T::S> {
        let t = T::sadd(sk, Self::info_scalar(info)?);
        if t == T::szero() {
            return Err(Er::Protocol);
        }
        Ok(t)
    }
    pub fn tweaked_key(pk: T::E, info: &[u8]) -> R<T::E> {
        let t = T::add(pk, T::mul(T::base(), Self::info_scalar(info)?));
        if t == T::id() {
            return Err(Er::Protocol);
        }
        Ok(t)
    }

    /// scalar by which a server multiplies a blinded element
    pub fn eval_scalar(sk: T::S, info: Option<&[u8]>, m: Md) -> R<T::S> {
        match m {
            Md::Poprf => Ok(T::sinv(Self::tweak(sk, info.unwrap_or(b""))?)),
            _ => Ok(sk),
        }
    }

    /// Finalize hash of 3.3.x, over the unblinded element
    pub fn out(input: &[u8], info: Option<&[u8]>, unblinded: T::E, m: Md) -> R<B> {
        if input.len() > 65535 {
            return Err(Er::Input);
        }
        let mut t = cat(&[&i2(input.len()), input]);
        if m == Md::Poprf {
            let info = info.unwrap_or(b"");
            if info.len() > 65535 {
                return Err(Er::Info);
            }
            t.extend(i2(info.len()));
            t.extend(info);
        }
        let e = T::ser_e(unblinded);
        t.extend(i2(e.len()));
        t.extend(e);
        t.extend(b"Finalize");
        Ok(T::hash(&t))
    }

    /// The PRF value F(sk, input, info)
    pub fn evaluate(sk: T::S, input: &[u8], info: Option<&[u8]>, m: Md) -> R<B> {
        if input.len() > 65535 {
            return Err(Er::Input);
        }
        let p = Self::h2g(input, m);
        if p == T::id() {
            return Err(Er::Input);
        }
        let k = Self::eval_scalar(sk, info, m)?;
        Self::out(input, info, T::mul(p, k), m)
    }

    /// 2.2.1 / 2.2.2 weights d_i
    pub fn weights(b: T::E, cs: &[T::E], ds: &[T::E], m: Md) -> Vec<T::S> {
        let bm = T::ser_e(b);
        let seed_dst = Self::dst(b"Seed-", m);
        let seed = T::hash(&cat(&[&i2(bm.len()), &bm, &i2(seed_dst.len()), &seed_dst]));
        (0..cs.len())
            .map(|i| {
                let c = T::ser_e(cs[i]);
                let d = T::ser_e(ds[i]);
                Self::h2s(
                    &cat(&[
                        &i2(seed.len()),
                        &seed,
                        &i2(i),
                        &i2(c.len()),
                        &c,
                        &i2(d.len()),
                        &d,
                        b"Composite",
                    ]),
                    m,
                )
            })
            .collect()
    }
    fn lin(w: &[T::S], xs: &[T::E]) -> T::E {
        let mut r = T::id();
        for (a, x) in w.iter().zip(xs) {
            r = T::add(T::mul(*x, *a), r);
        }
        r
    }
    fn challenge(b: T::E, m_: T::E, z: T::E, t2: T::E, t3: T::E, m: Md) -> T::S {
        let mut t = vec![];
        for e in [b, m_, z, t2, t3] {
            let x = T::ser_e(e);
            t.extend(i2(x.len()));
            t.extend(x);
        }
        t.extend(b"Challenge");
        Self::h2s(&t, m)
    }
    /// 2.2.1 GenerateProof with the given nonce; B = k*A
    pub fn prove(k: T::S, b: T::E, cs: &[T::E], ds: &[T::E], r: T::S, m: Md) -> (T::S, T::S) {
        let w = Self::weights(b, cs, ds, m);
        let m_ = Self::lin(&w, cs);
        let z = T::mul(m_, k);
        let t2 = T::mul(T::base(), r);
        let t3 = T::mul(m_, r);
        let c = Self::challenge(b, m_, z, t2, t3, m);
        (c, T::ssub(r, T::smul(c, k)))
    }
    /// 2.2.2 VerifyProof
    pub fn verify(b: T::E, cs: &[T::E], ds: &[T::E], c: T::S, s: T::S, m: Md) -> bool {
        let w = Self::weights(b, cs, ds, m);
        let m_ = Self::lin(&w, cs);
        let z = Self::lin(&w, ds);
        let t2 = T::add(T::mul(T::base(), s), T::mul(b, c));
        let t3 = T::add(T::mul(m_, s), T::mul(z, c));
        Self::challenge(b, m_, z, t2, t3, m) == c
    }

    /// Server proof for a batch, as 3.3.2 / 3.3.3 direct it.
    pub fn server_prove(sk: T::S, blinded: &[T::E], evals: &[T::E], info: Option<&[u8]>, r: T::S, m: Md) -> R<(T::S, T::S)> {
        if m == Md::Poprf {
            let t = Self::tweak(sk, info.unwrap_or(b""))?;
            Ok(Self::prove(t, T::mul(T::base(), t), evals, blinded, r, m))
        } else {
            Ok(Self::prove(sk, T::mul(T::base(), sk), blinded, evals, r, m))
        }
    }
    pub fn client_verify(pk: T::E, blinded: &[T::E], evals: &[T::E], info: Option<&[u8]>, c: T::S, s: T::S, m: Md) -> R<()> {
        let ok = if m == Md::Poprf {
            let tk = Self::tweaked_key(pk, info.unwrap_or(b""))?;
            Self::verify(tk, evals, blinded, c, s, m)
        } else {
            Self::verify(pk, blinded, evals, c, s, m)
        };
        if ok {
            Ok(())
        } else {
            Err(Er::ProofVerification)
        }
    }
}

/// Byte-level, object-safe view of `Rfc<T>` and `Ref`. Elements and scalars are encodings.
pub trait Spec: Sync {
    fn id(&self) -> &'static str;
    fn ne(&self) -> usize;
    fn ns(&self) -> usize;
    fn order(&self) -> B;
    fn scalar_le(&self) -> bool;
    fn dst(&self, prefix: &[u8], m: Md) -> B;
    fn hash(&self, x: &[u8]) -> B;
    fn h2g(&self, x: &[u8], m: Md) -> B;
    fn h2g_dst(&self, x: &[u8], dst: &[u8]) -> B;
    fn h2s_dst(&self, x: &[u8], dst: &[u8]) -> B;
    fn base(&self) -> B;
    fn identity(&self) -> B;
    fn zero(&self) -> B;
    fn one(&self) -> B;
    /// scalar from a small integer
    fn scalar(&self, v: u64) -> B;
    fn add(&self, a: &[u8], b: &[u8]) -> B;
    fn mul(&self, a: &[u8], s: &[u8]) -> B;
    fn sadd(&self, a: &[u8], b: &[u8]) -> B;
    fn ssub(&self, a: &[u8], b: &[u8]) -> B;
    fn smul(&self, a: &[u8], b: &[u8]) -> B;
    fn sinv(&self, a: &[u8]) -> B;
    fn elem_ok(&self, b: &[u8]) -> bool;
    fn scalar_ok(&self, b: &[u8]) -> bool;
    fn derive(&self, seed: &[u8], info: &[u8], m: Md) -> R<(B, B)>;
    fn blind(&self, input: &[u8], blind: &[u8], m: Md) -> R<B>;
    fn info_scalar(&self, info: &[u8]) -> R<B>;
    fn tweak(&self, sk: &[u8], info: &[u8]) -> R<B>;
    fn tweaked_key(&self, pk: &[u8], info: &[u8]) -> R<B>;
    fn eval_scalar(&self, sk: &[u8], info: Option<&[u8]>, m: Md) -> R<B>;
    fn out(&self, input: &[u8], info: Option<&[u8]>, unblinded: &[u8], m: Md) -> R<B>;
    fn evaluate(&self, sk: &[u8], input: &[u8], info: Option<&[u8]>, m: Md) -> R<B>;
    fn server_prove(&self, sk: &[u8], blinded: &[B], evals: &[B], info: Option<&[u8]>, r: &[u8], m: Md) -> R<B>;
    fn client_verify(&self, pk: &[u8], blinded: &[B], evals: &[B], info: Option<&[u8]>, proof: &[u8], m: Md) -> R<()>;
}

pub struct SpecOf<T>(pub std::marker::PhantomData<T>);
impl<T> SpecOf<T> {
    pub const NEW: Self = SpecOf(std::marker::PhantomData);
}
unsafe impl<T> Sync for SpecOf<T> {}

fn e<T: Ref>(b: &[u8]) -> T::E {
    T::de_e(b).unwrap_or_else(|| panic!("harness: bad element encoding {}", hexs(b)))
}
fn s<T: Ref>(b: &[u8]) -> T::S {
    T::de_s(b).unwrap_or_else(|| panic!("harness: bad scalar encoding {}", hexs(b)))
}
fn es<T: Ref>(b: &[B]) -> Vec<T::E> {
    b.iter().map(|x| e::<T>(x)).collect()
}
pub fn hexs(b: &[u8]) -> String {
    let mut o = String::new();
    for x in b.iter().take(80) {
        o.push_str(&format!("{x:02x}"));
    }
    if b.len() > 80 {
        o.push_str(&format!("..({} bytes)", b.len()));
    }
    o
}

impl<T: Ref> Spec for SpecOf<T> {
    fn id(&self) -> &'static str {
        T::ID
    }
    fn ne(&self) -> usize {
        T::NE
    }
    fn ns(&self) -> usize {
        T::NS
    }
    fn order(&self) -> B {
        T::order()
    }
    fn scalar_le(&self) -> bool {
        T::SCALAR_LE
    }
    fn dst(&self, prefix: &[u8], m: Md) -> B {
        Rfc::<T>::dst(prefix, m)
    }
    fn hash(&self, x: &[u8]) -> B {
        T::hash(x)
    }
    fn h2g(&self, x: &[u8], m: Md) -> B {
        T::ser_e(Rfc::<T>::h2g(x, m))
    }
    fn h2g_dst(&self, x: &[u8], dst: &[u8]) -> B {
        T::ser_e(T::h2g(x, dst))
    }
    fn h2s_dst(&self, x: &[u8], dst: &[u8]) -> B {
        T::ser_s(T::h2s(x, dst))
    }
    fn base(&self) -> B {
        T::ser_e(T::base())
    }
    fn identity(&self) -> B {
        T::ser_e(T::id())
    }
    fn zero(&self) -> B {
        T::ser_s(T::szero())
    }
    fn one(&self) -> B {
        T::ser_s(T::sone())
    }
    fn scalar(&self, v: u64) -> B {
        let mut b = vec![0u8; T::NS];
        let n = T::NS;
        if T::SCALAR_LE {
            b[..8].copy_from_slice(&v.to_le_bytes());
        } else {
            b[n - 8..].copy_from_slice(&v.to_be_bytes());
        }
        b
    }
    fn add(&self, a: &[u8], b: &[u8]) -> B {
        T::ser_e(T::add(e::<T>(a), e::<T>(b)))
    }
    fn mul(&self, a: &[u8], k: &[u8]) -> B {
        T::ser_e(T::mul(e::<T>(a), s::<T>(k)))
    }
    fn sadd(&self, a: &[u8], b: &[u8]) -> B {
        T::ser_s(T::sadd(s::<T>(a), s::<T>(b)))
    }
    fn ssub(&self, a: &[u8], b: &[u8]) -> B {
        T::ser_s(T::ssub(s::<T>(a), s::<T>(b)))
    }
    fn smul(&self, a: &[u8], b: &[u8]) -> B {
        T::ser_s(T::smul(s::<T>(a), s::<T>(b)))
    }
    fn sinv(&self, a: &[u8]) -> B {
        T::ser_s(T::sinv(s::<T>(a)))
    }
    fn elem_ok(&self, b: &[u8]) -> bool {
        T::de_e(b).map(|x| x != T::id()).unwrap_or(false)
    }
    fn scalar_ok(&self, b: &[u8]) -> bool {
        T::de_s(b).map(|x| x != T::szero()).unwrap_or(false)
    }
    fn derive(&self, seed: &[u8], info: &[u8], m: Md) -> R<(B, B)> {
        Rfc::<T>::derive(seed, info, m).map(|(k, p)| (T::ser_s(k), T::ser_e(p)))
    }
    fn blind(&self, input: &[u8], blind: &[u8], m: Md) -> R<B> {
        Rfc::<T>::blind(input, s::<T>(blind), m).map(T::ser_e)
    }
    fn info_scalar(&self, info: &[u8]) -> R<B> {
        Rfc::<T>::info_scalar(info).map(T::ser_s)
    }
    fn tweak(&self, sk: &[u8], info: &[u8]) -> R<B> {
        Rfc::<T>::tweak(s::<T>(sk), info).map(T::ser_s)
    }
    fn tweaked_key(&self, pk: &[u8], info: &[u8]) -> R<B> {
        Rfc::<T>::tweaked_key(e::<T>(pk), info).map(T::ser_e)
    }
    fn eval_scalar(&self, sk: &[u8], info: Option<&[u8]>, m: Md) -> R<B> {
        Rfc::<T>::eval_scalar(s::<T>(sk), info, m).map(T::ser_s)
    }
    fn out(&self, input: &[u8], info: Option<&[u8]>, u: &[u8], m: Md) -> R<B> {
        Rfc::<T>::out(input, info, e::<T>(u), m)
    }
    fn evaluate(&self, sk: &[u8], input: &[u8], info: Option<&[u8]>, m: Md) -> R<B> {
        Rfc::<T>::evaluate(s::<T>(sk), input, info, m)
    }
    fn server_prove(&self, sk: &[u8], bl: &[B], ev: &[B], info: Option<&[u8]>, r: &[u8], m: Md) -> R<B> {
        Rfc::<T>::server_prove(s::<T>(sk), &es::<T>(bl), &es::<T>(ev), info, s::<T>(r), m)
            .map(|(c, z)| [T::ser_s(c), T::ser_s(z)].concat())
    }
    fn client_verify(&self, pk: &[u8], bl: &[B], ev: &[B], info: Option<&[u8]>, proof: &[u8], m: Md) -> R<()> {
        let (c, z) = proof.split_at(T::NS);
        Rfc::<T>::client_verify(e::<T>(pk), &es::<T>(bl), &es::<T>(ev), info, s::<T>(c), s::<T>(z), m)
    }
}

// ---------------------------------------------------------------- toy groups

pub struct ToyRef<P>(std::marker::PhantomData<P>);
impl<P: Params> Ref for ToyRef<P> {
    type E = TE<P>;
    type S = TS<P>;
    const ID: &'static str = P::NAME;
    const NE: usize = <P::EL as generic_array::typenum::Unsigned>::USIZE;
    const NS: usize = <P::SL as generic_array::typenum::Unsigned>::USIZE;
    fn h2g(msg: &[u8], dst: &[u8]) -> TE<P> {
        TE::new(toy::ref_h2x(QK::Group, msg, dst, P::Q))
    }
    fn h2s(msg: &[u8], dst: &[u8]) -> TS<P> {
        TS::new(toy::ref_h2x(QK::Scalar, msg, dst, P::Q))
    }
    fn hash(x: &[u8]) -> B {
        toy::ref_hash(x, P::HLEN)
    }
    fn base() -> TE<P> {
        TE::new(P::G)
    }
    fn id() -> TE<P> {
        TE::new(0)
    }
    fn add(a: TE<P>, b: TE<P>) -> TE<P> {
        TE::new(toy::addm(a.0, b.0, P::Q))
    }
    fn mul(a: TE<P>, k: TS<P>) -> TE<P> {
        TE::new(toy::mulm(a.0, k.0, P::Q))
    }
    fn sadd(a: TS<P>, b: TS<P>) -> TS<P> {
        TS::new(toy::addm(a.0, b.0, P::Q))
    }
    fn ssub(a: TS<P>, b: TS<P>) -> TS<P> {
        TS::new(toy::subm(a.0, b.0, P::Q))
    }
    fn smul(a: TS<P>, b: TS<P>) -> TS<P> {
        TS::new(toy::mulm(a.0, b.0, P::Q))
    }
    fn sinv(a: TS<P>) -> TS<P> {
        TS::new(toy::invm(a.0, P::Q))
    }
    fn szero() -> TS<P> {
        TS::new(0)
    }
    fn sone() -> TS<P> {
        TS::new(1)
    }
    fn ser_e(x: TE<P>) -> B {
        toy::enc_e(x.0, Self::NE)
    }
    fn ser_s(x: TS<P>) -> B {
        toy::enc_s(x.0, Self::NS)
    }
    fn de_e(b: &[u8]) -> Option<TE<P>> {
        toy::dec_e(b, Self::NE, P::Q).map(TE::new)
    }
    fn de_s(b: &[u8]) -> Option<TS<P>> {
        toy::dec_s(b, Self::NS, P::Q).map(TS::new)
    }
    fn order() -> B {
        toy::enc_s(P::Q, Self::NS)
    }
    const SCALAR_LE: bool = false;
}

// ------------------------------------------------------------- shipped suites

/// expand_message_xmd (RFC 9380 section 5.3.1) for any `sha2` hash.
pub fn xmd<D: digest::Digest + digest::core_api::BlockSizeUser>(msg: &[u8], dst: &[u8], len: usize) -> B {
    // RFC 9380 section 5.3.3
    let long;
    let dst = if dst.len() > 255 {
        long = D::digest(cat(&[b"H2C-OVERSIZE-DST-", dst])).to_vec();
        &long
    } else {
        dst
    };
    let b_in = <D as digest::Digest>::output_size();
    let ell = len.div_ceil(b_in);
    let dst_prime = cat(&[dst, &[dst.len() as u8]]);
    let z_pad = vec![0u8; D::block_size()];
    let h = |x: &[u8]| -> B { D::digest(x).to_vec() };
    let b0 = h(&cat(&[&z_pad, msg, &i2(len), &[0], &dst_prime]));
    let mut bi = h(&cat(&[&b0, &[1], &dst_prime]));
    let mut out = bi.clone();
    for i in 2..=ell {
        let x: B = b0.iter().zip(&bi).map(|(a, b)| a ^ b).collect();
        bi = h(&cat(&[&x, &[i as u8], &dst_prime]));
        out.extend(&bi);
    }
    out.truncate(len);
    out
}

fn unhex(h: &str) -> B {
    (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()
}

macro_rules! rist {
    ($name:ident, $hash:ty, $id:expr) => {
        pub struct $name;
        impl Ref for $name {
            type E = curve25519_dalek::RistrettoPoint;
            type S = curve25519_dalek::Scalar;
            const ID: &'static str = $id;
            const NE: usize = 32;
            const NS: usize = 32;
            fn h2g(msg: &[u8], dst: &[u8]) -> Self::E {
                let u: [u8; 64] = xmd::<$hash>(msg, dst, 64).try_into().unwrap();
                Self::E::from_uniform_bytes(&u)
            }
            fn h2s(msg: &[u8], dst: &[u8]) -> Self::S {
                let u: [u8; 64] = xmd::<$hash>(msg, dst, 64).try_into().unwrap();
                Self::S::from_bytes_mod_order_wide(&u)
            }
            fn hash(x: &[u8]) -> B {
                use sha2::Digest;
                <$hash>::digest(x).to_vec()
            }
            fn base() -> Self::E {
                curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT
            }
            fn id() -> Self::E {
                use curve25519_dalek::traits::Identity;
                Self::E::identity()
            }
            fn add(a: Self::E, b: Self::E) -> Self::E {
                a + b
            }
            fn mul(a: Self::E, k: Self::S) -> Self::E {
                a * k
            }
            fn sadd(a: Self::S, b: Self::S) -> Self::S {
                a + b
            }
            fn ssub(a: Self::S, b: Self::S) -> Self::S {
                a - b
            }
            fn smul(a: Self::S, b: Self::S) -> Self::S {
                a * b
            }
            fn sinv(a: Self::S) -> Self::S {
                a.invert()
            }
            fn szero() -> Self::S {
                Self::S::ZERO
            }
            fn sone() -> Self::S {
                Self::S::ONE
            }
            fn ser_e(x: Self::E) -> B {
                x.compress().to_bytes().to_vec()
            }
            fn ser_s(x: Self::S) -> B {
                x.to_bytes().to_vec()
            }
            fn de_e(b: &[u8]) -> Option<Self::E> {
                let c: [u8; 32] = b.try_into().ok()?;
                let p = curve25519_dalek::ristretto::CompressedRistretto(c).decompress()?;
                (Self::ser_e(p) == b).then_some(p)
            }
            fn de_s(b: &[u8]) -> Option<Self::S> {
                let c: [u8; 32] = b.try_into().ok()?;
                let x: Option<Self::S> = Self::S::from_canonical_bytes(c).into();
                x.filter(|x| Self::ser_s(*x) == b)
            }
            fn order() -> B {
                unhex("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed")
            }
            const SCALAR_LE: bool = true;
        }
    };
}
rist!(RistRef, sha2::Sha512, "ristretto255-SHA512");
// the shipped groups in suites of their users, with another hash
rist!(RistMixRef, sha2::Sha256, "mixed-ristretto255-SHA256");

macro_rules! nist {
    ($name:ident, $krate:ident, $curve:ident, $hash:ty, $id:expr, $n:expr, $order:expr) => {
        pub struct $name;
        impl Ref for $name {
            type E = $krate::ProjectivePoint;
            type S = $krate::Scalar;
            const ID: &'static str = $id;
            const NE: usize = $n + 1;
            const NS: usize = $n;
            fn h2g(msg: &[u8], dst: &[u8]) -> Self::E {
                use elliptic_curve::hash2curve::{FromOkm, GroupDigest, MapToCurve};
                // RFC 9380 section 3: hash_to_field (count 2), map_to_curve, sum; cofactor 1
                type F = <$krate::$curve as GroupDigest>::FieldElement;
                let n = <<F as FromOkm>::Length as generic_array::typenum::Unsigned>::USIZE;
                let okm = xmd::<$hash>(msg, dst, 2 * n);
                let f = |b: &[u8]| <F as FromOkm>::from_okm(generic_array::GenericArray::from_slice(b)).map_to_curve();
                f(&okm[..n]) + f(&okm[n..])
            }
            fn h2s(msg: &[u8], dst: &[u8]) -> Self::S {
                use elliptic_curve::hash2curve::FromOkm;
                type L = <$krate::Scalar as FromOkm>::Length;
                let n = <L as generic_array::typenum::Unsigned>::USIZE;
                let okm = xmd::<$hash>(msg, dst, n);
                <$krate::Scalar as FromOkm>::from_okm(generic_array::GenericArray::from_slice(&okm))
            }
            fn hash(x: &[u8]) -> B {
                use sha2::Digest;
                <$hash>::digest(x).to_vec()
            }
            fn base() -> Self::E {
                $krate::ProjectivePoint::GENERATOR
            }
            fn id() -> Self::E {
                $krate::ProjectivePoint::IDENTITY
            }
            fn add(a: Self::E, b: Self::E) -> Self::E {
                a + b
            }
            fn mul(a: Self::E, k: Self::S) -> Self::E {
                a * k
            }
            fn sadd(a: Self::S, b: Self::S) -> Self::S {
                a + b
            }
            fn ssub(a: Self::S, b: Self::S) -> Self::S {
                a - b
            }
            fn smul(a: Self::S, b: Self::S) -> Self::S {
                a * b
            }
            fn sinv(a: Self::S) -> Self::S {
                a.invert().unwrap()
            }
            fn szero() -> Self::S {
                $krate::Scalar::ZERO
            }
            fn sone() -> Self::S {
                $krate::Scalar::ONE
            }
            fn ser_e(x: Self::E) -> B {
                use elliptic_curve::sec1::ToEncodedPoint;
                let p = x.to_affine().to_encoded_point(true);
                let mut b = p.as_bytes().to_vec();
                b.resize($n + 1, 0);
                b
            }
            fn ser_s(x: Self::S) -> B {
                use elliptic_curve::PrimeField;
                let r = x.to_repr();
                let s: &[u8] = r.as_ref();
                s.to_vec()
            }
            fn de_e(b: &[u8]) -> Option<Self::E> {
                use elliptic_curve::sec1::FromEncodedPoint;
                if b.len() != $n + 1 {
                    return None;
                }
                if b.iter().all(|&x| x == 0) {
                    return Some(Self::id());
                }
                if b[0] != 2 && b[0] != 3 {
                    return None;
                }
                let p = $krate::EncodedPoint::from_bytes(b).ok()?;
                let a: Option<$krate::AffinePoint> = $krate::AffinePoint::from_encoded_point(&p).into();
                a.map(Into::into).filter(|x| Self::ser_e(*x) == b)
            }
            fn de_s(b: &[u8]) -> Option<Self::S> {
                use elliptic_curve::PrimeField;
                if b.len() != $n {
                    return None;
                }
                if b >= Self::order().as_slice() {
                    return None;
                }
                let x: Option<Self::S> = $krate::Scalar::from_repr(*$krate::FieldBytes::from_slice(b)).into();
                x.filter(|x| Self::ser_s(*x) == b)
            }
            fn order() -> B {
                unhex($order)
            }
            const SCALAR_LE: bool = false;
        }
    };
}
nist!(P256Ref, p256, NistP256, sha2::Sha256, "P256-SHA256", 32,
    "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551");
nist!(P384Ref, p384, NistP384, sha2::Sha384, "P384-SHA384", 48,
    "ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973");
nist!(P521Ref, p521, NistP521, sha2::Sha512, "P521-SHA512", 66,
    "01fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409");
nist!(P256MixRef, p256, NistP256, sha2::Sha512, "mixed-P256-SHA512", 32,
    "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551");
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct RistMix;
impl voprf::CipherSuite for RistMix {
    const ID: &'static str = "mixed-ristretto255-SHA256";
    type Group = voprf::Ristretto255;
    type Hash = sha2::Sha256;
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct P256Mix;
impl voprf::CipherSuite for P256Mix {
    const ID: &'static str = "mixed-P256-SHA512";
    type Group = p256::NistP256;
    type Hash = sha2::Sha512;
}
