//! Object-safe facade over the public API of the voprf crate, instantiated per
//! ciphersuite. Kernels are written once against `dyn Api`; every method is a thin
//! call into the real implementation in /repo.

use std::any::Any;

use crate::spec::{Md, Spec, B, R};
use crate::toy::ScriptRng;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    OprfClient,
    VoprfClient,
    PoprfClient,
    OprfServer,
    VoprfServer,
    PoprfServer,
    Blinded,
    Eval,
    Proof,
    Prepared,
    Tweak,
}
use Kind::*;
pub const WIRE_KINDS: [Kind; 9] = [
    OprfClient, VoprfClient, PoprfClient, OprfServer, VoprfServer, PoprfServer, Blinded, Eval, Proof,
];
pub const ALL_KINDS: [Kind; 11] = [
    OprfClient, VoprfClient, PoprfClient, OprfServer, VoprfServer, PoprfServer, Blinded, Eval, Proof, Prepared, Tweak,
];
pub fn client_kind(m: Md) -> Kind {
    [OprfClient, VoprfClient, PoprfClient][m.byte() as usize]
}
pub fn server_kind(m: Md) -> Kind {
    [OprfServer, VoprfServer, PoprfServer][m.byte() as usize]
}
impl Kind {
    pub fn name(self) -> &'static str {
        match self {
            OprfClient => "OprfClient",
            VoprfClient => "VoprfClient",
            PoprfClient => "PoprfClient",
            OprfServer => "OprfServer",
            VoprfServer => "VoprfServer",
            PoprfServer => "PoprfServer",
            Blinded => "BlindedElement",
            Eval => "EvaluationElement",
            Proof => "Proof",
            Prepared => "PreparedEvaluationElement",
            Tweak => "PoprfPreparedTweak",
        }
    }
    /// true = element, false = scalar, in encoding order
    pub fn layout(self) -> &'static [bool] {
        match self {
            OprfClient | OprfServer | Tweak => &[false],
            VoprfClient | PoprfClient | VoprfServer | PoprfServer => &[false, true],
            Blinded | Eval | Prepared => &[true],
            Proof => &[false, false],
        }
    }
    pub fn len(self, s: &dyn Spec) -> usize {
        self.layout().iter().map(|e| if *e { s.ne() } else { s.ns() }).sum()
    }
}

pub struct Obj {
    pub kind: Kind,
    pub any: Box<dyn Any>,
}

/// Collection type through which a batch is handed to the API.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Coll {
    Vec,
    Deque,
    List,
}
pub const COLLS: [Coll; 3] = [Coll::Vec, Coll::Deque, Coll::List];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Fmt {
    Json,
    JsonValue,
    Bincode,
    Cbor,
}
pub const FMTS: [Fmt; 4] = [Fmt::Json, Fmt::JsonValue, Fmt::Bincode, Fmt::Cbor];

/// How the batch result iterator is drained.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Drain {
    All,
    /// one by one, interleaved with size_hint checks
    Step,
    /// take k, drop the rest
    Prefix(usize),
    /// nth(k) only
    Nth(usize),
}

pub struct Batch {
    pub msgs: Vec<Obj>,
    pub proof: Obj,
}

/// One client-side batch.
pub struct FinJob<'a> {
    pub inputs: &'a [B],
    pub clients: Vec<&'a Obj>,
    pub evals: Vec<&'a Obj>,
    pub proof: &'a Obj,
    pub pk: &'a [u8],
    pub info: Option<&'a [u8]>,
}

pub fn inter<T>(mut i: impl Iterator<Item = T>, mut j: impl Iterator<Item = T>, sched: &[bool]) -> [Vec<T>; 2] {
    let (mut a, mut b) = (vec![], vec![]);
    for s in sched {
        if *s {
            b.extend(j.next());
        } else {
            a.extend(i.next());
        }
    }
    a.extend(i);
    b.extend(j);
    [a, b]
}

pub trait Api: Sync {
    fn spec(&self) -> &'static dyn Spec;
    fn toy_q(&self) -> Option<u64>;
    fn name(&self) -> &'static str {
        let i = self.spec().id();
        &i[..i.len().min(24)]
    }

    fn de(&self, k: Kind, b: &[u8]) -> R<Obj>;
    fn ser(&self, o: &Obj) -> B;
    fn dup(&self, o: &Obj) -> Obj;
    fn same(&self, a: &Obj, b: &Obj) -> bool;
    fn cmp(&self, a: &Obj, b: &Obj) -> Option<std::cmp::Ordering>;
    fn hash64(&self, a: &Obj) -> Option<u64>;
    fn debug(&self, a: &Obj) -> String;
    fn serde_ser(&self, o: &Obj, f: Fmt) -> Result<B, String>;
    fn serde_de(&self, k: Kind, b: &[u8], f: Fmt) -> Result<Obj, String>;
    /// Drops a clone of the object in place and reports (memory before, memory after).
    fn wipe_image(&self, o: &Obj) -> (B, B);

    fn raw_blinded(&self, e: &[u8]) -> Obj;
    fn raw_eval(&self, e: &[u8]) -> Obj;
    fn value(&self, o: &Obj) -> B;

    fn derive_key(&self, seed: &[u8], info: &[u8], m: Md) -> R<B>;
    fn server_new(&self, m: Md, rng: &mut ScriptRng) -> R<Obj>;
    fn server_with_key(&self, m: Md, key: &[u8]) -> R<Obj>;
    fn server_from_seed(&self, m: Md, seed: &[u8], info: &[u8]) -> R<Obj>;
    /// None in base mode
    fn server_pk(&self, s: &Obj) -> Option<B>;

    fn blind(&self, m: Md, input: &[u8], rng: &mut ScriptRng) -> R<(Obj, Obj)>;
    fn blind_det(&self, m: Md, input: &[u8], blind: &[u8]) -> R<(Obj, Obj)>;
    fn get_blind(&self, c: &Obj) -> Option<B>;

    /// single evaluation; proof is None in base mode
    fn blind_evaluate(&self, s: &Obj, rng: &mut ScriptRng, b: &Obj, info: Option<&[u8]>) -> R<(Obj, Option<Obj>)>;
    fn prepare(&self, s: &Obj, bs: &[&Obj], info: Option<&[u8]>, c: Coll) -> R<(Vec<Obj>, Option<Obj>)>;
    fn finish(&self, s: &Obj, rng: &mut ScriptRng, bs: &[&Obj], ps: &[&Obj], tweak: Option<&Obj>, c: Coll) -> R<Batch>;
    fn batch_evaluate(&self, s: &Obj, rng: &mut ScriptRng, bs: &[&Obj], info: Option<&[u8]>, c: Coll) -> R<Batch>;
    fn evaluate(&self, s: &Obj, input: &[u8], info: Option<&[u8]>) -> R<B>;

    fn finalize(&self, c: &Obj, input: &[u8], ev: &Obj, proof: Option<&Obj>, pk: Option<&[u8]>, info: Option<&[u8]>) -> R<B>;
    #[allow(clippy::too_many_arguments)]
    fn batch_finalize(
        &self,
        m: Md,
        inputs: &[B],
        clients: &[&Obj],
        evals: &[&Obj],
        proof: &Obj,
        pk: &[u8],
        info: Option<&[u8]>,
        c: Coll,
        d: Drain,
    ) -> R<Vec<R<B>>>;

    /// Two live prepare iterators advanced in the order `sched` says, then drained.
    fn inter_prepare(&self, s: [&Obj; 2], bs: [&[&Obj]; 2], info: [Option<&[u8]>; 2], sched: &[bool]) -> R<[Vec<Obj>; 2]>;
    /// Two live finish message iterators (over prepared elements), interleaved.
    fn inter_finish(&self, s: [&Obj; 2], bs: [&[&Obj]; 2], ps: [&[&Obj]; 2], tweak: [Option<&Obj>; 2], rng: &mut ScriptRng, sched: &[bool]) -> R<[Batch; 2]>;
    /// Two live batch finalize iterators, interleaved.
    fn inter_finalize(&self, m: Md, j: [&FinJob; 2], sched: &[bool]) -> R<[Vec<R<B>>; 2]>;

    // Group trait, called directly
    fn g_random_scalar(&self, rng: &mut ScriptRng) -> B;
    fn g_h2c(&self, input: &[&[u8]], dst: &[&[u8]]) -> Result<B, String>;
    fn g_h2s(&self, input: &[&[u8]], dst: &[&[u8]]) -> Result<B, String>;
    fn g_base(&self) -> B;
    fn g_identity(&self) -> B;
    fn g_is_identity(&self, e: &[u8]) -> bool;
    fn g_is_zero(&self, s: &[u8]) -> bool;
    /// a + b without normalization: (identity test, serialization)
    fn g_add(&self, a: &[u8], b: &[u8]) -> (bool, B);
    fn g_mul(&self, a: &[u8], s: &[u8]) -> (bool, B);
    /// a - b: (zero test, serialization)
    fn g_ssub(&self, a: &[u8], b: &[u8]) -> (bool, B);
    fn g_invert(&self, s: &[u8]) -> B;
    fn g_ser_elem(&self, e: &[u8]) -> B;
    fn g_de_elem(&self, e: &[u8]) -> R<B>;
    fn g_ser_scalar(&self, e: &[u8]) -> B;
    fn g_de_scalar(&self, e: &[u8]) -> R<B>;
    fn suite_id(&self) -> &'static str;
    fn elem_len(&self) -> usize;
    fn scalar_len(&self) -> usize;
    fn hash_len(&self) -> usize;
    /// declared length of a wire kind according to the crate's *Len type aliases
    fn declared_len(&self, k: Kind) -> usize;
}

pub fn drain<T>(mut it: impl Iterator<Item = T>, d: Drain) -> Vec<T> {
    match d {
        Drain::All => it.collect(),
        Drain::Step => {
            let mut v = vec![];
            loop {
                let (lo, hi) = it.size_hint();
                match it.next() {
                    Some(x) => {
                        assert!(hi.map(|h| h >= 1).unwrap_or(true), "size_hint upper bound 0 but an item follows");
                        v.push(x);
                    }
                    None => {
                        assert!(lo == 0, "size_hint promised {lo} more items but the iterator ended");
                        break;
                    }
                }
            }
            v
        }
        Drain::Prefix(k) => it.by_ref().take(k).collect(),
        Drain::Nth(k) => it.nth(k).into_iter().collect(),
    }
}

pub fn mode_of(k: Kind) -> Md {
    match k {
        OprfClient | OprfServer => Md::Oprf,
        VoprfClient | VoprfServer => Md::Voprf,
        PoprfClient | PoprfServer => Md::Poprf,
        _ => panic!("harness: no mode for {k:?}"),
    }
}
pub fn vmode(m: Md) -> voprf::Mode {
    match m {
        Md::Oprf => voprf::Mode::Oprf,
        Md::Voprf => voprf::Mode::Voprf,
        Md::Poprf => voprf::Mode::Poprf,
    }
}

/// In-place drop of a value: memory images before and after the drop.
pub fn wipe<T>(v: T) -> (B, B) {
    use std::mem::{size_of, ManuallyDrop};
    fn image<T>(p: *const T) -> B {
        // byte-wise volatile reads of a live allocation
        (0..size_of::<T>()).map(|i| unsafe { std::ptr::read_volatile((p as *const u8).add(i)) }).collect()
    }
    let mut b = Box::new(ManuallyDrop::new(v));
    let before = image::<T>(&**b as *const T);
    unsafe { ManuallyDrop::drop(&mut b) };
    let after = image::<T>(&**b as *const T);
    (before, after)
}

#[macro_export]
macro_rules! with_coll {
    ($c:expr, $v:expr, |$x:ident| $body:expr) => {
        match $c {
            Coll::Vec => {
                let $x: Vec<_> = $v;
                $body
            }
            Coll::Deque => {
                // a deque whose storage wraps around
                let src: Vec<_> = $v;
                let mut dq = VecDeque::with_capacity(src.len().max(1));
                let half = src.len() / 2;
                let mut it = src.into_iter();
                let head: Vec<_> = it.by_ref().take(half).collect();
                for x in it {
                    dq.push_back(x);
                }
                for x in head.into_iter().rev() {
                    dq.push_front(x);
                }
                let $x: VecDeque<_> = dq;
                $body
            }
            Coll::List => {
                let $x: LinkedList<_> = $v.into_iter().collect();
                $body
            }
        }
    };
}

#[macro_export]
macro_rules! vals {
    (toy, cmp, $a:expr, $b:expr) => {{
        let (p, t) = ($a.partial_cmp($b), $a.cmp($b));
        assert!(p == Some(t), "PartialOrd and Ord disagree: {p:?} vs {t:?}");
        Some(t)
    }};
    (toy, hash, $a:expr, $b:expr) => {{
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        $a.hash(&mut h);
        Some(h.finish())
    }};
    (real, $op:ident, $a:expr, $b:expr) => {{
        let _ = ($a, $b);
        None
    }};
}

#[macro_export]
macro_rules! api {
    ($name:ident, $cs:ty, $refty:ty, $toyq:expr, $vals:ident) => {
        pub mod $name {
            use std::any::Any;
            use std::collections::{LinkedList, VecDeque};

            use generic_array::typenum::Unsigned;
            use voprf::{CipherSuite, Group};

            #[allow(unused_imports)]
            use super::*;
            use $crate::api::*;
            use $crate::spec::{Md, Ref, Spec, SpecOf, B, R};
            use $crate::toy::ScriptRng;
            use $crate::with_coll;

            type CS = $cs;
            type G = <CS as CipherSuite>::Group;
            type E = <G as Group>::Elem;
            type S = <G as Group>::Scalar;
            type Rf = $refty;
            static SPEC: SpecOf<Rf> = SpecOf::NEW;
            type OC = voprf::OprfClient<CS>;
            type VC = voprf::VoprfClient<CS>;
            type PC = voprf::PoprfClient<CS>;
            type OS = voprf::OprfServer<CS>;
            type VS = voprf::VoprfServer<CS>;
            type PS = voprf::PoprfServer<CS>;
            type BE = voprf::BlindedElement<CS>;
            type EE = voprf::EvaluationElement<CS>;
            type PR = voprf::Proof<CS>;
            type PE = voprf::PreparedEvaluationElement<CS>;
            type PT = voprf::PoprfPreparedTweak<CS>;

            pub struct Imp;
            pub static API: Imp = Imp;

            fn ob<T: Any>(kind: Kind, v: T) -> Obj {
                Obj { kind, any: Box::new(v) }
            }
            fn g<T: Any>(o: &Obj) -> &T {
                o.any.downcast_ref::<T>().expect("harness: wrong object type")
            }
            fn gc<T: Any + Clone>(o: &[&Obj]) -> Vec<T> {
                o.iter().map(|x| g::<T>(x).clone()).collect()
            }
            fn el(b: &[u8]) -> E {
                <Rf as Ref>::de_e(b).expect("harness: bad element")
            }
            fn sc(b: &[u8]) -> S {
                <Rf as Ref>::de_s(b).expect("harness: bad scalar")
            }

            macro_rules! each {
                ($o:expr, |$x:ident, $T:ident| $body:expr) => {
                    match $o.kind {
                        Kind::OprfClient => { type $T = OC; let $x: &$T = g($o); $body }
                        Kind::VoprfClient => { type $T = VC; let $x: &$T = g($o); $body }
                        Kind::PoprfClient => { type $T = PC; let $x: &$T = g($o); $body }
                        Kind::OprfServer => { type $T = OS; let $x: &$T = g($o); $body }
                        Kind::VoprfServer => { type $T = VS; let $x: &$T = g($o); $body }
                        Kind::PoprfServer => { type $T = PS; let $x: &$T = g($o); $body }
                        Kind::Blinded => { type $T = BE; let $x: &$T = g($o); $body }
                        Kind::Eval => { type $T = EE; let $x: &$T = g($o); $body }
                        Kind::Proof => { type $T = PR; let $x: &$T = g($o); $body }
                        Kind::Prepared => { type $T = PE; let $x: &$T = g($o); $body }
                        Kind::Tweak => { type $T = PT; let $x: &$T = g($o); $body }
                    }
                };
            }
            macro_rules! kinds {
                ($k:expr, |$T:ident| $body:expr) => {
                    match $k {
                        Kind::OprfClient => { type $T = OC; $body }
                        Kind::VoprfClient => { type $T = VC; $body }
                        Kind::PoprfClient => { type $T = PC; $body }
                        Kind::OprfServer => { type $T = OS; $body }
                        Kind::VoprfServer => { type $T = VS; $body }
                        Kind::PoprfServer => { type $T = PS; $body }
                        Kind::Blinded => { type $T = BE; $body }
                        Kind::Eval => { type $T = EE; $body }
                        Kind::Proof => { type $T = PR; $body }
                        Kind::Prepared => { type $T = PE; $body }
                        Kind::Tweak => { type $T = PT; $body }
                    }
                };
            }

            impl Api for Imp {
                fn spec(&self) -> &'static dyn Spec {
                    &SPEC
                }
                fn toy_q(&self) -> Option<u64> {
                    $toyq
                }
                fn de(&self, k: Kind, b: &[u8]) -> R<Obj> {
                    Ok(match k {
                        Kind::OprfClient => ob(k, OC::deserialize(b)?),
                        Kind::VoprfClient => ob(k, VC::deserialize(b)?),
                        Kind::PoprfClient => ob(k, PC::deserialize(b)?),
                        Kind::OprfServer => ob(k, OS::deserialize(b)?),
                        Kind::VoprfServer => ob(k, VS::deserialize(b)?),
                        Kind::PoprfServer => ob(k, PS::deserialize(b)?),
                        Kind::Blinded => ob(k, BE::deserialize(b)?),
                        Kind::Eval => ob(k, EE::deserialize(b)?),
                        Kind::Proof => ob(k, PR::deserialize(b)?),
                        _ => panic!("harness: {k:?} has no byte format"),
                    })
                }
                fn ser(&self, o: &Obj) -> B {
                    match o.kind {
                        Kind::OprfClient => g::<OC>(o).serialize().to_vec(),
                        Kind::VoprfClient => g::<VC>(o).serialize().to_vec(),
                        Kind::PoprfClient => g::<PC>(o).serialize().to_vec(),
                        Kind::OprfServer => g::<OS>(o).serialize().to_vec(),
                        Kind::VoprfServer => g::<VS>(o).serialize().to_vec(),
                        Kind::PoprfServer => g::<PS>(o).serialize().to_vec(),
                        Kind::Blinded => g::<BE>(o).serialize().to_vec(),
                        Kind::Eval => g::<EE>(o).serialize().to_vec(),
                        Kind::Proof => g::<PR>(o).serialize().to_vec(),
                        _ => panic!("harness: {:?} has no byte format", o.kind),
                    }
                }
                fn dup(&self, o: &Obj) -> Obj {
                    each!(o, |x, T| ob::<T>(o.kind, x.clone()))
                }
                fn same(&self, a: &Obj, b: &Obj) -> bool {
                    assert!(a.kind == b.kind);
                    each!(a, |x, T| { let y: &T = x; y == g::<T>(b) })
                }
                fn cmp(&self, a: &Obj, b: &Obj) -> Option<std::cmp::Ordering> {
                    assert!(a.kind == b.kind);
                    each!(a, |x, T| { let y: &T = x; $crate::vals!($vals, cmp, y, g::<T>(b)) })
                }
                fn hash64(&self, a: &Obj) -> Option<u64> {
                    each!(a, |x, T| { let y: &T = x; $crate::vals!($vals, hash, y, y) })
                }
                fn debug(&self, a: &Obj) -> String {
                    each!(a, |x, T| { let y: &T = x; format!("{y:?}") })
                }
                fn serde_ser(&self, o: &Obj, f: Fmt) -> Result<B, String> {
                    each!(o, |x, T| {
                        let y: &T = x;
                        match f {
                            Fmt::Json => serde_json::to_vec(y).map_err(|e| e.to_string()),
                            Fmt::JsonValue => serde_json::to_value(y)
                                .map(|v| v.to_string().into_bytes())
                                .map_err(|e| e.to_string()),
                            Fmt::Bincode => bincode::serialize(y).map_err(|e| e.to_string()),
                            Fmt::Cbor => {
                                let mut v = vec![];
                                ciborium::into_writer(y, &mut v).map_err(|e| e.to_string())?;
                                Ok(v)
                            }
                        }
                    })
                }
                fn serde_de(&self, k: Kind, b: &[u8], f: Fmt) -> Result<Obj, String> {
                    kinds!(k, |T| {
                        let v: T = match f {
                            Fmt::Json => serde_json::from_slice(b).map_err(|e| e.to_string())?,
                            Fmt::JsonValue => {
                                let v: serde_json::Value = serde_json::from_slice(b).map_err(|e| e.to_string())?;
                                serde_json::from_value(v).map_err(|e| e.to_string())?
                            }
                            Fmt::Bincode => bincode::deserialize(b).map_err(|e| e.to_string())?,
                            Fmt::Cbor => ciborium::from_reader(b).map_err(|e| e.to_string())?,
                        };
                        Ok(ob::<T>(k, v))
                    })
                }
                fn wipe_image(&self, o: &Obj) -> (B, B) {
                    each!(o, |x, T| {
                        let y: T = x.clone();
                        wipe(y)
                    })
                }
                fn raw_blinded(&self, e: &[u8]) -> Obj {
                    ob(Kind::Blinded, BE::from_value_unchecked(el(e)))
                }
                fn raw_eval(&self, e: &[u8]) -> Obj {
                    ob(Kind::Eval, EE::from_value_unchecked(el(e)))
                }
                fn value(&self, o: &Obj) -> B {
                    match o.kind {
                        Kind::Blinded => <Rf as Ref>::ser_e(g::<BE>(o).value()),
                        Kind::Eval => <Rf as Ref>::ser_e(g::<EE>(o).value()),
                        _ => panic!("harness: value of {:?}", o.kind),
                    }
                }
                fn derive_key(&self, seed: &[u8], info: &[u8], m: Md) -> R<B> {
                    voprf::derive_key::<CS>(seed, info, vmode(m)).map(|s| <Rf as Ref>::ser_s(s))
                }
                fn server_new(&self, m: Md, rng: &mut ScriptRng) -> R<Obj> {
                    Ok(match m {
                        Md::Oprf => ob(Kind::OprfServer, OS::new(rng)?),
                        Md::Voprf => ob(Kind::VoprfServer, VS::new(rng)?),
                        Md::Poprf => ob(Kind::PoprfServer, PS::new(rng)?),
                    })
                }
                fn server_with_key(&self, m: Md, key: &[u8]) -> R<Obj> {
                    Ok(match m {
                        Md::Oprf => ob(Kind::OprfServer, OS::new_with_key(key)?),
                        Md::Voprf => ob(Kind::VoprfServer, VS::new_with_key(key)?),
                        Md::Poprf => ob(Kind::PoprfServer, PS::new_with_key(key)?),
                    })
                }
                fn server_from_seed(&self, m: Md, seed: &[u8], info: &[u8]) -> R<Obj> {
                    Ok(match m {
                        Md::Oprf => ob(Kind::OprfServer, OS::new_from_seed(seed, info)?),
                        Md::Voprf => ob(Kind::VoprfServer, VS::new_from_seed(seed, info)?),
                        Md::Poprf => ob(Kind::PoprfServer, PS::new_from_seed(seed, info)?),
                    })
                }
                fn server_pk(&self, s: &Obj) -> Option<B> {
                    match s.kind {
                        Kind::VoprfServer => Some(<Rf as Ref>::ser_e(g::<VS>(s).get_public_key())),
                        Kind::PoprfServer => Some(<Rf as Ref>::ser_e(g::<PS>(s).get_public_key())),
                        _ => None,
                    }
                }
                fn blind(&self, m: Md, input: &[u8], rng: &mut ScriptRng) -> R<(Obj, Obj)> {
                    Ok(match m {
                        Md::Oprf => {
                            let r = OC::blind(input, rng)?;
                            (ob(Kind::OprfClient, r.state), ob(Kind::Blinded, r.message))
                        }
                        Md::Voprf => {
                            let r = VC::blind(input, rng)?;
                            (ob(Kind::VoprfClient, r.state), ob(Kind::Blinded, r.message))
                        }
                        Md::Poprf => {
                            let r = PC::blind(input, rng)?;
                            (ob(Kind::PoprfClient, r.state), ob(Kind::Blinded, r.message))
                        }
                    })
                }
                fn blind_det(&self, m: Md, input: &[u8], blind: &[u8]) -> R<(Obj, Obj)> {
                    let b = sc(blind);
                    Ok(match m {
                        Md::Oprf => {
                            let r = OC::deterministic_blind_unchecked(input, b)?;
                            (ob(Kind::OprfClient, r.state), ob(Kind::Blinded, r.message))
                        }
                        Md::Voprf => {
                            let r = VC::deterministic_blind_unchecked(input, b)?;
                            (ob(Kind::VoprfClient, r.state), ob(Kind::Blinded, r.message))
                        }
                        Md::Poprf => {
                            let r = PC::deterministic_blind_unchecked(input, b)?;
                            (ob(Kind::PoprfClient, r.state), ob(Kind::Blinded, r.message))
                        }
                    })
                }
                fn get_blind(&self, c: &Obj) -> Option<B> {
                    match c.kind {
                        Kind::OprfClient => Some(<Rf as Ref>::ser_s(g::<OC>(c).get_blind())),
                        _ => None,
                    }
                }
                fn blind_evaluate(&self, s: &Obj, rng: &mut ScriptRng, b: &Obj, info: Option<&[u8]>) -> R<(Obj, Option<Obj>)> {
                    let be = g::<BE>(b);
                    Ok(match s.kind {
                        Kind::OprfServer => (ob(Kind::Eval, g::<OS>(s).blind_evaluate(be)), None),
                        Kind::VoprfServer => {
                            let r = g::<VS>(s).blind_evaluate(rng, be);
                            (ob(Kind::Eval, r.message), Some(ob(Kind::Proof, r.proof)))
                        }
                        Kind::PoprfServer => {
                            let r = g::<PS>(s).blind_evaluate(rng, be, info)?;
                            (ob(Kind::Eval, r.message), Some(ob(Kind::Proof, r.proof)))
                        }
                        _ => panic!("harness"),
                    })
                }
                fn prepare(&self, s: &Obj, bs: &[&Obj], info: Option<&[u8]>, c: Coll) -> R<(Vec<Obj>, Option<Obj>)> {
                    let bl: Vec<BE> = gc::<BE>(bs);
                    with_coll!(c, bl, |bl| match s.kind {
                        Kind::VoprfServer => {
                            let v = g::<VS>(s).batch_blind_evaluate_prepare(bl.iter());
                            Ok((v.map(|p| ob::<PE>(Kind::Prepared, p)).collect(), None))
                        }
                        Kind::PoprfServer => {
                            let v = g::<PS>(s).batch_blind_evaluate_prepare(bl.iter(), info)?;
                            let t = v.prepared_tweak;
                            Ok((
                                v.prepared_evaluation_elements.map(|p| ob::<PE>(Kind::Prepared, p)).collect(),
                                Some(ob::<PT>(Kind::Tweak, t)),
                            ))
                        }
                        _ => panic!("harness"),
                    })
                }
                fn finish(&self, s: &Obj, rng: &mut ScriptRng, bs: &[&Obj], ps: &[&Obj], tweak: Option<&Obj>, c: Coll) -> R<Batch> {
                    let bl: Vec<BE> = gc::<BE>(bs);
                    let pl: Vec<PE> = gc::<PE>(ps);
                    with_coll!(c, pl, |pl| match s.kind {
                        Kind::VoprfServer => {
                            let r = g::<VS>(s).batch_blind_evaluate_finish(rng, bl.iter(), &pl)?;
                            Ok(Batch {
                                msgs: r.messages.map(|m| ob::<EE>(Kind::Eval, m)).collect(),
                                proof: ob::<PR>(Kind::Proof, r.proof),
                            })
                        }
                        Kind::PoprfServer => {
                            let r = PS::batch_blind_evaluate_finish(rng, bl.iter(), &pl, g::<PT>(tweak.unwrap()))?;
                            Ok(Batch {
                                msgs: r.messages.map(|m| ob::<EE>(Kind::Eval, m)).collect(),
                                proof: ob::<PR>(Kind::Proof, r.proof),
                            })
                        }
                        _ => panic!("harness"),
                    })
                }
                fn batch_evaluate(&self, s: &Obj, rng: &mut ScriptRng, bs: &[&Obj], info: Option<&[u8]>, c: Coll) -> R<Batch> {
                    let bl: Vec<BE> = gc::<BE>(bs);
                    with_coll!(c, bl, |bl| match s.kind {
                        Kind::VoprfServer => {
                            let r = g::<VS>(s).batch_blind_evaluate(rng, &bl)?;
                            Ok(Batch {
                                msgs: r.messages.into_iter().map(|m| ob::<EE>(Kind::Eval, m)).collect(),
                                proof: ob::<PR>(Kind::Proof, r.proof),
                            })
                        }
                        Kind::PoprfServer => {
                            let r = g::<PS>(s).batch_blind_evaluate(rng, &bl, info)?;
                            Ok(Batch {
                                msgs: r.messages.into_iter().map(|m| ob::<EE>(Kind::Eval, m)).collect(),
                                proof: ob::<PR>(Kind::Proof, r.proof),
                            })
                        }
                        _ => panic!("harness"),
                    })
                }
                fn evaluate(&self, s: &Obj, input: &[u8], info: Option<&[u8]>) -> R<B> {
                    Ok(match s.kind {
                        Kind::OprfServer => g::<OS>(s).evaluate(input)?.to_vec(),
                        Kind::VoprfServer => g::<VS>(s).evaluate(input)?.to_vec(),
                        Kind::PoprfServer => g::<PS>(s).evaluate(input, info)?.to_vec(),
                        _ => panic!("harness"),
                    })
                }
                fn finalize(&self, c: &Obj, input: &[u8], ev: &Obj, proof: Option<&Obj>, pk: Option<&[u8]>, info: Option<&[u8]>) -> R<B> {
                    let ee = g::<EE>(ev);
                    Ok(match c.kind {
                        Kind::OprfClient => g::<OC>(c).finalize(input, ee)?.to_vec(),
                        Kind::VoprfClient => g::<VC>(c).finalize(input, ee, g::<PR>(proof.unwrap()), el(pk.unwrap()))?.to_vec(),
                        Kind::PoprfClient => {
                            g::<PC>(c).finalize(input, ee, g::<PR>(proof.unwrap()), el(pk.unwrap()), info)?.to_vec()
                        }
                        _ => panic!("harness"),
                    })
                }
                fn batch_finalize(
                    &self,
                    m: Md,
                    inputs: &[B],
                    clients: &[&Obj],
                    evals: &[&Obj],
                    proof: &Obj,
                    pk: &[u8],
                    info: Option<&[u8]>,
                    c: Coll,
                    d: Drain,
                ) -> R<Vec<R<B>>> {
                    let ev: Vec<EE> = gc::<EE>(evals);
                    let pr = g::<PR>(proof);
                    match m {
                        Md::Voprf => {
                            let cl: Vec<VC> = gc::<VC>(clients);
                            with_coll!(c, ev, |ev| with_coll!(c, cl, |cl| {
                                let ins: Vec<B> = inputs.to_vec();
                                let it = VC::batch_finalize(&ins, &cl, &ev, pr, el(pk))?;
                                Ok(drain(it, d).into_iter().map(|r| r.map(|o| o.to_vec())).collect())
                            }))
                        }
                        Md::Poprf => {
                            let cl: Vec<PC> = gc::<PC>(clients);
                            with_coll!(c, ev, |ev| with_coll!(c, cl, |cl| {
                                let it = PC::batch_finalize(inputs.iter().map(|x| x.as_slice()), &cl, &ev, pr, el(pk), info)?;
                                Ok(drain(it, d).into_iter().map(|r| r.map(|o| o.to_vec())).collect())
                            }))
                        }
                        _ => panic!("harness"),
                    }
                }
                fn inter_prepare(&self, s: [&Obj; 2], bs: [&[&Obj]; 2], info: [Option<&[u8]>; 2], sched: &[bool]) -> R<[Vec<Obj>; 2]> {
                    let (x, y): (Vec<BE>, Vec<BE>) = (gc::<BE>(bs[0]), gc::<BE>(bs[1]));
                    let r = match s[0].kind {
                        Kind::VoprfServer => inter(
                            g::<VS>(s[0]).batch_blind_evaluate_prepare(x.iter()),
                            g::<VS>(s[1]).batch_blind_evaluate_prepare(y.iter()),
                            sched,
                        ),
                        _ => {
                            let p = g::<PS>(s[0]).batch_blind_evaluate_prepare(x.iter(), info[0])?;
                            let q = g::<PS>(s[1]).batch_blind_evaluate_prepare(y.iter(), info[1])?;
                            inter(p.prepared_evaluation_elements, q.prepared_evaluation_elements, sched)
                        }
                    };
                    Ok(r.map(|v| v.into_iter().map(|p| ob::<PE>(Kind::Prepared, p)).collect()))
                }
                fn inter_finish(&self, s: [&Obj; 2], bs: [&[&Obj]; 2], ps: [&[&Obj]; 2], tweak: [Option<&Obj>; 2], rng: &mut ScriptRng, sched: &[bool]) -> R<[Batch; 2]> {
                    let (x, y): (Vec<BE>, Vec<BE>) = (gc::<BE>(bs[0]), gc::<BE>(bs[1]));
                    let (p, q): (Vec<PE>, Vec<PE>) = (gc::<PE>(ps[0]), gc::<PE>(ps[1]));
                    let (m, f, h) = match s[0].kind {
                        Kind::VoprfServer => {
                            let a = g::<VS>(s[0]).batch_blind_evaluate_finish(rng, x.iter(), &p)?;
                            let b = g::<VS>(s[1]).batch_blind_evaluate_finish(rng, y.iter(), &q)?;
                            (inter(a.messages, b.messages, sched), a.proof, b.proof)
                        }
                        _ => {
                            let a = PS::batch_blind_evaluate_finish(rng, x.iter(), &p, g::<PT>(tweak[0].unwrap()))?;
                            let b = PS::batch_blind_evaluate_finish(rng, y.iter(), &q, g::<PT>(tweak[1].unwrap()))?;
                            (inter(a.messages, b.messages, sched), a.proof, b.proof)
                        }
                    };
                    let [v, w] = m.map(|v| v.into_iter().map(|e| ob::<EE>(Kind::Eval, e)).collect::<Vec<_>>());
                    Ok([
                        Batch { msgs: v, proof: ob::<PR>(Kind::Proof, f) },
                        Batch { msgs: w, proof: ob::<PR>(Kind::Proof, h) },
                    ])
                }
                fn inter_finalize(&self, m: Md, j: [&FinJob; 2], sched: &[bool]) -> R<[Vec<R<B>>; 2]> {
                    let (e0, e1): (Vec<EE>, Vec<EE>) = (gc::<EE>(&j[0].evals), gc::<EE>(&j[1].evals));
                    let (i0, i1): (Vec<B>, Vec<B>) = (j[0].inputs.to_vec(), j[1].inputs.to_vec());
                    let r = match m {
                        Md::Voprf => {
                            let (c0, c1): (Vec<VC>, Vec<VC>) = (gc::<VC>(&j[0].clients), gc::<VC>(&j[1].clients));
                            let a = VC::batch_finalize(&i0, &c0, &e0, g::<PR>(j[0].proof), el(j[0].pk))?;
                            let b = VC::batch_finalize(&i1, &c1, &e1, g::<PR>(j[1].proof), el(j[1].pk))?;
                            inter(a, b, sched)
                        }
                        _ => {
                            let (c0, c1): (Vec<PC>, Vec<PC>) = (gc::<PC>(&j[0].clients), gc::<PC>(&j[1].clients));
                            let a = PC::batch_finalize(i0.iter().map(|x| x.as_slice()), &c0, &e0, g::<PR>(j[0].proof), el(j[0].pk), j[0].info)?;
                            let b = PC::batch_finalize(i1.iter().map(|x| x.as_slice()), &c1, &e1, g::<PR>(j[1].proof), el(j[1].pk), j[1].info)?;
                            inter(a, b, sched)
                        }
                    };
                    Ok(r.map(|v| v.into_iter().map(|x| x.map(|o| o.to_vec())).collect()))
                }
                fn g_random_scalar(&self, rng: &mut ScriptRng) -> B {
                    <Rf as Ref>::ser_s(G::random_scalar(rng))
                }
                fn g_h2c(&self, input: &[&[u8]], dst: &[&[u8]]) -> Result<B, String> {
                    G::hash_to_curve::<<CS as CipherSuite>::Hash>(input, dst)
                        .map(|e| <Rf as Ref>::ser_e(e))
                        .map_err(|e| format!("{e:?}"))
                }
                fn g_h2s(&self, input: &[&[u8]], dst: &[&[u8]]) -> Result<B, String> {
                    G::hash_to_scalar::<<CS as CipherSuite>::Hash>(input, dst)
                        .map(|e| <Rf as Ref>::ser_s(e))
                        .map_err(|e| format!("{e:?}"))
                }
                fn g_base(&self) -> B {
                    <Rf as Ref>::ser_e(G::base_elem())
                }
                fn g_identity(&self) -> B {
                    <Rf as Ref>::ser_e(G::identity_elem())
                }
                fn g_is_identity(&self, e: &[u8]) -> bool {
                    G::is_identity_elem(el(e)).into()
                }
                fn g_is_zero(&self, s: &[u8]) -> bool {
                    G::is_zero_scalar(sc(s)).into()
                }
                fn g_add(&self, a: &[u8], b: &[u8]) -> (bool, B) {
                    let e = el(a) + &el(b);
                    (G::is_identity_elem(e).into(), G::serialize_elem(e).to_vec())
                }
                fn g_mul(&self, a: &[u8], b: &[u8]) -> (bool, B) {
                    let e = el(a) * &sc(b);
                    (G::is_identity_elem(e).into(), G::serialize_elem(e).to_vec())
                }
                fn g_ssub(&self, a: &[u8], b: &[u8]) -> (bool, B) {
                    let e = sc(a) - &sc(b);
                    (G::is_zero_scalar(e).into(), G::serialize_scalar(e).to_vec())
                }
                fn g_invert(&self, s: &[u8]) -> B {
                    <Rf as Ref>::ser_s(G::invert_scalar(sc(s)))
                }
                fn g_ser_elem(&self, e: &[u8]) -> B {
                    G::serialize_elem(el(e)).to_vec()
                }
                fn g_de_elem(&self, e: &[u8]) -> R<B> {
                    G::deserialize_elem(e).map(|x| <Rf as Ref>::ser_e(x))
                }
                fn g_ser_scalar(&self, s: &[u8]) -> B {
                    G::serialize_scalar(sc(s)).to_vec()
                }
                fn g_de_scalar(&self, s: &[u8]) -> R<B> {
                    G::deserialize_scalar(s).map(|x| <Rf as Ref>::ser_s(x))
                }
                fn suite_id(&self) -> &'static str {
                    <CS as CipherSuite>::ID
                }
                fn elem_len(&self) -> usize {
                    <<G as Group>::ElemLen as Unsigned>::USIZE
                }
                fn scalar_len(&self) -> usize {
                    <<G as Group>::ScalarLen as Unsigned>::USIZE
                }
                fn hash_len(&self) -> usize {
                    <<<CS as CipherSuite>::Hash as digest::OutputSizeUser>::OutputSize as Unsigned>::USIZE
                }
                fn declared_len(&self, k: Kind) -> usize {
                    match k {
                        Kind::OprfClient => <voprf::OprfClientLen<CS> as Unsigned>::USIZE,
                        Kind::VoprfClient => <voprf::VoprfClientLen<CS> as Unsigned>::USIZE,
                        Kind::PoprfClient => <voprf::PoprfClientLen<CS> as Unsigned>::USIZE,
                        Kind::OprfServer => <voprf::OprfServerLen<CS> as Unsigned>::USIZE,
                        Kind::VoprfServer => <voprf::VoprfServerLen<CS> as Unsigned>::USIZE,
                        Kind::PoprfServer => <voprf::PoprfServerLen<CS> as Unsigned>::USIZE,
                        Kind::Blinded => <voprf::BlindedElementLen<CS> as Unsigned>::USIZE,
                        Kind::Eval => <voprf::EvaluationElementLen<CS> as Unsigned>::USIZE,
                        Kind::Proof => <voprf::ProofLen<CS> as Unsigned>::USIZE,
                        _ => panic!("harness"),
                    }
                }
            }
        }
    };
}
