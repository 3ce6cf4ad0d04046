//! Runs a fixed matrix of operations against voprf built with one set of features.
//! `probe emit`           prints one line per observation: name<TAB>value
//! `probe restore FILE..` continues the runs of other builds from their serialized objects
#![allow(dead_code, unused_imports, unused_macros, unused_variables, clippy::all)]
#[path = "../../mc/src/toy.rs"]
mod toy;

use std::collections::BTreeMap;

use generic_array::GenericArray;
use toy::{fh, ScriptRng};
use voprf::{CipherSuite, Error, Group, Mode};

type B = Vec<u8>;
type Lines = BTreeMap<String, String>;

fn hx(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhx(s: &str) -> B {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn fill(n: usize, seed: u64) -> B {
    (0..n).map(|i| (fh(seed, &(i as u64).to_be_bytes()) >> 13) as u8).collect()
}
fn sh<T: AsRef<[u8]>>(r: &Result<T, Error>) -> String {
    match r {
        Ok(x) => hx(x.as_ref()),
        Err(e) => format!("{e:?} / {e}"),
    }
}
fn er<T>(r: Result<T, Error>) -> String {
    match r {
        Ok(_) => "ok".into(),
        Err(e) => format!("{e:?} / {e}"),
    }
}

#[cfg(all(feature = "ristretto255", not(feature = "ristretto255-ciphersuite")))]
#[derive(Clone, Copy, Debug, Default, Eq, Hash, Ord, PartialEq, PartialOrd)]
struct RistCs;
#[cfg(all(feature = "ristretto255", not(feature = "ristretto255-ciphersuite")))]
impl CipherSuite for RistCs {
    const ID: &'static str = "ristretto255-SHA512";
    type Group = voprf::Ristretto255;
    type Hash = sha2::Sha512;
}

macro_rules! blobs {
    ($o:expr, $k:expr, $v:expr) => {{
        let (o, k, v): (&mut Lines, String, _) = ($o, $k, $v);
        o.insert(format!("{k} #bytes"), hx(&v.serialize()));
        blobs!(serde o, k, v);
    }};
    (serde $o:expr, $k:expr, $v:expr) => {{
        #[cfg(feature = "serde")]
        {
            $o.insert(format!("{} #bincode", $k), hx(&bincode::serialize(&$v).unwrap()));
            $o.insert(format!("{} #json", $k), hx(&serde_json::to_vec(&$v).unwrap()));
        }
    }};
}
macro_rules! restore {
    ($T:ty, $l:expr, $k:expr, $f:expr) => {{
        let key = format!("{} #{}", $k, $f);
        match $l.get(&key) {
            None => None,
            Some(h) => {
                let b = unhx(h);
                match $f {
                    "bytes" => Some(<$T>::deserialize(&b).map_err(|e| format!("{e:?}"))),
                    #[cfg(feature = "serde")]
                    "bincode" => Some(bincode::deserialize::<$T>(&b).map_err(|e| e.to_string())),
                    #[cfg(feature = "serde")]
                    "json" => Some(serde_json::from_slice::<$T>(&b).map_err(|e| e.to_string())),
                    _ => None,
                }
            }
        }
    }};
}

/// The parts of a server that differ by mode.
macro_rules! server_batch {
    (Voprf, $s:expr, $rng:expr, $b:expr, $info:expr) => {{
        let ps: Vec<_> = $s.batch_blind_evaluate_prepare($b.iter()).collect();
        let r = $s.batch_blind_evaluate_finish($rng, $b.iter(), &ps);
        r.map(|r| (r.messages.map(|m| m.serialize().to_vec()).collect::<Vec<_>>(), r.proof.serialize().to_vec(), ps.clone()))
    }};
    (Poprf, $s:expr, $rng:expr, $b:expr, $info:expr) => {{
        match $s.batch_blind_evaluate_prepare($b.iter(), $info) {
            Err(e) => Err(e),
            Ok(p) => {
                let ps: Vec<_> = p.prepared_evaluation_elements.collect();
                voprf::PoprfServer::<CS>::batch_blind_evaluate_finish($rng, $b.iter(), &ps, &p.prepared_tweak)
                    .map(|r| (r.messages.map(|m| m.serialize().to_vec()).collect::<Vec<_>>(), r.proof.serialize().to_vec(), ps.clone()))
            }
        }
    }};
}
macro_rules! alloc_batch {
    (Voprf, $s:expr, $rng:expr, $b:expr, $info:expr) => {
        $s.batch_blind_evaluate($rng, &$b)
    };
    (Poprf, $s:expr, $rng:expr, $b:expr, $info:expr) => {
        $s.batch_blind_evaluate($rng, &$b, $info)
    };
}
macro_rules! fin_batch {
    (Voprf, $i:expr, $c:expr, $e:expr, $p:expr, $pk:expr, $info:expr) => {
        voprf::VoprfClient::<CS>::batch_finalize(&$i, &$c, &$e, $p, $pk).map(|x| x.map(|r| sh(&r)).collect::<Vec<_>>().join(","))
    };
    (Poprf, $i:expr, $c:expr, $e:expr, $p:expr, $pk:expr, $info:expr) => {
        voprf::PoprfClient::<CS>::batch_finalize($i.iter().map(|x| x.as_slice()), &$c, &$e, $p, $pk, $info).map(|x| x.map(|r| sh(&r)).collect::<Vec<_>>().join(","))
    };
}
macro_rules! ev1 {
    (Voprf, $s:expr, $rng:expr, $b:expr, $info:expr) => {
        Ok::<_, Error>($s.blind_evaluate($rng, $b)).map(|r| (r.message, r.proof))
    };
    (Poprf, $s:expr, $rng:expr, $b:expr, $info:expr) => {
        $s.blind_evaluate($rng, $b, $info).map(|r| (r.message, r.proof))
    };
}
macro_rules! fin1 {
    (Voprf, $c:expr, $i:expr, $e:expr, $p:expr, $pk:expr, $info:expr) => {
        $c.finalize($i, $e, $p, $pk)
    };
    (Poprf, $c:expr, $i:expr, $e:expr, $p:expr, $pk:expr, $info:expr) => {
        $c.finalize($i, $e, $p, $pk, $info)
    };
}
macro_rules! direct {
    (Voprf, $s:expr, $i:expr, $info:expr) => {
        $s.evaluate($i)
    };
    (Poprf, $s:expr, $i:expr, $info:expr) => {
        $s.evaluate($i, $info)
    };
}

fn dig(x: impl AsRef<[u8]>) -> String {
    let x = x.as_ref();
    format!("{} bytes {:016x}{:016x}", x.len(), fh(1, x), fh(2, x))
}
/// sizes and lengths around every power of two
fn edges(from: u32, to: u32) -> Vec<usize> {
    (from..=to).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).collect()
}

macro_rules! verifiable {
    ($mode:ident, $C:ident, $S:ident, $emit:ident, $cont:ident, $sweep:ident) => {
        /// batch sizes, input, info and key info lengths
        pub fn $sweep(o: &mut Lines, sizes: &[usize], lens: &[usize]) {
            type C = voprf::$C<CS>;
            type S = voprf::$S<CS>;
            let p = format!("{NAME} {} sweep", stringify!($mode));
            let s = S::new_from_seed(b"sweep", b"").unwrap();
            let pk = s.get_public_key();
            let info: Option<&[u8]> = Some(b"info");
            for &n in sizes {
                let p = format!("{p} size {n}");
                chunk(o, &p.clone(), |o| {
                    let mut rng = ScriptRng::stream(n as u64);
                    let inputs: Vec<B> = (0..n).map(|i| vec![i as u8, (i >> 8) as u8]).collect();
                    let r: Vec<_> = inputs.iter().map(|x| C::blind(x, &mut rng).unwrap()).collect();
                    let (cs, bs): (Vec<C>, Vec<_>) = r.into_iter().map(|r| (r.state, r.message)).unzip();
                    #[cfg(feature = "alloc")]
                    {
                        let r = alloc_batch!($mode, s, &mut rng.clone(), bs, info)
                            .map(|r| dig(format!("{} {}", r.messages.iter().map(|m| hx(&m.serialize())).collect::<Vec<_>>().join(","), hx(&r.proof.serialize()))));
                        o.insert(format!("{p} allocating"), r.unwrap_or_else(|e| format!("{e:?} / {e}")));
                    }
                    let (ms, pf, _) = match server_batch!($mode, s, &mut rng, bs, info) {
                        Ok(x) => x,
                        Err(e) => {
                            o.insert(format!("{p} batch"), format!("{e:?} / {e}"));
                            return;
                        }
                    };
                    o.insert(format!("{p} batch"), dig([ms.concat(), pf.clone()].concat()));
                    let es: Vec<voprf::EvaluationElement<CS>> = ms.iter().map(|m| voprf::EvaluationElement::deserialize(m).unwrap()).collect();
                    let proof = voprf::Proof::<CS>::deserialize(&pf).unwrap();
                    let f = fin_batch!($mode, inputs, cs, es, &proof, pk, info);
                    o.insert(format!("{p} outputs"), f.map(dig).unwrap_or_else(|e| format!("{e:?} / {e}")));
                });
            }
            for &n in lens {
                let p = format!("{p} length {n}");
                chunk(o, &p.clone(), |o| {
                    let x = fill(n, 4);
                    let r = C::blind(&x, &mut ScriptRng::stream(5));
                    o.insert(format!("{p} blind"), r.as_ref().map(|r| hx(&r.message.serialize())).unwrap_or_else(|e| format!("{e:?} / {e}")));
                    if let Ok(r) = r {
                        let e = ev1!($mode, s, &mut ScriptRng::stream(6), &r.message, Some(&x));
                        o.insert(format!("{p} evaluate"), e.as_ref().map(|(m, p)| format!("{} {}", hx(&m.serialize()), hx(&p.serialize()))).unwrap_or_else(|e| format!("{e:?} / {e}")));
                        if let Ok((m, pf)) = e {
                            o.insert(format!("{p} finalize"), sh(&fin1!($mode, r.state, &x, &m, &pf, pk, Some(&x))));
                        }
                    }
                    o.insert(format!("{p} direct"), sh(&direct!($mode, s, &x, None)));
                    o.insert(format!("{p} direct-info"), sh(&direct!($mode, s, b"x", Some(&x))));
                    for (w, k) in [("seed", S::new_from_seed(&x, b"")), ("key-info", S::new_from_seed(b"s", &x))] {
                        o.insert(format!("{p} {w}"), k.map(|k| hx(&k.serialize())).unwrap_or_else(|e| format!("{e:?} / {e}")));
                    }
                });
            }
        }
        pub fn $emit(o: &mut Lines, seeds: u64, maxn: usize) {
            type C = voprf::$C<CS>;
            type S = voprf::$S<CS>;
            for seed in 0..seeds {
                let p = format!("{NAME} {} {seed}", stringify!($mode));
                chunk(o, &p.clone(), |o| {
                let mut rng = ScriptRng::stream(seed);
                let s0 = S::new(&mut rng).unwrap();
                blobs!(o, format!("{p} server-new"), &s0);
                let s = S::new_from_seed(&fill(32, seed), &fill(seed as usize % 40, 7)).unwrap();
                blobs!(o, format!("{p} server"), &s);
                let key = s.serialize()[..<<G as Group>::ScalarLen as generic_array::typenum::Unsigned>::USIZE].to_vec();
                let s2 = S::new_with_key(&key).unwrap();
                o.insert(format!("{p} server-with-key"), hx(&s2.serialize()));
                #[cfg(feature = "danger")]
                {
                    let k = voprf::derive_key::<CS>(&fill(32, seed), &fill(seed as usize % 40, 7), Mode::$mode).unwrap();
                    o.insert(format!("{p} derive-key"), hx(&G::serialize_scalar(k)));
                }
                let info: Option<B> = match seed % 3 {
                    0 => None,
                    1 => Some(vec![]),
                    _ => Some(fill(seed as usize, 8)),
                };
                let info = info.as_deref();
                for n in 0..=maxn {
                    let p = format!("{p} n{n}");
                    let inputs: Vec<B> = (0..n).map(|i| fill(i * 13 % 70, seed + i as u64)).collect();
                    let mut cs = vec![];
                    let mut bs = vec![];
                    for (i, x) in inputs.iter().enumerate() {
                        let r = C::blind(x, &mut rng).unwrap();
                        #[cfg(feature = "danger")]
                        {
                            let b = r.state.serialize()[..key.len()].to_vec();
                            let d = C::deterministic_blind_unchecked(x, G::deserialize_scalar(&b).unwrap()).unwrap();
                            o.insert(format!("{p} danger {i}"), hx(&[&d.state.serialize()[..], &d.message.serialize(), &G::serialize_elem(r.message.value())].concat()));
                        }
                        blobs!(o, format!("{p} client {i}"), &r.state);
                        blobs!(o, format!("{p} blinded {i}"), &r.message);
                        cs.push(r.state);
                        bs.push(r.message);
                    }
                    let rng0 = ScriptRng::stream(seed + 1000 + n as u64);
                    let mut r1 = rng0.clone();
                    let (ms, pf, ps) = match server_batch!($mode, s, &mut r1, bs, info) {
                        Ok(x) => x,
                        Err(e) => {
                            o.insert(format!("{p} batch"), format!("{e:?} / {e}"));
                            continue;
                        }
                    };
                    o.insert(format!("{p} rng"), format!("{:?}", r1.calls));
                    o.insert(format!("{p} messages"), ms.iter().map(|m| hx(m)).collect::<Vec<_>>().join(","));
                    o.insert(format!("{p} proof #bytes"), hx(&pf));
                    #[cfg(feature = "serde")]
                    for (i, x) in ps.iter().enumerate() {
                        o.insert(format!("{p} prepared {i} #json"), hx(&serde_json::to_vec(x).unwrap()));
                        o.insert(format!("{p} prepared {i} #bincode"), hx(&bincode::serialize(x).unwrap()));
                    }
                    #[cfg(feature = "alloc")]
                    {
                        let mut r2 = rng0.clone();
                        let r = alloc_batch!($mode, s, &mut r2, bs, info)
                            .map(|r| format!("{} {}", r.messages.iter().map(|m| hx(&m.serialize())).collect::<Vec<_>>().join(","), hx(&r.proof.serialize())));
                        o.insert(format!("{p} allocating"), r.unwrap_or_else(|e| format!("{e:?} / {e}")));
                        o.insert(format!("{p} allocating-rng"), format!("{:?}", r2.calls));
                    }
                    let es: Vec<voprf::EvaluationElement<CS>> = ms.iter().map(|m| voprf::EvaluationElement::deserialize(m).unwrap()).collect();
                    for (i, e) in es.iter().enumerate() {
                        blobs!(o, format!("{p} eval {i}"), e);
                    }
                    let proof = voprf::Proof::<CS>::deserialize(&pf).unwrap();
                    blobs!(o, format!("{p} proof"), &proof);
                    let pk = s.get_public_key();
                    let f = fin_batch!($mode, inputs, cs, es, &proof, pk, info);
                    o.insert(format!("{p} outputs"), f.unwrap_or_else(|e| format!("{e:?} / {e}")));
                    o.insert(format!("{p} direct"), inputs.iter().map(|x| sh(&direct!($mode, s, x, info))).collect::<Vec<_>>().join(","));
                    // refusals
                    let f = fin_batch!($mode, inputs, cs, es, &proof, s0.get_public_key(), info);
                    o.insert(format!("{p} wrong-key"), f.unwrap_or_else(|e| format!("{e:?} / {e}")));
                    if n > 0 {
                        let f = fin_batch!($mode, inputs[1..].to_vec(), cs, es, &proof, pk, info);
                        o.insert(format!("{p} fewer-inputs"), f.unwrap_or_else(|e| format!("{e:?} / {e}")));
                        let f = fin_batch!($mode, inputs, cs, es[1..].to_vec(), &proof, pk, info);
                        o.insert(format!("{p} fewer-evaluations"), f.unwrap_or_else(|e| format!("{e:?} / {e}")));
                        let f = fin_batch!($mode, inputs, cs[1..].to_vec(), es, &proof, pk, info);
                        o.insert(format!("{p} fewer-clients"), f.unwrap_or_else(|e| format!("{e:?} / {e}")));
                    }
                }
                });
            }
            // errors
            let p = format!("{NAME} {} errors", stringify!($mode));
            chunk(o, &p.clone(), |o| {
            let long = fill(65536, 1);
            let s = S::new_from_seed(b"s", b"").unwrap();
            o.insert(format!("{p} blind-long"), er(C::blind(&long, &mut ScriptRng::stream(1)).map(|_| ())));
            o.insert(format!("{p} seed-long"), er(S::new_from_seed(&long, b"").map(|_| ())));
            o.insert(format!("{p} info-long"), er(S::new_from_seed(b"s", &long).map(|_| ())));
            o.insert(format!("{p} direct-long"), sh(&direct!($mode, s, &long, None)));
            o.insert(format!("{p} direct-info-long"), sh(&direct!($mode, s, b"x", Some(&long))));
            o.insert(format!("{p} direct-max"), sh(&direct!($mode, s, &long[1..], Some(&long[1..]))));
            let n = s.serialize().len();
            for l in 0..n + 3 {
                for b in [vec![0; l], vec![0xFF; l], vec![1; l], fill(l, 3)] {
                    let k = format!("{} {}", l, hx(&b[..l.min(2)]));
                    o.insert(format!("{p} server-de {k}"), er(S::deserialize(&b).map(|_| ())));
                    o.insert(format!("{p} client-de {k}"), er(C::deserialize(&b).map(|_| ())));
                    o.insert(format!("{p} key {k}"), er(S::new_with_key(&b).map(|_| ())));
                    o.insert(format!("{p} proof-de {k}"), er(voprf::Proof::<CS>::deserialize(&b).map(|_| ())));
                    o.insert(format!("{p} blinded-de {k}"), er(voprf::BlindedElement::<CS>::deserialize(&b).map(|_| ())));
                    o.insert(format!("{p} eval-de {k}"), er(voprf::EvaluationElement::<CS>::deserialize(&b).map(|_| ())));
                }
            }
            });
        }
        /// continues the runs found in `l`; returns (continued, mismatches)
        pub fn $cont(l: &Lines, seeds: u64, maxn: usize, bad: &mut Vec<String>) -> u64 {
            type C = voprf::$C<CS>;
            type S = voprf::$S<CS>;
            let mut done = 0;
            for seed in 0..seeds {
                let p0 = format!("{NAME} {} {seed}", stringify!($mode));
                for f in ["bytes", "bincode", "json"] {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let bad = &mut *bad; let mut done = 0u64;
                    for _once in 0..1 {
                    let Some(s) = restore!(S, l, format!("{p0} server"), f) else { continue };
                    let s = match s {
                        Ok(s) => s,
                        Err(e) => {
                            bad.push(format!("{p0} server from {f}: {e}"));
                            continue;
                        }
                    };
                    let info: Option<B> = match seed % 3 {
                        0 => None,
                        1 => Some(vec![]),
                        _ => Some(fill(seed as usize, 8)),
                    };
                    let info = info.as_deref();
                    for n in 0..=maxn {
                        let p = format!("{p0} n{n}");
                        if !l.contains_key(&format!("{p} messages")) {
                            continue;
                        }
                        let inputs: Vec<B> = (0..n).map(|i| fill(i * 13 % 70, seed + i as u64)).collect();
                        let (mut cs, mut bs, mut es) = (vec![], vec![], vec![]);
                        let mut fails = vec![];
                        for i in 0..n {
                            match restore!(C, l, format!("{p} client {i}"), f) {
                                Some(Ok(x)) => cs.push(x),
                                x => fails.push(format!("client {i}: {}", x.map(|e| e.err().unwrap()).unwrap_or("missing".into()))),
                            }
                            match restore!(voprf::BlindedElement<CS>, l, format!("{p} blinded {i}"), f) {
                                Some(Ok(x)) => bs.push(x),
                                x => fails.push(format!("blinded {i}: {}", x.map(|e| e.err().unwrap()).unwrap_or("missing".into()))),
                            }
                            match restore!(voprf::EvaluationElement<CS>, l, format!("{p} eval {i}"), f) {
                                Some(Ok(x)) => es.push(x),
                                x => fails.push(format!("eval {i}: {}", x.map(|e| e.err().unwrap()).unwrap_or("missing".into()))),
                            }
                        }
                        let proof = match restore!(voprf::Proof<CS>, l, format!("{p} proof"), f) {
                            Some(Ok(x)) => Some(x),
                            x => {
                                fails.push(format!("proof: {}", x.map(|e| e.err().unwrap()).unwrap_or("missing".into())));
                                None
                            }
                        };
                        for x in &fails {
                            bad.push(format!("{p} from {f}: {x}"));
                        }
                        if !fails.is_empty() {
                            continue;
                        }
                        let mut r1 = ScriptRng::stream(seed + 1000 + n as u64);
                        match server_batch!($mode, s, &mut r1, bs, info) {
                            Err(e) => bad.push(format!("{p} from {f}: restored server fails with {e:?}")),
                            Ok((ms, pf, _)) => {
                                if l[&format!("{p} messages")] != ms.iter().map(|m| hx(m)).collect::<Vec<_>>().join(",") || l[&format!("{p} proof #bytes")] != hx(&pf) {
                                    bad.push(format!("{p} from {f}: the restored server continues differently"));
                                }
                            }
                        }
                        let r = fin_batch!($mode, inputs, cs, es, &proof.unwrap(), s.get_public_key(), info).unwrap_or_else(|e| format!("{e:?} / {e}"));
                        if r != l[&format!("{p} outputs")] {
                            bad.push(format!("{p} from {f}: the restored client outputs {r}, expected {}", l[&format!("{p} outputs")]));
                        }
                        done += 1;
                    }
                    }
                    done }));
                    match r {
                        Ok(n) => done += n,
                        Err(_) => bad.push(format!("{p0} from {f}: panic")),
                    }
                }
            }
            done
        }
    };
}
fn chunk(o: &mut Lines, p: &str, f: impl FnOnce(&mut Lines)) {
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(o))).is_err() {
        o.insert(format!("{p} panic"), "yes".into());
    }
}

macro_rules! suite {
    ($m:ident, $cs:ty, $name:expr, $seeds:expr, $maxn:expr) => {
        mod $m {
            use super::*;
            pub type CS = $cs;
            pub type G = <CS as CipherSuite>::Group;
            pub const NAME: &str = $name;
            verifiable!(Voprf, VoprfClient, VoprfServer, emit_v, cont_v, sweep_v);
            verifiable!(Poprf, PoprfClient, PoprfServer, emit_p, cont_p, sweep_p);
            /// boundary scalars: small ones, powers of two and neighbours, their negatives and inverses, a generic one
            fn scalars(step: usize) -> Vec<<G as Group>::Scalar> {
                let g = G::hash_to_scalar::<<CS as CipherSuite>::Hash>(&[b"generic"], &[b"probe"]).unwrap();
                let one = G::invert_scalar(g) * &g;
                let bits = <<G as Group>::ScalarLen as generic_array::typenum::Unsigned>::USIZE * 8 - 1;
                let mut v = vec![one, one + &one, one + &one + &one, g, g + &one];
                let mut p = one;
                for i in 1..bits {
                    p = p + &p;
                    if i % step == step - 1 {
                        v.extend([p, p + &one, p - &one]);
                    }
                }
                for i in 0..v.len() {
                    let m = (v[i] - &v[i]) - &v[i];
                    v.push(m);
                    if !bool::from(G::is_zero_scalar(v[i])) {
                        v.push(G::invert_scalar(v[i]));
                    }
                }
                let mut seen = std::collections::BTreeSet::new();
                v.retain(|x| !bool::from(G::is_zero_scalar(*x)) && seen.insert(G::serialize_scalar(*x).to_vec()));
                v
            }
            pub fn extremes(o: &mut Lines, step: usize) {
                type E = voprf::EvaluationElement<CS>;
                type Bl = voprf::BlindedElement<CS>;
                let ks = scalars(step);
                let es: Vec<B> = [0, 1, 3].iter().map(|i| G::serialize_elem(G::base_elem() * &ks[*i]).to_vec()).chain([G::serialize_elem(G::base_elem() * &ks[ks.len() / 2]).to_vec()]).collect();
                for (i, k) in ks.iter().enumerate() {
                    let kb = G::serialize_scalar(*k).to_vec();
                    let pb = G::serialize_elem(G::base_elem() * k).to_vec();
                    let p = format!("{NAME} scalar {i}");
                    chunk(o, &p.clone(), |o| {
                        // as a key
                        let so = voprf::OprfServer::<CS>::new_with_key(&kb);
                        o.insert(format!("{p} Oprf server"), so.as_ref().map(|s| hx(&s.serialize())).unwrap_or_else(|e| format!("{e:?} / {e}")));
                        let sv = voprf::VoprfServer::<CS>::new_with_key(&kb);
                        o.insert(format!("{p} Voprf server"), sv.as_ref().map(|s| format!("{} {}", hx(&s.serialize()), hx(&G::serialize_elem(s.get_public_key())))).unwrap_or_else(|e| format!("{e:?} / {e}")));
                        let sp = voprf::PoprfServer::<CS>::new_with_key(&kb);
                        o.insert(format!("{p} Poprf server"), sp.as_ref().map(|s| format!("{} {}", hx(&s.serialize()), hx(&G::serialize_elem(s.get_public_key())))).unwrap_or_else(|e| format!("{e:?} / {e}")));
                        if let Ok(s) = &so {
                            o.insert(format!("{p} Oprf direct"), sh(&s.evaluate(b"x")));
                        }
                        if let Ok(s) = &sv {
                            o.insert(format!("{p} Voprf direct"), sh(&s.evaluate(b"x")));
                        }
                        if let Ok(s) = &sp {
                            o.insert(format!("{p} Poprf direct"), sh(&s.evaluate(b"x", Some(b"info"))));
                        }
                        for (j, e) in es.iter().enumerate() {
                            let b = Bl::deserialize(e).unwrap();
                            let rng = ScriptRng::with_tail(kb.clone(), 3);
                            if let Ok(s) = &so {
                                o.insert(format!("{p} Oprf eval {j}"), hx(&s.blind_evaluate(&b).serialize()));
                            }
                            if let Ok(s) = &sv {
                                let r = s.blind_evaluate(&mut rng.clone(), &b);
                                o.insert(format!("{p} Voprf eval {j}"), hx(&[&r.message.serialize()[..], &r.proof.serialize()].concat()));
                            }
                            if let Ok(s) = &sp {
                                for (w, info) in [("none", None), ("empty", Some(&b""[..])), ("some", Some(b"info"))] {
                                    let r = s.blind_evaluate(&mut rng.clone(), &b, info);
                                    o.insert(format!("{p} Poprf eval {j} {w}"), r.map(|r| hx(&[&r.message.serialize()[..], &r.proof.serialize()].concat())).unwrap_or_else(|e| format!("{e:?} / {e}")));
                                }
                            }
                        }
                        // as a blind
                        let co = voprf::OprfClient::<CS>::deserialize(&kb);
                        o.insert(format!("{p} Oprf client"), co.as_ref().map(|c| hx(&c.serialize())).unwrap_or_else(|e| format!("{e:?} / {e}")));
                        if let Ok(c) = &co {
                            for (j, e) in es.iter().enumerate() {
                                o.insert(format!("{p} Oprf finalize {j}"), sh(&c.finalize(b"x", &E::deserialize(e).unwrap())));
                            }
                        }
                        let st = [&kb[..], &pb].concat();
                        let s1 = voprf::VoprfServer::<CS>::new_from_seed(b"other", b"").unwrap();
                        let s2 = voprf::PoprfServer::<CS>::new_from_seed(b"other", b"").unwrap();
                        let b = Bl::deserialize(&pb).unwrap();
                        let c = voprf::VoprfClient::<CS>::deserialize(&st);
                        o.insert(format!("{p} Voprf client"), c.as_ref().map(|c| hx(&c.serialize())).unwrap_or_else(|e| format!("{e:?} / {e}")));
                        if let Ok(c) = c {
                            let r = s1.blind_evaluate(&mut ScriptRng::stream(8), &b);
                            o.insert(format!("{p} Voprf finalize"), sh(&c.finalize(b"x", &r.message, &r.proof, s1.get_public_key())));
                            o.insert(format!("{p} Voprf finalize other"), sh(&c.finalize(b"x", &E::deserialize(&es[1]).unwrap(), &r.proof, s1.get_public_key())));
                        }
                        let c = voprf::PoprfClient::<CS>::deserialize(&st);
                        o.insert(format!("{p} Poprf client"), c.as_ref().map(|c| hx(&c.serialize())).unwrap_or_else(|e| format!("{e:?} / {e}")));
                        if let Ok(c) = c {
                            let r = s2.blind_evaluate(&mut ScriptRng::stream(8), &b, None).unwrap();
                            o.insert(format!("{p} Poprf finalize"), sh(&c.finalize(b"x", &r.message, &r.proof, s2.get_public_key(), None)));
                            o.insert(format!("{p} Poprf finalize other"), sh(&c.finalize(b"x", &r.message, &r.proof, s2.get_public_key(), Some(b"i"))));
                            o.insert(format!("{p} Poprf key"), sh(&c.finalize(b"x", &r.message, &r.proof, G::base_elem() * k, None)));
                        }
                        // from the RNG, alone and after zeros
                        for (w, d) in [("alone", kb.clone()), ("after-zeros", [vec![0; kb.len()], kb.clone()].concat()), ("after-ones", [vec![0xFF; kb.len()], kb.clone()].concat())] {
                            let mut rng = ScriptRng::with_tail(d, 4);
                            let r = voprf::OprfClient::<CS>::blind(b"x", &mut rng).unwrap();
                            o.insert(format!("{p} Oprf rng {w}"), format!("{} {:?}", hx(&[&r.state.serialize()[..], &r.message.serialize()].concat()), rng.calls));
                            rng.pos = 0;
                            o.insert(format!("{p} Oprf rng server {w}"), voprf::OprfServer::<CS>::new(&mut rng).map(|s| hx(&s.serialize())).unwrap_or_else(|e| format!("{e:?} / {e}")));
                        }
                        #[cfg(feature = "danger")]
                        {
                            let a = voprf::OprfClient::<CS>::deterministic_blind_unchecked(b"x", *k).map(|r| hx(&[&r.state.serialize()[..], &r.message.serialize()].concat()));
                            o.insert(format!("{p} Oprf danger"), a.unwrap_or_else(|e| format!("{e:?} / {e}")));
                            let a = voprf::VoprfClient::<CS>::deterministic_blind_unchecked(b"x", *k).map(|r| hx(&[&r.state.serialize()[..], &r.message.serialize()].concat()));
                            o.insert(format!("{p} Voprf danger"), a.unwrap_or_else(|e| format!("{e:?} / {e}")));
                            let a = voprf::PoprfClient::<CS>::deterministic_blind_unchecked(b"x", *k).map(|r| hx(&[&r.state.serialize()[..], &r.message.serialize()].concat()));
                            o.insert(format!("{p} Poprf danger"), a.unwrap_or_else(|e| format!("{e:?} / {e}")));
                        }
                    });
                }
                // neighbours of valid encodings
                let p = format!("{NAME} neighbours");
                chunk(o, &p.clone(), |o| {
                    let (k, e) = (G::serialize_scalar(ks[3]).to_vec(), es[2].clone());
                    let mut t = String::new();
                    for (w, x) in [("scalar", &k), ("element", &e)] {
                        for i in 0..x.len() * 8 {
                            let mut y = x.clone();
                            y[i / 8] ^= 1 << (i % 8);
                            let r = if w == "scalar" {
                                #[cfg(feature = "serde")]
                                o.insert(format!("{p} serde {w} {i}"), bincode::deserialize::<voprf::OprfServer<CS>>(&y).map(|s| hx(&s.serialize())).unwrap_or_else(|e| e.to_string()));
                                [voprf::OprfServer::<CS>::new_with_key(&y).map(|s| s.serialize().to_vec()), voprf::OprfClient::<CS>::deserialize(&y).map(|s| s.serialize().to_vec())]
                            } else {
                                #[cfg(feature = "serde")]
                                o.insert(format!("{p} serde {w} {i}"), bincode::deserialize::<Bl>(&y).map(|s| hx(&s.serialize())).unwrap_or_else(|e| e.to_string()));
                                [Bl::deserialize(&y).map(|s| s.serialize().to_vec()), E::deserialize(&y).map(|s| s.serialize().to_vec())]
                            };
                            o.insert(format!("{p} {w} {i}"), r.iter().map(sh).collect::<Vec<_>>().join(" "));
                        }
                    }
                    t.clear();
                });
            }
            pub fn emit_o(o: &mut Lines, seeds: u64) {
                for seed in 0..seeds {
                    let p = format!("{NAME} Oprf {seed}");
                    chunk(o, &p.clone(), |o| {
                    let mut rng = ScriptRng::stream(seed);
                    let s0 = voprf::OprfServer::<CS>::new(&mut rng).unwrap();
                    blobs!(o, format!("{p} server-new"), &s0);
                    let s = voprf::OprfServer::<CS>::new_from_seed(&fill(32, seed), &fill(seed as usize % 40, 7)).unwrap();
                    blobs!(o, format!("{p} server"), &s);
                    let x = fill(seed as usize * 9 % 100, seed);
                    let r = voprf::OprfClient::<CS>::blind(&x, &mut rng).unwrap();
                    blobs!(o, format!("{p} client"), &r.state);
                    blobs!(o, format!("{p} blinded"), &r.message);
                    let e = s.blind_evaluate(&r.message);
                    blobs!(o, format!("{p} eval"), &e);
                    o.insert(format!("{p} output"), sh(&r.state.finalize(&x, &e)));
                    o.insert(format!("{p} direct"), sh(&s.evaluate(&x)));
                    o.insert(format!("{p} long"), sh(&s.evaluate(&fill(65536, 1))));
                    o.insert(format!("{p} long-finalize"), sh(&r.state.finalize(&fill(65536, 1), &e)));
                    o.insert(format!("{p} max"), sh(&s.evaluate(&fill(65535, 1))));
                    // the group trait
                    let d = fill(1 + seed as usize * 50 % 400, 3);
                    let h = G::hash_to_curve::<<CS as CipherSuite>::Hash>(&[&x, b"z"], &[&d]).unwrap();
                    o.insert(format!("{p} h2c"), hx(&G::serialize_elem(h)));
                    let h = G::hash_to_scalar::<<CS as CipherSuite>::Hash>(&[&x, b"z"], &[&d]).unwrap();
                    o.insert(format!("{p} h2s"), hx(&G::serialize_scalar(h)));
                    o.insert(format!("{p} random"), hx(&G::serialize_scalar(G::random_scalar(&mut rng))));
                    });
                }
            }
            /// base mode: every length as input, seed and key info, on both client paths
            pub fn sweep_o(o: &mut Lines, lens: &[usize]) {
                type C = voprf::OprfClient<CS>;
                type S = voprf::OprfServer<CS>;
                let s = S::new_from_seed(b"sweep", b"").unwrap();
                let p = format!("{NAME} Oprf sweep");
                for &n in lens {
                    let p = format!("{p} length {n}");
                    chunk(o, &p.clone(), |o| {
                        let x = fill(n, 4);
                        let r = C::blind(&x, &mut ScriptRng::stream(5));
                        o.insert(format!("{p} blind"), r.as_ref().map(|r| hx(&[&r.state.serialize()[..], &r.message.serialize()].concat())).unwrap_or_else(|e| format!("{e:?} / {e}")));
                        if let Ok(r) = r {
                            let e = s.blind_evaluate(&r.message);
                            o.insert(format!("{p} evaluate"), hx(&e.serialize()));
                            o.insert(format!("{p} finalize"), sh(&r.state.finalize(&x, &e)));
                        }
                        let r = C::blind(b"x", &mut ScriptRng::stream(5)).unwrap();
                        o.insert(format!("{p} finalize-other"), sh(&r.state.finalize(&x, &s.blind_evaluate(&r.message))));
                        o.insert(format!("{p} direct"), sh(&s.evaluate(&x)));
                        for (w, k) in [("seed", S::new_from_seed(&x, b"")), ("key-info", S::new_from_seed(b"s", &x))] {
                            o.insert(format!("{p} {w}"), k.map(|k| hx(&k.serialize())).unwrap_or_else(|e| format!("{e:?} / {e}")));
                        }
                        #[cfg(feature = "danger")]
                        {
                            let k = G::hash_to_scalar::<<CS as CipherSuite>::Hash>(&[b"generic"], &[b"probe"]).unwrap();
                            let a = C::deterministic_blind_unchecked(&x, k).map(|r| hx(&r.message.serialize()));
                            let b = voprf::VoprfClient::<CS>::deterministic_blind_unchecked(&x, k).map(|r| hx(&r.message.serialize()));
                            let c = voprf::PoprfClient::<CS>::deterministic_blind_unchecked(&x, k).map(|r| hx(&r.message.serialize()));
                            o.insert(format!("{p} danger"), format!("{} {} {}", sh(&a), sh(&b), sh(&c)));
                            for m in [Mode::Oprf, Mode::Voprf, Mode::Poprf] {
                                let a = voprf::derive_key::<CS>(&x, b"i", m).map(G::serialize_scalar);
                                let b = voprf::derive_key::<CS>(b"s", &x, m).map(G::serialize_scalar);
                                o.insert(format!("{p} danger derive {m:?}"), format!("{} {}", sh(&a), sh(&b)));
                            }
                        }
                    });
                }
            }
            /// what is left in memory of each secret after a drop
            pub fn wiped(o: &mut Lines) {
                fn left<T>(x: T) -> String {
                    let mut b = Box::new(core::mem::ManuallyDrop::new(x));
                    let n = core::mem::size_of::<T>();
                    let p = &mut *b as *mut core::mem::ManuallyDrop<T> as *mut u8;
                    let read = |p: *mut u8| (0..n).map(|i| unsafe { core::ptr::read_volatile(p.add(i)) }).collect::<Vec<u8>>();
                    let before = read(p);
                    unsafe { core::mem::ManuallyDrop::drop(&mut b) };
                    let after = read(p);
                    let kept = (0..n).filter(|i| before[*i] != 0 && before[*i] == after[*i]).count();
                    format!("{kept} of {} bytes left", before.iter().filter(|x| **x != 0).count())
                }
                let mut rng = ScriptRng::stream(77);
                let c = voprf::OprfClient::<CS>::blind(b"x", &mut rng).unwrap().state;
                o.insert(format!("{NAME} wiped OprfClient"), left(c));
                let c = voprf::VoprfClient::<CS>::blind(b"x", &mut rng).unwrap().state;
                o.insert(format!("{NAME} wiped VoprfClient"), left(c));
                let c = voprf::PoprfClient::<CS>::blind(b"x", &mut rng).unwrap().state;
                o.insert(format!("{NAME} wiped PoprfClient"), left(c));
                o.insert(format!("{NAME} wiped OprfServer"), left(voprf::OprfServer::<CS>::new_from_seed(b"s", b"").unwrap()));
                let s = voprf::VoprfServer::<CS>::new_from_seed(b"s", b"").unwrap();
                let k = s.clone();
                o.insert(format!("{NAME} wiped VoprfServer"), left(s));
                let b = voprf::VoprfClient::<CS>::blind(b"x", &mut rng).unwrap().message;
                let r = k.blind_evaluate(&mut rng, &b);
                o.insert(format!("{NAME} wiped Proof"), left(r.proof));
                let s = voprf::PoprfServer::<CS>::new_from_seed(b"s", b"").unwrap();
                #[cfg(feature = "big")]
                {
                    let bs = [b];
                    if let Ok(r) = s.batch_blind_evaluate_prepare(bs.iter(), Some(b"i")) {
                        o.insert(format!("{NAME} wiped PoprfPreparedTweak"), left(r.prepared_tweak));
                    };
                }
                o.insert(format!("{NAME} wiped PoprfServer"), left(s));
            }
            pub fn cont_o(l: &Lines, seeds: u64, bad: &mut Vec<String>) -> u64 {
                let mut done = 0;
                for seed in 0..seeds {
                    let p = format!("{NAME} Oprf {seed}");
                    let x = fill(seed as usize * 9 % 100, seed);
                    for f in ["bytes", "bincode", "json"] {
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let bad = &mut *bad; let mut done = 0u64;
                        let s = restore!(voprf::OprfServer<CS>, l, format!("{p} server"), f);
                        let c = restore!(voprf::OprfClient<CS>, l, format!("{p} client"), f);
                        let b = restore!(voprf::BlindedElement<CS>, l, format!("{p} blinded"), f);
                        let e = restore!(voprf::EvaluationElement<CS>, l, format!("{p} eval"), f);
                        match (s, c, b, e) {
                            (None, None, None, None) => {}
                            (Some(Ok(s)), Some(Ok(c)), Some(Ok(b)), Some(Ok(e))) => {
                                if hx(&s.blind_evaluate(&b).serialize()) != l[&format!("{p} eval #bytes")] {
                                    bad.push(format!("{p} from {f}: the restored server evaluates differently"));
                                }
                                if sh(&c.finalize(&x, &e)) != l[&format!("{p} output")] {
                                    bad.push(format!("{p} from {f}: the restored client outputs something else"));
                                }
                                done += 1;
                            }
                            (s, c, b, e) => bad.push(format!(
                                "{p} from {f}: server {:?} client {:?} blinded {:?} eval {:?}",
                                s.map(|x| x.err()), c.map(|x| x.err()), b.map(|x| x.err()), e.map(|x| x.err())
                            )),
                        }
                        done }));
                        match r {
                            Ok(n) => done += n,
                            Err(_) => bad.push(format!("{p} from {f}: panic")),
                        }
                    }
                }
                done
            }
            pub fn emit(o: &mut Lines) {
                emit_o(o, $seeds);
                emit_v(o, $seeds, $maxn);
                emit_p(o, $seeds, $maxn);
                let toy = NAME == "toy61";
                let big = cfg!(feature = "big");
                let mut sizes: Vec<usize> = vec![5, 8];
                let mut lens = edges(7, 16);
                if toy {
                    sizes = (0..if big { 300 } else { 40 }).collect();
                    sizes.extend(edges(6, if big { 16 } else { 12 }));
                    sizes.extend([65535, 65536]);
                    lens.extend(0..if big { 5000 } else { 300 });
                }
                sweep_o(o, &lens);
                wiped(o);
                sweep_v(o, &sizes, &lens);
                sweep_p(o, &sizes, &lens);
                extremes(o, if toy { 2 } else if big { 8 } else { 85 });
            }
            pub fn cont(l: &Lines, bad: &mut Vec<String>) -> u64 {
                cont_o(l, $seeds, bad) + cont_v(l, $seeds, $maxn, bad) + cont_p(l, $seeds, $maxn, bad)
            }
        }
    };
}
suite!(toy61, toy::T61, "toy61", if cfg!(feature = "big") { 40 } else { 10 }, if cfg!(feature = "big") { 8 } else { 4 });
suite!(np256, p256::NistP256, "P256", 3, 3);
#[cfg(feature = "big")]
suite!(np384, p384::NistP384, "P384", 2, 2);
#[cfg(feature = "big")]
suite!(np521, p521::NistP521, "P521", 2, 2);
#[cfg(feature = "ristretto255-ciphersuite")]
suite!(rist, voprf::Ristretto255, "ristretto255", 3, 3);
#[cfg(all(feature = "ristretto255", not(feature = "ristretto255-ciphersuite")))]
suite!(rist, RistCs, "ristretto255", 3, 3);

#[cfg(feature = "std")]
fn is_std_error<T: std::error::Error>() {}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    #[cfg(feature = "std")]
    is_std_error::<Error>();
    let args: Vec<String> = std::env::args().collect();
    if args[1] == "emit" {
        let mut o = Lines::new();
        toy61::emit(&mut o);
        np256::emit(&mut o);
        #[cfg(feature = "big")]
        {
            np384::emit(&mut o);
            np521::emit(&mut o);
        }
        #[cfg(feature = "ristretto255")]
        rist::emit(&mut o);
        let mut t = String::new();
        for (k, v) in &o {
            t.push_str(&format!("{k}\t{}\n", v.replace('\n', " ")));
        }
        std::fs::write(&args[2], t).unwrap();
        return;
    }
    for f in &args[2..] {
        let t = std::fs::read_to_string(f).unwrap();
        let l: Lines = t.lines().map(|x| x.split_once('\t').unwrap()).map(|(a, b)| (a.to_string(), b.to_string())).collect();
        let mut bad = vec![];
        let mut done = toy61::cont(&l, &mut bad) + np256::cont(&l, &mut bad);
        #[cfg(feature = "big")]
        {
            done += np384::cont(&l, &mut bad) + np521::cont(&l, &mut bad);
        }
        #[cfg(feature = "ristretto255")]
        {
            done += rist::cont(&l, &mut bad);
        }
        println!("FILE {f}");
        println!("CONTINUED {done}");
        for b in &bad {
            println!("BAD {b}");
        }
    }
}
