//! Verifiability kernels: C05 (tampering) and C06 (hostile network).
use std::collections::{BTreeSet, HashMap, HashSet, VecDeque};

use crate::api::*;
use crate::engine::*;
use crate::h::*;
use crate::spec::*;
use crate::suites::*;
use crate::toy::{self, ScriptRng, QK};
use crate::{chk, fail};

fn mk_client(a: A, m: Md, blind: &[u8], bl: &[u8]) -> Result<Obj, Viol> {
    er(a.de(client_kind(m), &[blind, bl].concat()), "restoring a client")
}
fn mk_proof(a: A, c: &[u8], s: &[u8]) -> R<Obj> {
    a.de(Kind::Proof, &[c, s].concat())
}

/// Reference verdict for a client batch.
fn reference(a: A, m: Md, blinds: &[B], bls: &[B], evs: &[B], inputs: &[B], proof: &[u8], pk: &[u8], info: Option<&[u8]>) -> R<Vec<B>> {
    let s = a.spec();
    s.client_verify(pk, bls, evs, info, proof, m)?;
    let mut o = vec![];
    for i in 0..evs.len() {
        o.push(s.out(&inputs[i], info, &s.mul(&evs[i], &s.sinv(&blinds[i])), m)?);
    }
    Ok(o)
}

fn compare(what: &str, got: R<Vec<R<B>>>, want: R<Vec<B>>) -> Res {
    match (got, want) {
        (Ok(g), Ok(w)) => {
            let g: Vec<B> = g.into_iter().collect::<R<Vec<B>>>().map_err(|e| Viol(format!("{what}: accepted but an output failed: {e:?}")))?;
            chk!(g == w, "{what}: accepted, but the outputs differ from the reference");
            Ok(())
        }
        (Err(e), Err(w)) => {
            chk!(e == w, "{what}: rejected with {e:?}, documented error is {w:?}");
            Ok(())
        }
        (Ok(_), Err(w)) => fail!("{what}: the client produced an output although the RFC verifier rejects ({w:?})"),
        (Err(e), Ok(_)) => fail!("{what}: the client rejects ({e:?}) although the RFC verifier accepts"),
    }
}

/// Tiny groups: every (blinded, evaluated, c, s, pk, info scalar) for batches of one or two.
pub fn sound_toy(ctx: &mut Ctx) -> Res {
    let n = 1 + ctx.choose("n", 2);
    let gs: &[A] = match (n, ctx.thorough()) {
        (1, false) => &TOYS[..3],
        (1, true) => &TOYS[..4],
        (_, false) => &TOYS[..2],
        (_, true) => &TOYS[..3],
    };
    let a = *ctx.pick("group", gs);
    let q = q(a) as usize;
    let m = *ctx.pick("mode", &VER);
    let (s, one) = (a.spec(), sc(a, 1));
    let mul = |k: u64| toy::enc_e(k, s.ne());
    let info = if m == Md::Poprf {
        let t = ctx.choose("hinfo", q) as u64;
        pin_info(a, b"i", t);
        Some(b"i".to_vec())
    } else {
        None
    };
    let pk = mul(ctx.choose("pk", q) as u64);
    let c = sc(a, 1 + ctx.choose("c", q - 1) as u64);
    let z = sc(a, 1 + ctx.choose("s", q - 1) as u64);
    let proof = er(mk_proof(a, &c, &z), "decoding a proof")?;
    // the innermost values are looped over instead of chosen, to keep executions coarse
    let first = 1 + ctx.choose("C0", q - 1) as u64;
    let rest = if n == 2 { q } else { 1 };
    let mut acc = 0;
    for d0 in 0..q {
        for c1 in (if n == 2 { 1 } else { 0 })..rest {
            for d1 in 0..rest {
                let (bls, evs): (Vec<B>, Vec<B>) = if n == 1 {
                    (vec![mul(first)], vec![mul(d0 as u64)])
                } else {
                    (vec![mul(first), mul(c1 as u64)], vec![mul(d0 as u64), mul(d1 as u64)])
                };
                let blinds = vec![one.clone(); n];
                let inputs: Vec<B> = (0..n).map(|i| vec![i as u8]).collect();
                let cl: Vec<Obj> = bls.iter().map(|b| mk_client(a, m, &one, b)).collect::<Result<_, _>>()?;
                let ev: Vec<Obj> = evs.iter().map(|e| a.raw_eval(e)).collect();
                let pb = [c.clone(), z.clone()].concat();
                let want = reference(a, m, &blinds, &bls, &evs, &inputs, &pb, &pk, info.as_deref());
                let got = if n == 1 {
                    a.finalize(&cl[0], &inputs[0], &ev[0], Some(&proof), Some(&pk), info.as_deref()).map(|o| vec![Ok(o)])
                } else {
                    a.batch_finalize(m, &inputs, &refs(&cl), &refs(&ev), &proof, &pk, info.as_deref(), Coll::Vec, Drain::All)
                };
                ctx.op(1);
                acc += want.is_ok() as u64;
                let what = format!("{} {} pk={} C={:?} D={:?} c={} s={}", a.name(), m.name(), hexs(&pk),
                    bls.iter().map(|b| hexs(b)).collect::<Vec<_>>(), evs.iter().map(|b| hexs(b)).collect::<Vec<_>>(), hexs(&c), hexs(&z));
                ctx.state(&(a.name(), m, &pk, &bls, &evs, &c, &z, info.is_some()));
                compare(&what, got, want)?;
            }
        }
    }
    ctx.outcome(if acc > 0 { "some accepted" } else { "all rejected" });
    Ok(())
}

/// A transcript as seen by a verifying client, in bytes.
#[derive(Clone)]
struct T {
    m: Md,
    inputs: Vec<B>,
    blinds: Vec<B>,
    bls: Vec<B>,
    evs: Vec<B>,
    c: B,
    s: B,
    pk: B,
    info: Option<B>,
}

fn honest(ctx: &mut Ctx, a: A, m: Md, n: usize, key: u64, info: Option<&[u8]>, seed: u64) -> Result<T, Viol> {
    let inputs = batch_inputs(n, 0);
    let sk = rs(a, key);
    let mut rng = ScriptRng::stream(1234);
    let server = er(a.server_with_key(m, &sk), "server")?;
    let (clients, bls) = blind_all(ctx, a, m, &inputs, &mut rng)?;
    let b = er(eval_batch(ctx, a, &server, &bls, info, true, Coll::Vec, &mut ScriptRng::stream(seed)), "batch")?;
    let ns = a.spec().ns();
    let p = a.ser(&b.proof);
    Ok(T {
        m,
        inputs,
        blinds: clients.iter().map(|c| a.ser(c)[..ns].to_vec()).collect(),
        bls: bls.iter().map(|x| a.ser(x)).collect(),
        evs: b.msgs.iter().map(|x| a.ser(x)).collect(),
        c: p[..ns].to_vec(),
        s: p[ns..].to_vec(),
        pk: a.server_pk(&server).unwrap(),
        info: info.map(|i| i.to_vec()),
    })
}

/// Hands a transcript to the implementation and compares with the reference verdict.
fn judge(ctx: &mut Ctx, a: A, t: &T, what: &str) -> Result<bool, Viol> {
    let info = t.info.as_deref();
    let cl: Vec<Obj> = (0..t.bls.len()).map(|i| mk_client(a, t.m, &t.blinds[i], &t.bls[i])).collect::<Result<_, _>>()?;
    let ev: Vec<Obj> = t.evs.iter().map(|e| a.raw_eval(e)).collect();
    let Ok(p) = mk_proof(a, &t.c, &t.s) else {
        ctx.outcome("proof not decodable");
        return Ok(false);
    };
    let want = reference(a, t.m, &t.blinds, &t.bls, &t.evs, &t.inputs, &[t.c.clone(), t.s.clone()].concat(), &t.pk, info);
    let got = a.batch_finalize(t.m, &t.inputs, &refs(&cl), &refs(&ev), &p, &t.pk, info, Coll::Vec, Drain::All);
    ctx.op(1);
    ctx.note(|| format!("{} {} {what}: {:?}", a.name(), t.m.name(), got.as_ref().map(|v| v.len())));
    let ok = want.is_ok();
    if t.bls.len() == 1 {
        let one = a.finalize(&cl[0], &t.inputs[0], &ev[0], Some(&p), Some(&t.pk), info).map(|o| vec![Ok(o)]);
        compare(&format!("{} {} single {what}", a.name(), t.m.name()), one, want.clone())?;
        ctx.op(1);
    }
    ctx.state(&(a.name(), t.m, &t.bls, &t.evs, &t.c, &t.s, &t.pk, &t.info));
    compare(&format!("{} {} batch of {} {what}", a.name(), t.m.name(), t.bls.len()), got, want)?;
    ctx.outcome(&format!("{} {}", what.split(' ').next().unwrap_or(""), if ok { "accepted" } else { "rejected" }));
    Ok(ok)
}

/// One tampering step, chosen from the complete alphabet. Returns its name.
fn tamper(ctx: &mut Ctx, a: A, t: &mut T, other: &[T]) -> String {
    let s = a.spec();
    let n = t.evs.len();
    let neg = neg1(a);
    match ctx.choose("tamper", 9) {
        0 => {
            let i = ctx.choose("i", n);
            let d = t.evs[i].clone();
            let k = ctx.choose("ev", 8);
            t.evs[i] = match k {
                0 => t.bls[i].clone(),
                1 => s.base(),
                2 => s.mul(&d, &neg),
                3 => s.add(&d, &d),
                4 => s.add(&d, &s.base()),
                5 => s.add(&d, &t.bls[i]),
                6 => s.mul(&t.bls[i], &rs(a, 600)),
                _ => s.identity(),
            };
            format!("eval[{i}]:={k}")
        }
        1 => {
            let (i, j) = (ctx.choose("i", n), ctx.choose("j", n));
            t.evs.swap(i, j);
            format!("swap-evals {i},{j}")
        }
        2 => {
            let (i, j) = (ctx.choose("i", n), ctx.choose("j", n));
            t.bls.swap(i, j);
            t.blinds.swap(i, j);
            format!("swap-clients {i},{j}")
        }
        3 => {
            let k = ctx.choose("c", 6);
            let o = t.c.clone();
            t.c = match k {
                0 => s.sadd(&o, &s.one()),
                1 => s.smul(&o, &neg),
                2 => t.s.clone(),
                3 => s.one(),
                4 => rs(a, 601),
                _ => std::mem::replace(&mut t.s, o),
            };
            format!("c:={k}")
        }
        4 => {
            let k = ctx.choose("s", 5);
            let o = t.s.clone();
            t.s = match k {
                0 => s.sadd(&o, &s.one()),
                1 => s.smul(&o, &neg),
                2 => t.c.clone(),
                3 => s.one(),
                _ => rs(a, 602),
            };
            format!("s:={k}")
        }
        5 => {
            let k = ctx.choose("pk", 6);
            t.pk = match k {
                0 => s.mul(&s.base(), &rs(a, 603)),
                1 => s.mul(&t.pk, &neg),
                2 => s.base(),
                3 => s.add(&t.pk, &s.base()),
                4 => s.identity(),
                _ => t.evs[0].clone(),
            };
            format!("pk:={k}")
        }
        6 => {
            // proof from another honest transcript
            let k = ctx.choose("proof-of", other.len());
            t.c = other[k].c.clone();
            t.s = other[k].s.clone();
            format!("proof-of {k}")
        }
        7 => {
            let k = ctx.choose("evals-of", other.len());
            let o = &other[k];
            for i in 0..n.min(o.evs.len()) {
                t.evs[i] = o.evs[i].clone();
            }
            format!("evals-of {k}")
        }
        _ => {
            if t.m == Md::Poprf {
                let k = ctx.choose("info", 5);
                t.info = [None, Some(vec![]), Some(b"info2".to_vec()), Some(b"inf".to_vec()), Some(b"info\0".to_vec())][k].clone();
                format!("info:={k}")
            } else {
                // drop the last item consistently
                t.evs.pop();
                t.bls.pop();
                t.blinds.pop();
                t.inputs.pop();
                "drop-last".into()
            }
        }
    }
}

pub fn sound_tamper(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &BIGS);
    let m = *ctx.pick("mode", &VER);
    let n = 1 + ctx.choose("n", ctx.tiered(3, 4));
    let depth = if n <= ctx.tiered(2, 3) { 2 } else { 1 };
    let info: Option<B> = if m == Md::Poprf { Some(b"info".to_vec()) } else { None };
    let mut t = honest(ctx, a, m, n, 500, info.as_deref(), 1)?;
    let om = if m == Md::Voprf { Md::Poprf } else { Md::Voprf };
    let oinfo: Option<&[u8]> = if om == Md::Poprf { Some(b"") } else { None };
    let other = vec![
        honest(ctx, a, m, n, 500, info.as_deref(), 2)?, // same statement, other nonce: valid
        honest(ctx, a, m, n, 501, info.as_deref(), 1)?, // other key
        honest(ctx, a, m, n + 1, 500, info.as_deref(), 1)?, // other batch
        honest(ctx, a, om, n, 500, oinfo, 1)?,          // other mode
        honest(ctx, a, m, n, 500, if m == Md::Poprf { Some(b"info2") } else { None }, 3)?,
    ];
    let mut names = vec![];
    let steps = ctx.choose("steps", depth + 1);
    for _ in 0..steps {
        if t.evs.is_empty() {
            break;
        }
        names.push(tamper(ctx, a, &mut t, &other));
    }
    let what = if names.is_empty() { "honest".to_string() } else { names.join(" then ") };
    let ok = judge(ctx, a, &t, &what)?;
    chk!(ok || steps > 0, "honest transcript rejected");
    Ok(())
}

/// Tampering with every single position of large batches, and the weight-aware attack:
/// the adversary reads the weights the verifier used and shifts two evaluations so that the
/// weighted sum would stay the same.
pub fn sound_positions(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &BIGS);
    let m = *ctx.pick("mode", &VER);
    let big: &[usize] = if ctx.thorough() { &[255, 256, 257, 258, 300, 513, 1025] } else { &[257, 300] };
    let small = ctx.tiered(24, 70);
    let edges = size_edges(a);
    let i = ctx.choose("n", small + big.len() + edges.len());
    let n = if i < small { i + 1 } else if i < small + big.len() { big[i - small] } else { edges[i - small - big.len()] };
    // large batches: the positions around powers of two and the ends
    let i = if i < small + big.len() {
        ctx.choose("i", n)
    } else {
        let mut p = vec![0, n / 2, n - 1];
        p.retain(|x| *x < n);
        if n < 9000 || ctx.thorough() {
            p.extend([255, 256, 257, 511, 512].into_iter().filter(|x| *x < n));
            p.extend((10..16).map(|k| 1 << k).filter(|x| *x < n));
        }
        *ctx.pick("i", &p)
    };
    let info: Option<&[u8]> = if m == Md::Poprf { Some(b"info") } else { None };
    let t0 = honest(ctx, a, m, n, 510, info, 4)?;
    let s = a.spec();
    let mut t = t0.clone();
    t.evs[i] = s.add(&t.evs[i], &s.base());
    judge(ctx, a, &t, &format!("shift-one {i}"))?;
    let mut t = t0.clone();
    t.bls[i] = s.add(&t.bls[i], &s.base());
    judge(ctx, a, &t, &format!("shift-blinded {i}"))?;
    if n == 1 {
        return Ok(());
    }
    let j = if n <= ctx.tiered(6, 12) {
        let j = ctx.choose("j", n - 1);
        if j >= i {
            j + 1
        } else {
            j
        }
    } else {
        [(i + 1) % n, n - 1 - i][ctx.choose("j", 2)]
    };
    if i == j {
        return Ok(());
    }
    let mut t = t0.clone();
    t.evs.swap(i, j);
    judge(ctx, a, &t, &format!("swap {i},{j}"))?;
    // weights actually used by the verifier
    toy::oracle_log_on();
    let ok = judge(ctx, a, &t0, "honest")?;
    chk!(ok, "honest transcript rejected");
    let w: Vec<u64> = toy::oracle_take_log()
        .into_iter()
        .filter(|x| x.kind == QK::Scalar && x.input.ends_with(b"Composite"))
        .map(|x| toy::ref_h2x(QK::Scalar, &x.input, &x.dst, q(a)))
        .collect();
    if w.len() < n {
        ctx.outcome("weights not observable");
        return Ok(());
    }
    let (wi, wj) = (sc(a, w[i]), sc(a, w[j]));
    for side in 0..2 {
        let mut t = t0.clone();
        let v = if side == 0 { &mut t.evs } else { &mut t.bls };
        v[i] = s.add(&v[i], &s.mul(&s.base(), &wj));
        v[j] = s.add(&v[j], &s.mul(&s.base(), &s.smul(&wi, &neg1(a))));
        if v[j] == s.identity() || v[i] == s.identity() {
            continue;
        }
        let ok = judge(ctx, a, &t, &format!("compensate{side} {i},{j}"))?;
        chk!(!ok, "reference accepted a compensated transcript");
    }
    // plain +d / -d on equal weights and duplicates
    let mut t = t0.clone();
    t.evs[i] = s.add(&t.evs[i], &s.base());
    t.evs[j] = s.add(&t.evs[j], &s.mul(&s.base(), &neg1(a)));
    judge(ctx, a, &t, &format!("plusminus {i},{j}"))?;
    Ok(())
}

/// Proofs made by the RFC prover are accepted, for every batch size.
pub fn sound_rfc_prover(ctx: &mut Ctx) -> Res {
    let real = ctx.flag("real");
    let a = if real { *ctx.pick("suite", &REAL) } else { *ctx.pick("suite", &BIGS) };
    let m = *ctx.pick("mode", &VER);
    let n = if real {
        ctx.choose("n", ctx.tiered(4, 10))
    } else {
        let mut big = vec![255, 256, 257, 258, 300];
        big.extend(size_edges(a));
        let max = ctx.tiered(66, 200);
        let i = ctx.choose("n", max + big.len());
        if i < max { i } else { big[i - max] }
    };
    let s = a.spec();
    let info: Option<B> = if m == Md::Poprf { Some(b"info".to_vec()) } else { None };
    let sk = rs(a, 520);
    let k = er(s.eval_scalar(&sk, info.as_deref(), m), "ref")?;
    let inputs = batch_inputs(n, 0);
    let blinds: Vec<B> = (0..n).map(|i| rs(a, 530 + i as u64)).collect();
    let mut bls = vec![];
    for i in 0..n {
        bls.push(er(s.blind(&inputs[i], &blinds[i], m), "ref")?);
    }
    let evs: Vec<B> = bls.iter().map(|b| s.mul(b, &k)).collect();
    let p = er(s.server_prove(&sk, &bls, &evs, info.as_deref(), &rs(a, 540), m), "ref")?;
    let t = T { m, inputs, blinds, bls, evs, c: p[..s.ns()].to_vec(), s: p[s.ns()..].to_vec(), pk: s.mul(&s.base(), &sk), info };
    let ok = judge(ctx, a, &t, "rfc-prover")?;
    chk!(ok, "harness: the reference verifier rejects the reference prover");
    Ok(())
}

/// Shipped suites: every single-bit change of every message.
pub fn sound_bitflips(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &REAL);
    let m = *ctx.pick("mode", &VER);
    let n = 1 + ctx.choose("n", ctx.tiered(1, 2));
    let s = a.spec();
    let what = ctx.choose("field", if m == Md::Poprf { 5 } else { 4 });
    let info: Option<&[u8]> = if m == Md::Poprf { Some(b"abc") } else { None };
    let len = match what {
        0 => s.ne(),
        1 => 2 * s.ns(),
        2 | 3 => s.ne(),
        _ => 3,
    };
    let byte = ctx.choose("byte", len);
    let t0 = honest(ctx, a, m, n, 550, info, 4)?;
    let bits: Vec<u8> = if ctx.thorough() { (0..8).collect() } else { vec![0, 3, 7] };
    for bit in bits {
        let mut t = t0.clone();
        let x = 1u8 << bit;
        match what {
            0 => t.evs[n - 1][byte] ^= x,
            1 => {
                if byte < s.ns() {
                    t.c[byte] ^= x
                } else {
                    t.s[byte - s.ns()] ^= x
                }
            }
            2 => t.pk[byte] ^= x,
            3 => t.bls[0][byte] ^= x,
            _ => t.info.as_mut().unwrap()[byte] ^= x,
        }
        let de = |b: &[u8]| s.elem_ok(b);
        if !t.evs.iter().all(|e| de(e)) || !t.bls.iter().all(|e| de(e)) || !de(&t.pk) || !s.scalar_ok(&t.c) || !s.scalar_ok(&t.s) {
            ctx.outcome("not decodable");
            continue;
        }
        let ok = judge(ctx, a, &t, &format!("flip field {what} byte {byte} bit {bit}"))?;
        chk!(!ok, "harness: the reference accepts a flipped bit");
    }
    Ok(())
}

/// Proofs altered by somebody who knows the key: the challenge shifted by every power of two (and its negative),
/// the response corrected, so that the commitments stay what they were and only the final comparison can refuse.
pub fn sound_keyed(ctx: &mut Ctx) -> Res {
    let suites: Vec<A> = REAL.iter().chain(BIGS.iter()).copied().collect();
    let a = *ctx.pick("suite", &suites);
    let m = *ctx.pick("mode", &VER);
    let n = *ctx.pick("n", ctx.tiered(&[1][..], &[1, 0, 2, 3][..]));
    let s = a.spec();
    let byte = ctx.choose("byte", s.ns());
    let info: Option<&[u8]> = if m == Md::Poprf { Some(b"abc") } else { None };
    let t0 = honest(ctx, a, m, n, 560, info, 4)?;
    let k = er(s.eval_scalar(&rs(a, 560), info, m), "ref")?;
    // for POPRF the proof is about the tweaked key, the inverse of the evaluation exponent
    let k = if m == Md::Poprf { s.sinv(&k) } else { k };
    let mut d = sc(a, 1);
    for _ in 0..8 * byte {
        d = s.sadd(&d, &d);
    }
    for bit in 0..8 {
        for sign in 0..2 {
            let e = if sign == 0 { d.clone() } else { s.ssub(&sc(a, 0), &d) };
            let mut t = t0.clone();
            t.c = s.sadd(&t0.c, &e);
            t.s = s.ssub(&t0.s, &s.smul(&e, &k));
            let ok = judge(ctx, a, &t, &format!("keyed shift of the challenge by {}2^{}", ["", "-"][sign], 8 * byte + bit))?;
            chk!(!ok, "harness: the reference accepts an altered proof");
        }
        d = s.sadd(&d, &d);
    }
    Ok(())
}

// ------------------------------------------------------------------ C06

#[derive(Clone, PartialEq, Eq, Hash)]
struct World {
    started: [bool; 2],
    /// sorted ids of interned elements and proofs
    elems: Vec<u16>,
    proofs: Vec<u16>,
}
impl World {
    fn with(&self, elems: &[u16], proofs: &[u16]) -> World {
        let mut w = self.clone();
        for e in elems {
            if let Err(i) = w.elems.binary_search(e) {
                w.elems.insert(i, *e);
            }
        }
        for e in proofs {
            if let Err(i) = w.proofs.binary_search(e) {
                w.proofs.insert(i, *e);
            }
        }
        w
    }
    /// two independent 64-bit digests
    fn digest(&self) -> (u64, u64) {
        use std::hash::{Hash, Hasher};
        let mut a = std::collections::hash_map::DefaultHasher::new();
        self.hash(&mut a);
        let mut b = std::collections::hash_map::DefaultHasher::new();
        77u64.hash(&mut b);
        self.hash(&mut b);
        (a.finish(), b.finish())
    }
}
#[derive(Default)]
struct Intern {
    all: Vec<B>,
    ids: HashMap<B, u16>,
}
impl Intern {
    fn id(&mut self, b: &[u8]) -> u16 {
        if let Some(i) = self.ids.get(b) {
            return *i;
        }
        let i = u16::try_from(self.all.len()).expect("harness: too many values");
        self.all.push(b.to_vec());
        self.ids.insert(b.to_vec(), i);
        i
    }
}
#[derive(Clone, Copy, Debug)]
enum Act {
    Start(u8),
    /// server, info, nonce, elements
    Serve(u8, u8, u8, u16, Option<u16>),
    Negate(u16),
    Add(u16, u16),
    Splice(u16, u16),
}
struct Hist(Option<std::rc::Rc<Hist>>, Option<Act>);
fn story(h: &std::rc::Rc<Hist>) -> String {
    let mut v = vec![];
    let mut h = Some(h.clone());
    while let Some(x) = h {
        if let Some(a) = x.1 {
            v.push(format!("{a:?}"));
        }
        h = x.0.clone();
    }
    v.reverse();
    v.join("; ")
}

/// Explicit-state search of an adversary that controls the network: two clients, the honest
/// server and a rogue server; the adversary may feed any known element to either server,
/// combine elements, splice proofs, and hand any known evaluations and proofs to any client.
pub fn network(ctx: &mut Ctx) -> Res {
    let a = T61;
    ctx.memory(6);
    let m = *ctx.pick("mode", &VER);
    let same_input = !ctx.flag("different-inputs");
    let algebra = ctx.flag("adversary-algebra");
    let nonces = 1 + ctx.choose("server-repeats", ctx.tiered(1, 2)) as u8;
    let deeper = (ctx.thorough() && nonces == 1 && !algebra && !same_input) as usize;
    let shallower = (nonces == 2 && algebra) as usize;
    let max_depth = deeper + if m == Md::Voprf { 5 } else { 4 } - shallower;
    let s = a.spec();
    let (k, k2) = (rs(a, 700), rs(a, 701));
    let inputs: [B; 2] = [b"in0".to_vec(), if same_input { b"in0".to_vec() } else { b"in1".to_vec() }];
    let infos: Vec<Option<B>> = if m == Md::Poprf { vec![None, Some(b"i1".to_vec())] } else { vec![None] };
    let server = er(a.server_with_key(m, &k), "server")?;
    let rogue = er(a.server_with_key(m, &k2), "server")?;
    let servers = [a.ser(&server), a.ser(&rogue)];
    let pk = a.server_pk(&server).unwrap();
    let (mut es, mut ps) = (Intern::default(), Intern::default());
    let (base, pk_id) = (es.id(&s.base()), es.id(&pk));
    let mut clients = vec![];
    let mut msgs = vec![];
    for i in 0..2 {
        let (c, b) = er(a.blind_det(m, &inputs[i], &rs(a, 710 + i as u64)), "blind")?;
        clients.push(a.ser(&c));
        msgs.push(es.id(&a.ser(&b)));
    }
    let mut expect: HashMap<(usize, usize), B> = HashMap::new();
    for i in 0..2 {
        for (j, info) in infos.iter().enumerate() {
            expect.insert((i, j), er(s.evaluate(&k, &inputs[i], info.as_deref(), m), "ref")?);
        }
    }
    let init = World { started: [false; 2], elems: vec![], proofs: vec![] }.with(&[base, pk_id], &[]);
    let mut seen: HashSet<(u64, u64)> = HashSet::from([init.digest()]);
    let mut level: Vec<(World, std::rc::Rc<Hist>)> = vec![(init, std::rc::Rc::new(Hist(None, None)))];
    let mut judged: HashSet<(usize, u16, u16, u16, usize)> = HashSet::new();
    let mut served: HashMap<(u8, u8, u8, u16, Option<u16>), (Vec<u16>, u16)> = HashMap::new();
    let (mut accepted, mut rejected, mut worlds, mut edges) = (0u64, 0u64, 0u64, 0u64);
    let kinds: [&[usize]; 5] = [&[0], &[1], &[0, 1], &[1, 0], &[0, 0]];
    for d in 0..=max_depth {
        let mut next_level = vec![];
        for (w, hist) in std::mem::take(&mut level) {
            worlds += 1;
            ctx.state(&(m, same_input, algebra, nonces, w.started, &w.elems, &w.proofs));
            // invariant: whatever a client accepts is the PRF under the configured key
            for (gi, g) in kinds.iter().enumerate() {
                if g.iter().any(|i| !w.started[*i]) {
                    continue;
                }
                for e in &w.elems {
                    for e2 in if g.len() == 1 { &w.elems[..1] } else { &w.elems[..] } {
                        for p in &w.proofs {
                            for (ii, info) in infos.iter().enumerate() {
                                if !judged.insert((gi, *e, *e2, *p, ii)) {
                                    continue;
                                }
                                // every party state crosses a byte encoding
                                let cl: Vec<Obj> = g.iter().map(|i| a.de(client_kind(m), &clients[*i])).collect::<R<_>>().map_err(|e| Viol(format!("client restore {e:?}")))?;
                                let ids = [*e, *e2];
                                let evo: Vec<Obj> = ids[..g.len()].iter().map(|e| a.de(Kind::Eval, &es.all[*e as usize])).collect::<R<_>>().map_err(|e| Viol(format!("eval decode {e:?}")))?;
                                let pb = &ps.all[*p as usize];
                                let po = er(a.de(Kind::Proof, pb), "proof decode")?;
                                let ins: Vec<B> = g.iter().map(|i| inputs[*i].clone()).collect();
                                ctx.op(1);
                                let out: R<Vec<R<B>>> = if g.len() == 1 {
                                    a.finalize(&cl[0], &ins[0], &evo[0], Some(&po), Some(&pk), info.as_deref()).map(|o| vec![Ok(o)])
                                } else {
                                    a.batch_finalize(m, &ins, &refs(&cl), &refs(&evo), &po, &pk, info.as_deref(), Coll::Vec, Drain::All)
                                };
                                match out {
                                    Ok(v) => {
                                        accepted += 1;
                                        chk!(v.len() == g.len(), "a client accepted {} outputs for {} inputs", v.len(), g.len());
                                        for (x, i) in v.iter().zip(*g) {
                                            chk!(
                                                x.as_ref().ok() == Some(&expect[&(*i, ii)]),
                                                "a client accepted an output that is not the PRF under the configured key: {} after [{}] clients {g:?} info {ii} evaluations {:?} proof {}",
                                                m.name(), story(&hist), ids[..g.len()].iter().map(|e| hexs(&es.all[*e as usize])).collect::<Vec<_>>(), hexs(pb)
                                            );
                                        }
                                    }
                                    Err(_) => rejected += 1,
                                }
                            }
                        }
                    }
                }
            }
            if d == max_depth {
                continue;
            }
            let mut acts: Vec<Act> = vec![];
            for i in 0..2 {
                if !w.started[i] {
                    acts.push(Act::Start(i as u8));
                }
            }
            // the adversary drives a server
            let net: Vec<u16> = w.elems.iter().copied().filter(|e| *e != base && *e != pk_id).collect();
            for who in 0..2 {
                for ii in 0..infos.len() as u8 {
                    for nonce in 0..nonces {
                        for e in &w.elems {
                            acts.push(Act::Serve(who, ii, nonce, *e, None));
                        }
                        for x in &net {
                            for y in &net {
                                acts.push(Act::Serve(who, ii, nonce, *x, Some(*y)));
                            }
                        }
                    }
                }
            }
            if algebra && net.len() < 5 {
                for x in &net {
                    acts.push(Act::Negate(*x));
                    for y in &net {
                        if y >= x {
                            acts.push(Act::Add(*x, *y));
                        }
                    }
                }
            }
            if algebra {
                for x in &w.proofs {
                    for y in &w.proofs {
                        if x != y {
                            acts.push(Act::Splice(*x, *y));
                        }
                    }
                }
            }
            for act in acts {
                let v = match act {
                    Act::Start(i) => {
                        let mut v = w.with(&[msgs[i as usize]], &[]);
                        v.started[i as usize] = true;
                        v
                    }
                    Act::Serve(who, ii, nonce, x, y) => {
                        let key = (who, ii, nonce, x, y);
                        if !served.contains_key(&key) {
                            let l: Vec<B> = [Some(x), y].into_iter().flatten().map(|e| es.all[e as usize].clone()).collect();
                            let so = er(a.de(server_kind(m), &servers[who as usize]), "server restore")?;
                            let bl: Vec<Obj> = l.iter().map(|e| a.de(Kind::Blinded, e)).collect::<R<_>>().map_err(|e| Viol(format!("{e:?}")))?;
                            let mut rng = ScriptRng::stream(toy::fh(17 * who as u64 + ii as u64 + 1000 * nonce as u64, &l.concat()));
                            let b = er(eval_batch(ctx, a, &so, &bl, infos[ii as usize].as_deref(), l.len() == 2, Coll::Vec, &mut rng), "server evaluation")?;
                            let r = (b.msgs.iter().map(|x| es.id(&a.ser(x))).collect(), ps.id(&a.ser(&b.proof)));
                            served.insert(key, r);
                        }
                        let (e, p) = &served[&key];
                        w.with(e, &[*p])
                    }
                    Act::Negate(x) => {
                        let e = s.mul(&es.all[x as usize], &neg1(a));
                        w.with(&[es.id(&e)], &[])
                    }
                    Act::Add(x, y) => {
                        let e = s.add(&es.all[x as usize], &es.all[y as usize]);
                        if e == s.identity() {
                            continue;
                        }
                        w.with(&[es.id(&e)], &[])
                    }
                    Act::Splice(x, y) => {
                        let n = s.ns();
                        let e = [&ps.all[x as usize][..n], &ps.all[y as usize][n..]].concat();
                        w.with(&[], &[ps.id(&e)])
                    }
                };
                edges += 1;
                if seen.insert(v.digest()) {
                    next_level.push((v, std::rc::Rc::new(Hist(Some(hist.clone()), Some(act)))));
                }
            }
        }
        level = next_level;
    }
    chk!(accepted > 0, "no execution of the honest protocol was accepted");
    ctx.op(edges);
    ctx.outcome("honest sessions accepted");
    ctx.outcome(&format!(
        "config m={} same={same_input} alg={algebra} nonces={nonces} depth={max_depth}: worlds={worlds} edges={edges} judged={} accepted={accepted} rejected={rejected}",
        m.name(), judged.len()
    ));
    Ok(())
}
