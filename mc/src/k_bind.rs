//! Domain separation (C14) and binding of the public info (C15).
use std::collections::{HashMap, HashSet};

use crate::api::*;
use crate::engine::*;
use crate::h::*;
use crate::spec::*;
use crate::suites::*;
use crate::toy::{self, Query, ScriptRng, QK};
use crate::{chk, eq, fail};

// ------------------------------------------------------------------------------------- C14

/// What a hash query means.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
struct Label {
    purpose: &'static str,
    /// empty for the output hash, which RFC 9497 binds to suite and mode only through the element
    suite: &'static str,
    mode: u8,
    args: Vec<B>,
}
fn lab(a: A, m: Md, purpose: &'static str, args: Vec<B>) -> Label {
    Label { purpose, suite: a.spec().id(), mode: m.byte(), args }
}
fn fr(x: &[u8]) -> B {
    [&i2(x.len()), x].concat()
}
fn qh2g(a: A, m: Md, input: &[u8]) -> (Query, Label) {
    (Query { kind: QK::Group, dst: a.spec().dst(b"HashToGroup-", m), input: input.to_vec() }, lab(a, m, "HashToGroup", vec![input.to_vec()]))
}
fn qscalar(a: A, m: Md, purpose: &'static str, input: B, args: Vec<B>) -> (Query, Label) {
    (Query { kind: QK::Scalar, dst: a.spec().dst(b"HashToScalar-", m), input }, lab(a, m, purpose, args))
}
fn qinfo(a: A, info: &[u8]) -> (Query, Label) {
    qscalar(a, Md::Poprf, "Info", [b"Info".as_slice(), &fr(info)].concat(), vec![info.to_vec()])
}
fn qderive(a: A, m: Md, seed: &[u8], info: &[u8], ctr: u8) -> (Query, Label) {
    (
        Query { kind: QK::Scalar, dst: a.spec().dst(b"DeriveKeyPair", m), input: [seed, &fr(info), &[ctr]].concat() },
        lab(a, m, "DeriveKeyPair", vec![seed.to_vec(), info.to_vec(), vec![ctr]]),
    )
}
fn qfinal(m: Md, input: &[u8], info: Option<&[u8]>, e: &[u8]) -> (Query, Label) {
    let mut x = fr(input);
    let mut args = vec![input.to_vec()];
    if m == Md::Poprf {
        x.extend(fr(info.unwrap_or(b"")));
        args.push(info.unwrap_or(b"").to_vec());
    }
    x.extend(fr(e));
    args.push(e.to_vec());
    x.extend(b"Finalize");
    (Query { kind: QK::Hash, dst: vec![], input: x }, Label { purpose: "Finalize", suite: "", mode: 0, args })
}
fn qseed(a: A, m: Md, b: &[u8]) -> (Query, Label) {
    let d = a.spec().dst(b"Seed-", m);
    (Query { kind: QK::Hash, dst: vec![], input: [fr(b), fr(&d)].concat() }, lab(a, m, "Seed", vec![b.to_vec()]))
}
fn qcomp(a: A, m: Md, b: &[u8], i: usize, c: &[u8], d: &[u8]) -> (Query, Label) {
    let seed = a.spec().hash(&qseed(a, m, b).0.input);
    let x = [fr(&seed), i2(i).to_vec(), fr(c), fr(d), b"Composite".to_vec()].concat();
    qscalar(a, m, "Composite", x, vec![b.to_vec(), i2(i).to_vec(), c.to_vec(), d.to_vec()])
}
fn qchal(a: A, m: Md, e: [&[u8]; 5]) -> (Query, Label) {
    let x = [e.iter().flat_map(|x| fr(x)).collect::<B>(), b"Challenge".to_vec()].concat();
    qscalar(a, m, "Challenge", x, e.iter().map(|x| x.to_vec()).collect())
}

/// everything a proof over (c, d) under the key k (public b) with nonce r hashes
fn qproof(a: A, m: Md, k: &[u8], c: &[B], d: &[B], r: &[u8]) -> Vec<(Query, Label)> {
    let s = a.spec();
    let b = s.mul(&s.base(), k);
    let mut v = vec![qseed(a, m, &b)];
    let (mut mm, mut z) = (s.identity(), s.identity());
    for i in 0..c.len() {
        let q = qcomp(a, m, &b, i, &c[i], &d[i]);
        let w = s.h2s_dst(&q.0.input, &q.0.dst);
        mm = s.add(&mm, &s.mul(&c[i], &w));
        z = s.add(&z, &s.mul(&d[i], &w));
        v.push(q);
    }
    let (t2, t3) = (s.mul(&s.base(), r), s.mul(&mm, r));
    v.push(qchal(a, m, [&b, &mm, &z, &t2, &t3]));
    v
}

struct Seen {
    map: HashMap<Query, Label>,
}
impl Seen {
    /// the queries of one operation: each must be one of the expected ones, and mean one thing only
    fn take(&mut self, ctx: &mut Ctx, a: A, what: &str, exp: Vec<(Query, Label)>) -> Res {
        let log = toy::oracle_take_log();
        chk!(!log.is_empty(), "{} {what}: no hash was computed", a.name());
        let m: HashMap<Query, Label> = exp.into_iter().collect();
        for q in log {
            let Some(l) = m.get(&q) else {
                fail!("{} {what}: hashes {:?} dst={:?} input={} which is none of the RFC 9497 inputs of this operation", a.name(), q.kind, String::from_utf8_lossy(&q.dst), hexs(&q.input));
            };
            ctx.state(&q);
            if let Some(o) = self.map.insert(q, l.clone()) {
                chk!(o == *l, "{} {what}: the same hash query means {o:?} and {l:?}", a.name());
            }
        }
        ctx.op(1);
        Ok(())
    }
}

/// arguments that are each other's prefixes, framings and concatenations
fn amb(a: A, n: usize) -> Vec<B> {
    let e = a.spec().base();
    let mut v: Vec<B> = vec![
        vec![],
        b"a".to_vec(),
        b"aa".to_vec(),
        b"a\0\x01a".to_vec(),
        vec![0],
        vec![0, 0],
        vec![0, 1],
        vec![0, 1, b'a'],
        b"Finalize".to_vec(),
        [fr(b"a"), fr(&e), b"Finalize".to_vec()].concat(),
        fr(&e),
        e.clone(),
        b"Info\0\x01a".to_vec(),
        vec![0; 256],
        vec![0; 257],
        b"OPRFV1-".to_vec(),
        b"a\0\0".to_vec(),
        [b"a".to_vec(), fr(b"")].concat(),
    ];
    v.truncate(n);
    v
}

fn ops_of(ctx: &mut Ctx, a: A, m: Md, seen: &mut Seen, n: usize) -> Res {
    let s = a.spec();
    for key in 0..2u64 {
        let sk = rs(a, 80 + key);
        for input in amb(a, n) {
            toy::oracle_reset();
            toy::oracle_log_on();
            let (c, bl) = er(a.blind_det(m, &input, &rs(a, 90)), "blind")?;
            seen.take(ctx, a, "blind", vec![qh2g(a, m, &input)])?;
            for info in if m == Md::Poprf { amb(a, n) } else { vec![vec![]] } {
                let info = (m == Md::Poprf).then_some(info.as_slice());
                let server = er(a.server_with_key(m, &sk), "server")?;
                let k = match s.tweak(&sk, info.unwrap_or(b"")) {
                    Ok(t) if m == Md::Poprf => t,
                    _ => sk.clone(),
                };
                let rng = ScriptRng::stream(3);
                let r = a.g_random_scalar(&mut rng.clone());
                toy::oracle_log_on();
                let (ev, pf) = er(a.blind_evaluate(&server, &mut rng.clone(), &bl, info), "evaluate")?;
                let (cb, eb) = (a.ser(&bl), a.ser(&ev));
                let mut exp = match m {
                    Md::Oprf => vec![],
                    Md::Voprf => qproof(a, m, &k, &[cb], &[eb], &r),
                    Md::Poprf => qproof(a, m, &k, &[eb], &[cb], &r),
                };
                if m == Md::Poprf {
                    exp.push(qinfo(a, info.unwrap()));
                }
                if m != Md::Oprf {
                    seen.take(ctx, a, "blind_evaluate", exp.clone())?;
                }
                let u = s.mul(&s.h2g(&input, m), &er(s.eval_scalar(&sk, info, m), "eval scalar")?);
                exp.push(qfinal(m, &input, info, &u));
                toy::oracle_log_on();
                let o = er(a.finalize(&c, &input, &ev, pf.as_ref(), a.server_pk(&server).as_deref(), info), "finalize")?;
                seen.take(ctx, a, "finalize", exp)?;
                toy::oracle_log_on();
                let d = er(a.evaluate(&server, &input, info), "evaluate")?;
                let mut exp = vec![qh2g(a, m, &input), qfinal(m, &input, info, &u)];
                if let Some(i) = info {
                    exp.push(qinfo(a, i));
                }
                seen.take(ctx, a, "evaluate", exp)?;
                eq!(o, d, "output");
            }
        }
    }
    // key derivation with seeds of one length
    for seed in 0..3u8 {
        for info in amb(a, n) {
            let seed = [seed, 0, 1, b'a'];
            toy::oracle_log_on();
            er(a.server_from_seed(m, &seed, &info), "seed")?;
            seen.take(ctx, a, "new_from_seed", (0..=255).map(|c| qderive(a, m, &seed, &info, c)).collect())?;
        }
    }
    Ok(())
}

/// every query of every operation of two suites and modes: expected bytes, one meaning each
pub fn queries(ctx: &mut Ctx) -> Res {
    let n = ctx.tiered(11, 18);
    let (i, m1) = (ctx.choose("suite", 4), *ctx.pick("mode", &MODES));
    let (j, m2) = (ctx.choose("suite2", 4), *ctx.pick("mode2", &MODES));
    if (j, m2) < (i, m1) {
        return Ok(());
    }
    let mut seen = Seen { map: HashMap::new() };
    ops_of(ctx, IDS[i], m1, &mut seen, n)?;
    if (i, m1) != (j, m2) {
        ops_of(ctx, IDS[j], m2, &mut seen, n)?;
    }
    let k = seen.map.len();
    let labels: HashSet<&Label> = seen.map.values().collect();
    // different meaning, different query, and the other way round
    chk!(labels.len() == k, "{k} queries for {} meanings", labels.len());
    ctx.note(|| format!("{} {} + {} {}: {k} queries", IDS[i].name(), m1.name(), IDS[j].name(), m2.name()));
    ctx.outcome("injective");
    Ok(())
}

/// batches: every position has its own query
pub fn queries_batch(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &IDS);
    let m = *ctx.pick("mode", &VER);
    let t61 = a.name() == T61.name();
    let n = *ctx.pick("size", match (ctx.thorough(), t61) {
        (false, false) => &[0, 1, 2, 3, 255, 256, 257, 600][..],
        (false, true) => &[0, 1, 2, 3, 4, 5, 17, 255, 256, 257, 511, 512, 600, 1024, 1025, 2048, 2049, 4097, 10_000, 65535][..],
        _ => &[0, 1, 2, 3, 4, 5, 17, 255, 256, 257, 511, 512, 600, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097, 8193, 16385, 32769, 65535][..],
    });
    let pat = if n > 600 && !ctx.thorough() { 0 } else { ctx.choose("inputs", 3) };
    let alloc = ctx.flag("alloc");
    let s = a.spec();
    let info = (m == Md::Poprf).then_some(b"qb".as_slice());
    let sk = rs(a, 85);
    let server = er(a.server_with_key(m, &sk), "server")?;
    let ins = batch_inputs(n, pat);
    let rng = ScriptRng::stream(6);
    let (cl, bls) = if pat == 1 {
        // identical elements: only the position differs
        let mut c = vec![];
        let mut b = vec![];
        for i in &ins {
            let x = er(a.blind(m, i, &mut rng.clone()), "blind")?;
            c.push(x.0);
            b.push(x.1);
        }
        (c, b)
    } else {
        blind_all(ctx, a, m, &ins, &mut rng.clone())?
    };
    let r = a.g_random_scalar(&mut rng.clone());
    let mut seen = Seen { map: HashMap::new() };
    toy::oracle_log_on();
    let b = er(eval_batch(ctx, a, &server, &bls, info, alloc, Coll::Vec, &mut rng.clone()), "batch")?;
    let cb: Vec<B> = bls.iter().map(|x| a.ser(x)).collect();
    let eb: Vec<B> = b.msgs.iter().map(|x| a.ser(x)).collect();
    let mut exp = if m == Md::Poprf { qproof(a, m, &er(s.tweak(&sk, b"qb"), "tweak")?, &eb, &cb, &r) } else { qproof(a, m, &sk, &cb, &eb, &r) };
    if m == Md::Poprf {
        exp.push(qinfo(a, b"qb"));
    }
    seen.take(ctx, a, "batch evaluation", exp.clone())?;
    let comps = seen.map.values().filter(|l| l.purpose == "Composite").count();
    chk!(comps == n, "{comps} weights for {n} items");
    let k = er(s.eval_scalar(&sk, info, m), "k")?;
    for i in &ins {
        exp.push(qfinal(m, i, info, &s.mul(&s.h2g(i, m), &k)));
    }
    toy::oracle_log_on();
    let pk = a.server_pk(&server).unwrap();
    let o = er(a.batch_finalize(m, &ins, &refs(&cl), &refs(&b.msgs), &b.proof, &pk, info, Coll::Vec, Drain::All), "batch_finalize")?;
    chk!(o.len() == n && o.iter().all(|x| x.is_ok()), "batch finalize");
    if n > 0 {
        seen.take(ctx, a, "batch_finalize", exp)?;
    }
    ctx.outcome("positions");
    Ok(())
}

/// outputs, keys and proofs for different parameters are pairwise different
pub fn outputs(ctx: &mut Ctx) -> Res {
    let real = ctx.flag("shipped");
    let what = ctx.choose("what", 3);
    let suites: Vec<A> = if real { REAL.to_vec() } else { IDS.to_vec() };
    let n = if real { ctx.tiered(4, 9) } else { ctx.tiered(12, 18) };
    let mut seen: HashMap<B, String> = HashMap::new();
    let mut cnt = 0u64;
    let mut put = |v: B, w: String| -> Res {
        cnt += 1;
        if let Some(o) = seen.insert(v.clone(), w.clone()) {
            fail!("{o} and {w} give the same value {}", hexs(&v));
        }
        Ok(())
    };
    for a in suites {
        let s = a.spec();
        for m in MODES {
            match what {
                0 => {
                    for key in 0..2u64 {
                        // scalars of the toy suites coincide: the very same key in every suite
                        let sk = if real { rs(a, 80 + key) } else { sc(a, 12345 + key) };
                        let server = er(a.server_with_key(m, &sk), "server")?;
                        for input in amb(a, n) {
                            for info in if m == Md::Poprf { amb(a, n) } else { vec![vec![]] } {
                                let o = er(a.evaluate(&server, &input, (m == Md::Poprf).then_some(info.as_slice())), "evaluate")?;
                                // TW's longer output keeps its own length
                                put(o, format!("{} {} key{key} input {} info {}", s.id(), m.name(), hexs(&input), hexs(&info)))?;
                            }
                        }
                    }
                }
                1 => {
                    for seed in 0..2u8 {
                        for info in amb(a, n) {
                            let k = er(a.server_from_seed(m, &[seed; 32], &info), "seed")?;
                            let k = a.ser(&k)[..s.ns()].to_vec();
                            put(k, format!("{} {} seed {seed} info {}", s.id(), m.name(), hexs(&info)))?;
                        }
                    }
                }
                _ => {
                    if m == Md::Oprf {
                        continue;
                    }
                    for key in 0..2u64 {
                        let sk = if real { rs(a, 80 + key) } else { sc(a, 777 + key) };
                        let server = er(a.server_with_key(m, &sk), "server")?;
                        for i in 0..n.min(5) {
                            for j in 0..n.min(5) {
                                for infn in 0..if m == Md::Poprf { n.min(4) } else { 1 } {
                                    let info = amb(a, n)[infn].clone();
                                    let els = [re(a, i as u64), re(a, 100 + j as u64)];
                                    let bls: Vec<Obj> = els.iter().map(|e| a.raw_blinded(e)).collect();
                                    let b = er(eval_batch(ctx, a, &server, &bls, (m == Md::Poprf).then_some(info.as_slice()), true, Coll::Vec, &mut ScriptRng::stream(8)), "batch")?;
                                    let c = a.ser(&b.proof)[..s.ns()].to_vec();
                                    put(c, format!("{} {} key{key} elements {i},{j} info {infn}", s.id(), m.name()))?;
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    ctx.op(cnt);
    ctx.state(&(real, what, cnt));
    ctx.note(|| format!("{cnt} pairwise different values"));
    ctx.outcome("distinct");
    Ok(())
}

// ------------------------------------------------------------------------------------- C15

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum SOp {
    Single,
    Alloc,
    Split,
    Direct,
}
/// A server operation of the POPRF; returns (evaluations, proof) or the output.
fn server_op(a: A, server: &Obj, op: SOp, bls: &[Obj], info: Option<&[u8]>) -> R<Option<Batch>> {
    let rng = &mut ScriptRng::stream(14);
    Ok(match op {
        SOp::Single => {
            let (e, p) = a.blind_evaluate(server, rng, &bls[0], info)?;
            Some(Batch { msgs: vec![e], proof: p.unwrap() })
        }
        SOp::Alloc => Some(a.batch_evaluate(server, rng, &refs(bls), info, Coll::Vec)?),
        SOp::Split => {
            let (ps, t) = a.prepare(server, &refs(bls), info, Coll::Vec)?;
            Some(a.finish(server, rng, &refs(bls), &refs(&ps), t.as_ref(), Coll::Vec)?)
        }
        SOp::Direct => {
            a.evaluate(server, b"x", info)?;
            None
        }
    })
}
const SOPS: [SOp; 4] = [SOp::Single, SOp::Alloc, SOp::Split, SOp::Direct];

/// client side of a batch; single = finalize on the first item
fn client_op(a: A, single: bool, ins: &[B], cl: &[Obj], b: &Batch, pk: &[u8], info: Option<&[u8]>) -> R<Vec<B>> {
    if single {
        Ok(vec![a.finalize(&cl[0], &ins[0], &b.msgs[0], Some(&b.proof), Some(pk), info)?])
    } else {
        a.batch_finalize(Md::Poprf, ins, &refs(cl), &refs(&b.msgs), &b.proof, pk, info, Coll::Vec, Drain::All)?.into_iter().collect()
    }
}

/// small groups: every key and every pair of info scalars, server and client
pub fn info_toy(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("group", &TOYS);
    let s = a.spec();
    let m = Md::Poprf;
    let sk = 1 + ctx.choose("key", q(a) as usize - 1) as u64;
    let t1 = ctx.choose("server-info", q(a) as usize) as u64;
    let t2 = ctx.choose("client-info", q(a) as usize) as u64;
    let n = ctx.choose("batch", 3);
    let op = *ctx.pick("server-op", &SOPS);
    let single = n == 1 && ctx.flag("single");
    if n != 1 && op == SOp::Single {
        return Ok(());
    }
    let names: [(Option<&[u8]>, Option<&[u8]>); 2] = [(Some(b"A"), Some(b"B")), (None, Some(b"B"))];
    let (ia, ib) = *ctx.pick("infos", &names);
    pin_info(a, ia.unwrap_or(b""), t1);
    pin_info(a, ib.unwrap(), t2);
    let skb = sc(a, sk);
    let server = er(a.server_with_key(m, &skb), "server")?;
    let pk = a.server_pk(&server).unwrap();
    let ins: Vec<B> = (0..n.max(1)).map(|i| format!("i{i}").into_bytes()).collect();
    for (i, x) in ins.iter().enumerate() {
        pin_h2g(a, m, x, 1 + i as u64 % (q(a) - 1));
    }
    pin_h2g(a, m, b"x", 1);
    let ins = ins[..n].to_vec();
    let (cl, bls) = blind_all(ctx, a, m, &ins, &mut ScriptRng::script((1..=n as u64).flat_map(|i| (1 + i % 2).to_be_bytes()).collect()))?;
    let bad1 = (sk + t1) % q(a) == 0;
    let r = server_op(a, &server, op, &bls, ia);
    ctx.op(1);
    ctx.state(&(a.name(), sk, t1, t2, n, bad1));
    if bad1 {
        chk!(matches!(r, Err(Er::Protocol)), "{}: key {sk}, info scalar {t1}: {op:?} with {n} items = {:?} instead of the protocol error", a.name(), r.as_ref().map(|_| "ok"));
        ctx.outcome("server protocol error");
    }
    let batch = match r {
        Ok(Some(b)) => b,
        Ok(None) => {
            chk!(!bad1, "evaluated");
            return Ok(());
        }
        Err(e) => {
            chk!(bad1, "{}: key {sk}, info scalar {t1}: {op:?} fails with {e:?}", a.name());
            if n == 0 {
                return Ok(());
            }
            // a transcript from another key, so that the client has something to look at
            let k2 = sc(a, if sk == 1 { q(a) - 1 } else { 1 });
            let s2 = er(a.server_with_key(m, &k2), "server")?;
            match server_op(a, &s2, SOp::Alloc, &bls, ia) {
                Ok(Some(b)) => b,
                _ => return Ok(()),
            }
        }
    };
    // the client, with both infos
    for (inf, t) in [(ia, t1), (ib, t2)] {
        let got = client_op(a, single, &ins, &cl, &batch, &pk, inf);
        ctx.op(1);
        let cb: Vec<B> = bls.iter().map(|x| a.ser(x)).collect();
        let eb: Vec<B> = batch.msgs.iter().map(|x| a.ser(x)).collect();
        let pb = a.ser(&batch.proof);
        let want = s.client_verify(&pk, &cb, &eb, inf, &pb, m);
        if (sk + t) % q(a) == 0 {
            chk!(want == Err(Er::Protocol), "harness: reference");
        }
        match (&got, &want) {
            (Ok(os), Ok(())) => {
                for i in 0..n {
                    let u = s.mul(&eb[i], &s.sinv(&a.ser(&cl[i])[..s.ns()]));
                    eq!(os[i], er(s.out(&ins[i], inf, &u, m), "out")?, "output");
                }
            }
            (Err(e), Err(f)) => chk!(e == f, "{}: key {sk}, client info scalar {t}: client fails with {e:?} instead of {f:?}", a.name()),
            _ => fail!("{}: key {sk}, server info scalar {t1}, client {t}: client = {:?}, reference = {:?}", a.name(), got.as_ref().map(|_| "ok"), want),
        }
        ctx.outcome(match &got {
            Ok(_) => "client ok",
            Err(Er::Protocol) => "client protocol error",
            Err(_) => "client refuses",
        });
    }
    Ok(())
}

fn infos(n: usize) -> Vec<Option<B>> {
    let mut v = vec![
        None,
        Some(vec![]),
        Some(b"a".to_vec()),
        Some(b"b".to_vec()),
        Some(vec![0]),
        Some(b"a\0".to_vec()),
        Some(fill(256, 1)),
        Some(fill(512, 1)),
        Some([fill(256, 1), vec![0]].concat()),
        Some(vec![0, 0]),
        Some(b"aa".to_vec()),
        Some(vec![0; 65535]),
        Some(vec![0; 65534]),
        Some(b"Info".to_vec()),
    ];
    v.truncate(n);
    v
}

/// ordered pairs of infos x APIs x suites
pub fn info_pairs(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &FAST);
    let toy = a.toy_q().is_some();
    let v = infos(if toy { 14 } else { ctx.tiered(8, 14) });
    let i1 = ctx.pick("server-info", &v).clone();
    let i2_ = ctx.pick("client-info", &v).clone();
    let n = if toy { ctx.choose("batch", 4) } else { *ctx.pick("batch", &[1, 2]) };
    let op = *ctx.pick("server-op", if toy || ctx.thorough() { &SOPS[..3] } else { &SOPS[1..3] });
    if n != 1 && op == SOp::Single {
        return Ok(());
    }
    let single = n == 1 && ctx.flag("single");
    let m = Md::Poprf;
    let sk = rs(a, 61);
    let server = er(a.server_with_key(m, &sk), "server")?;
    let pk = a.server_pk(&server).unwrap();
    let ins = batch_inputs(n, 0);
    let (cl, bls) = blind_all(ctx, a, m, &ins, &mut ScriptRng::stream(21))?;
    let b = er(server_op(a, &server, op, &bls, i1.as_deref()), "server")?.unwrap();
    let got = client_op(a, single, &ins, &cl, &b, &pk, i2_.as_deref());
    ctx.op(2);
    let same = i1.clone().unwrap_or_default() == i2_.clone().unwrap_or_default();
    let l = |i: &Option<B>| i.as_ref().map(|x| format!("[{}]{}", x.len(), hexs(&x[..x.len().min(4)])));
    match got {
        Ok(os) if same => {
            for i in 0..n {
                for inf in [&i1, &i2_] {
                    let d = er(a.evaluate(&server, &ins[i], inf.as_deref()), "evaluate")?;
                    eq!(os[i], d, "{}: finalize vs evaluate with info {:?}", a.name(), l(inf));
                }
            }
            ctx.outcome("same info");
        }
        Ok(_) => {
            // the proof of an empty batch is bound to the info as well
            fail!("{}: evaluated with info {:?}, accepted with info {:?} ({op:?}, {n} items)", a.name(), l(&i1), l(&i2_));
        }
        Err(e) => {
            chk!(!same, "{}: infos {:?} and {:?} are the same but the client fails with {e:?}", a.name(), l(&i1), l(&i2_));
            chk!(e == Er::ProofVerification, "{}: infos {:?} and {:?}: {e:?}", a.name(), l(&i1), l(&i2_));
            ctx.outcome("refused");
        }
    }
    ctx.state(&(a.name(), &i1, &i2_, n));
    Ok(())
}

/// every info length: an info differing in one byte, or by one byte more or less, is another info
pub fn info_sweep(ctx: &mut Ctx) -> Res {
    let real = ctx.flag("shipped");
    let a = if real { *ctx.pick("suite", &REAL) } else { *ctx.pick("suite", &BIGS) };
    let max = if real { 0 } else { ctx.tiered(1101, if a.name() == T61.name() { 65536 } else { 4200 }) };
    let edges = if real { vec![0, 1, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 1025, 4097, 65535] } else { edge_lens() };
    let i = ctx.choose("length", max + edges.len());
    let len = if i < max { i } else { edges[i - max] };
    let how = ctx.choose("difference", 6);
    let base = fill(len, 77);
    let mut o = base.clone();
    match how {
        0 if len < 65535 => o.push(0),
        1 if len > 0 => o[len - 1] ^= 1,
        2 if len > 0 => o[0] ^= 0x80,
        3 if len > 0 => o[len / 2] ^= 4,
        4 if len > 0 => {
            o.pop();
        }
        5 if len > 0 => o.rotate_left(1),
        _ => return Ok(()),
    }
    if o == base {
        return Ok(());
    }
    let m = Md::Poprf;
    let server = er(a.server_with_key(m, &rs(a, 61)), "server")?;
    let pk = a.server_pk(&server).unwrap();
    let (c, bl) = er(a.blind(m, b"in", &mut ScriptRng::stream(21)), "blind")?;
    let (e, p) = er(a.blind_evaluate(&server, &mut ScriptRng::stream(22), &bl, Some(&base)), "blind_evaluate")?;
    let good = a.finalize(&c, b"in", &e, p.as_ref(), Some(&pk), Some(&base));
    let d1 = er(a.evaluate(&server, b"in", Some(&base)), "evaluate")?;
    eq!(good, Ok(d1.clone()), "{}: info[{len}] on both sides", a.name());
    let bad = a.finalize(&c, b"in", &e, p.as_ref(), Some(&pk), Some(&o));
    ctx.op(4);
    chk!(bad == Err(Er::ProofVerification), "{}: evaluated with info[{len}], finalized with another info[{}] (difference {how}): {bad:?}", a.name(), o.len());
    let d2 = er(a.evaluate(&server, b"in", Some(&o)), "evaluate")?;
    chk!(d1 != d2, "{}: info[{len}] and another info[{}] (difference {how}) give the same output", a.name(), o.len());
    ctx.state(&(a.name(), d2));
    ctx.outcome("bound");
    Ok(())
}

/// key + info scalar = 0 on every suite, every operation
pub fn info_degenerate(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &FAST);
    let s = a.spec();
    let m = Md::Poprf;
    let v = infos(ctx.tiered(6, 12));
    let bad = ctx.pick("degenerate-info", &v).clone();
    let h = er(s.info_scalar(bad.as_deref().unwrap_or(b"")), "info scalar")?;
    let sk = s.ssub(&s.zero(), &h);
    let server = er(a.server_with_key(m, &sk), "server")?;
    let pk = a.server_pk(&server).unwrap();
    let n = ctx.choose("batch", 4);
    let ins = batch_inputs(n.max(1), 0);
    let (cl, bls) = blind_all(ctx, a, m, &ins, &mut ScriptRng::stream(23))?;
    let (cl, bls, ins) = (&cl[..n], &bls[..n], ins[..n].to_vec());
    for inf in &v {
        let same = inf.clone().unwrap_or_default() == bad.clone().unwrap_or_default();
        for op in SOPS {
            if n != 1 && op == SOp::Single {
                continue;
            }
            let r = server_op(a, &server, op, bls, inf.as_deref());
            ctx.op(1);
            match (&r, same) {
                (Err(Er::Protocol), true) | (Ok(_), false) => {}
                _ => fail!("{}: degenerate info {:?}, used {:?}: {op:?} on {n} items = {:?}", a.name(), bad.as_ref().map(|x| x.len()), inf.as_ref().map(|x| x.len()), r.as_ref().map(|_| "ok")),
            }
            // the client refuses the degenerate info whatever the transcript
            if let Ok(Some(b)) = r {
                for single in [true, false] {
                    if single && n != 1 {
                        continue;
                    }
                    let c = client_op(a, single, &ins, cl, &b, &pk, bad.as_deref());
                    chk!(c == Err(Er::Protocol), "{}: client with the degenerate info: {c:?}", a.name());
                    let c = client_op(a, single, &ins, cl, &b, &pk, inf.as_deref());
                    chk!(c.is_ok(), "{}: client with a good info: {c:?}", a.name());
                    ctx.op(2);
                }
            }
        }
    }
    ctx.state(&(a.name(), &bad, n));
    ctx.outcome("protocol error");
    Ok(())
}

/// infos longer than 65535 bytes: the info error from every operation
pub fn info_long(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &FAST);
    let l = *ctx.pick("length", &[65536usize, 65537, 65541, 131072, 65536 * 2 + 1, 1 << 20]);
    let n = ctx.choose("batch", 3);
    let m = Md::Poprf;
    let sk = rs(a, 62);
    let info = fill(l, 3);
    let server = er(a.server_with_key(m, &sk), "server")?;
    let pk = a.server_pk(&server).unwrap();
    let ins = batch_inputs(n, 0);
    let (cl, bls) = blind_all(ctx, a, m, &ins, &mut ScriptRng::stream(23))?;
    for op in SOPS {
        if n != 1 && op == SOp::Single {
            continue;
        }
        let r = server_op(a, &server, op, &bls, Some(&info));
        ctx.op(1);
        chk!(matches!(r, Err(Er::Info)), "{}: {op:?} with an info of {l} bytes: {:?}", a.name(), r.as_ref().map(|_| "ok"));
    }
    // transcripts for the truncated info must not help
    for short in [None, Some(&info[..l % 65536]), Some(&info[..65535])] {
        let b = er(server_op(a, &server, SOp::Alloc, &bls, short), "server")?.unwrap();
        for single in [false, true] {
            if single && n != 1 {
                continue;
            }
            let c = client_op(a, single, &ins, &cl, &b, &pk, Some(&info));
            ctx.op(1);
            chk!(c == Err(Er::Info), "{}: client with an info of {l} bytes: {c:?}", a.name());
        }
    }
    ctx.state(&(a.name(), l, n));
    ctx.outcome("info error");
    Ok(())
}
