//! Histories (C17): any sequence of operations on shared objects behaves like each operation alone.
use crate::api::*;
use crate::engine::*;
use crate::h::*;
use crate::spec::*;
use crate::suites::*;
use crate::toy::ScriptRng;
use crate::{chk, eq, fail};

/// The shared objects. Messages and proofs come from the reference model.
struct World {
    a: A,
    m: Md,
    keys: [B; 2],
    pks: [B; 2],
    infos: [Option<B>; 2],
    inputs: [B; 2],
    blinds: [B; 2],
    servers: [Obj; 2],
    clients: [Obj; 2],
    bls: [Obj; 2],
    /// evaluation of both elements under (server, info)
    evs: Vec<Vec<Obj>>,
    /// proofs for the single first element, and for the pair
    p1: Vec<Option<Obj>>,
    p2: Vec<Option<Obj>>,
}
/// (server, info)
const SI: [(usize, usize); 3] = [(0, 0), (1, 0), (0, 1)];

fn world(a: A, m: Md) -> Result<World, Viol> {
    let s = a.spec();
    let keys = [rs(a, 201), rs(a, 202)];
    // same length, and a pair that an incomplete comparison would confuse
    let infos = if m == Md::Poprf { [Some(b"info-one-abcdef".to_vec()), Some(b"info-two-abcdef".to_vec())] } else { [None, None] };
    let inputs = [b"input-number-one".to_vec(), b"input-number-two".to_vec()];
    let blinds = [rs(a, 203), rs(a, 204)];
    let mk = |i: usize| er(a.server_with_key(m, &keys[i]), "server");
    let servers = [mk(0)?, mk(1)?];
    let c0 = er(a.blind_det(m, &inputs[0], &blinds[0]), "blind")?;
    let c1 = er(a.blind_det(m, &inputs[1], &blinds[1]), "blind")?;
    let pks = [s.mul(&s.base(), &keys[0]), s.mul(&s.base(), &keys[1])];
    let (mut evs, mut p1, mut p2) = (vec![], vec![], vec![]);
    let cb = [er(s.blind(&inputs[0], &blinds[0], m), "ref")?, er(s.blind(&inputs[1], &blinds[1], m), "ref")?];
    for (sv, inf) in SI {
        let k = er(s.eval_scalar(&keys[sv], infos[inf].as_deref(), m), "ref")?;
        let e: Vec<B> = cb.iter().map(|x| s.mul(x, &k)).collect();
        evs.push(e.iter().map(|x| a.raw_eval(x)).collect());
        for (n, v) in [(1, &mut p1), (2, &mut p2)] {
            v.push(if m == Md::Oprf {
                None
            } else {
                let p = er(s.server_prove(&keys[sv], &cb[..n], &e[..n], infos[inf].as_deref(), &rs(a, 205), m), "ref")?;
                Some(er(a.de(Kind::Proof, &p), "proof")?)
            });
        }
    }
    Ok(World { a, m, keys, pks, infos, inputs, blinds, servers, clients: [c0.0, c1.0], bls: [c0.1, c1.1], evs, p1, p2 })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
    Evaluate(usize, usize),
    EvaluateLong,
    Blind(usize),
    BlindLong,
    BlindEval(usize),
    Batch(usize),
    Split(usize),
    SplitMismatch,
    Finalize(usize),
    /// proof of another (server, info)
    FinalizeWrongProof,
    /// pk and info of another (server, info)
    FinalizeWrongContext,
    FinalizeLong,
    BatchFinalize(usize),
    BatchFinalizeWrong,
    BatchFinalizeMismatch,
    Seed(usize),
    Decode,
    LongInfo,
    New,
}
fn ops(m: Md, full: bool) -> Vec<Op> {
    use Op::*;
    let mut v = vec![Evaluate(0, 0), Blind(0), BlindEval(0), Finalize(0), Evaluate(0, 1), EvaluateLong, BlindLong, FinalizeLong, Seed(0), New, Decode, Blind(1), BlindEval(1), Finalize(1)];
    if m != Md::Oprf {
        v.extend([Batch(0), Split(0), BatchFinalize(0), FinalizeWrongProof, FinalizeWrongContext, BatchFinalizeMismatch, SplitMismatch]);
        if full {
            v.extend([Batch(1), Split(1), BatchFinalize(1), BatchFinalizeWrong]);
        }
    }
    if m == Md::Poprf {
        v.extend([LongInfo, Evaluate(2, 0), BlindEval(2), Finalize(2)]);
        if full {
            v.extend([Batch(2), Split(2), BatchFinalize(2)]);
        }
    }
    if full {
        v.extend([Seed(1), Evaluate(1, 0)]);
    }
    v
}

const STREAM: u64 = 5150;
fn rng() -> ScriptRng {
    ScriptRng::stream(STREAM)
}

/// the operation on the shared objects
fn apply(w: &World, op: Op) -> R<Vec<B>> {
    let a = w.a;
    let inf = |si: usize| w.infos[SI[si].1].as_deref();
    let srv = |si: usize| &w.servers[SI[si].0];
    let pk = |si: usize| (w.m != Md::Oprf).then_some(w.pks[SI[si].0].as_slice());
    let long = vec![7u8; 65536];
    let two = || w.bls.iter().collect::<Vec<_>>();
    let batch = |b: Batch| -> Vec<B> { b.msgs.iter().chain([&b.proof]).map(|o| a.ser(o)).collect() };
    let fin2 = |si: usize, cl: &[&Obj], p: &Obj, pksi: usize, ins: &[B]| -> R<Vec<B>> {
        a.batch_finalize(w.m, ins, cl, &refs(&w.evs[si]), p, pk(pksi).unwrap(), inf(pksi), Coll::Vec, Drain::All)?.into_iter().collect()
    };
    let cl = || w.clients.iter().collect::<Vec<_>>();
    Ok(match op {
        Op::Evaluate(si, i) => vec![a.evaluate(srv(si), &w.inputs[i], inf(si))?],
        Op::EvaluateLong => vec![a.evaluate(srv(0), &long, inf(0))?],
        Op::Blind(i) => {
            let (c, b) = a.blind(w.m, &w.inputs[i], &mut rng())?;
            vec![a.ser(&c), a.ser(&b)]
        }
        Op::BlindLong => {
            a.blind(w.m, &long, &mut rng())?;
            vec![]
        }
        Op::BlindEval(si) => {
            let (e, p) = a.blind_evaluate(srv(si), &mut rng(), &w.bls[0], inf(si))?;
            std::iter::once(&e).chain(p.iter()).map(|o| a.ser(o)).collect()
        }
        Op::Batch(si) => batch(a.batch_evaluate(srv(si), &mut rng(), &two(), inf(si), Coll::Vec)?),
        Op::Split(si) => {
            let (ps, t) = a.prepare(srv(si), &two(), inf(si), Coll::Vec)?;
            batch(a.finish(srv(si), &mut rng(), &two(), &refs(&ps), t.as_ref(), Coll::Vec)?)
        }
        Op::SplitMismatch => {
            let (ps, t) = a.prepare(srv(0), &two(), inf(0), Coll::Vec)?;
            batch(a.finish(srv(0), &mut rng(), &two(), &refs(&ps)[..1], t.as_ref(), Coll::Vec)?)
        }
        Op::Finalize(si) => vec![a.finalize(&w.clients[0], &w.inputs[0], &w.evs[si][0], w.p1[si].as_ref(), pk(si), inf(si))?],
        Op::FinalizeWrongProof => vec![a.finalize(&w.clients[0], &w.inputs[0], &w.evs[0][0], w.p1[1].as_ref(), pk(0), inf(0))?],
        Op::FinalizeWrongContext => {
            let o = if w.m == Md::Poprf { 2 } else { 1 };
            vec![a.finalize(&w.clients[0], &w.inputs[0], &w.evs[0][0], w.p1[0].as_ref(), pk(o), inf(o))?]
        }
        Op::FinalizeLong => vec![a.finalize(&w.clients[0], &long, &w.evs[0][0], w.p1[0].as_ref(), pk(0), inf(0))?],
        Op::BatchFinalize(si) => fin2(si, &cl(), w.p2[si].as_ref().unwrap(), si, &w.inputs)?,
        Op::BatchFinalizeWrong => fin2(0, &[&w.clients[1], &w.clients[0]], w.p2[0].as_ref().unwrap(), 0, &w.inputs)?,
        Op::BatchFinalizeMismatch => fin2(0, &cl(), w.p2[0].as_ref().unwrap(), 0, &w.inputs[..1])?,
        Op::Seed(i) => vec![a.ser(&a.server_from_seed(w.m, &[i as u8; 32], b"key info")?)],
        Op::Decode => {
            a.de(Kind::Blinded, &[0xFF; 7])?;
            vec![]
        }
        Op::LongInfo => {
            a.blind_evaluate(srv(0), &mut rng(), &w.bls[0], Some(&long))?;
            vec![]
        }
        Op::New => vec![a.ser(&a.server_new(w.m, &mut rng())?)],
    })
}

/// what the operation does on its own, from the reference model
fn expect(w: &World, op: Op) -> R<Vec<B>> {
    let a = w.a;
    let s = a.spec();
    let m = w.m;
    let inf = |si: usize| w.infos[SI[si].1].as_deref();
    let key = |si: usize| &w.keys[SI[si].0];
    let cb: Vec<B> = (0..2).map(|i| s.blind(&w.inputs[i], &w.blinds[i], m).unwrap()).collect();
    let ev = |si: usize, n: usize| -> R<(Vec<B>, Vec<B>)> {
        let k = s.eval_scalar(key(si), inf(si), m)?;
        let e: Vec<B> = cb[..n].iter().map(|x| s.mul(x, &k)).collect();
        if m == Md::Oprf {
            return Ok((e.clone(), e));
        }
        let r = a.g_random_scalar(&mut rng());
        let p = s.server_prove(key(si), &cb[..n], &e, inf(si), &r, m)?;
        let mut v = e.clone();
        v.push(p);
        Ok((e, v))
    };
    let server = |sk: &[u8]| -> B {
        let mut b = sk.to_vec();
        if m != Md::Oprf {
            b.extend(s.mul(&s.base(), sk));
        }
        b
    };
    match op {
        Op::Evaluate(si, i) => Ok(vec![s.evaluate(key(si), &w.inputs[i], inf(si), m)?]),
        Op::EvaluateLong | Op::BlindLong | Op::FinalizeLong => Err(Er::Input),
        Op::Blind(i) => {
            let b = a.g_random_scalar(&mut rng());
            let e = s.blind(&w.inputs[i], &b, m)?;
            let mut st = b;
            if m != Md::Oprf {
                st.extend(&e);
            }
            Ok(vec![st, e])
        }
        Op::BlindEval(si) => Ok(ev(si, 1)?.1),
        Op::Batch(si) | Op::Split(si) => Ok(ev(si, 2)?.1),
        Op::SplitMismatch | Op::BatchFinalizeMismatch => Err(Er::Batch),
        Op::Finalize(si) => Ok(vec![s.evaluate(key(si), &w.inputs[0], inf(si), m)?]),
        Op::FinalizeWrongProof | Op::FinalizeWrongContext | Op::BatchFinalizeWrong => Err(Er::ProofVerification),
        Op::BatchFinalize(si) => (0..2).map(|i| s.evaluate(key(si), &w.inputs[i], inf(si), m)).collect(),
        Op::Seed(i) => Ok(vec![server(&s.derive(&[i as u8; 32], b"key info", m)?.0)]),
        Op::Decode => Err(Er::Deserialization),
        Op::LongInfo => Err(Er::Info),
        Op::New => {
            use rand_core::RngCore;
            let mut seed = vec![0; s.ns()];
            rng().fill_bytes(&mut seed);
            Ok(vec![server(&s.derive(&seed, &[], m)?.0)])
        }
    }
}

fn snapshot(w: &World) -> Vec<B> {
    let a = w.a;
    let mut v: Vec<B> = w.servers.iter().chain(&w.clients).chain(&w.bls).map(|o| a.ser(o)).collect();
    v.extend(w.evs.iter().flatten().map(|o| a.ser(o)));
    v.extend(w.p1.iter().chain(&w.p2).flatten().map(|o| a.ser(o)));
    v
}
fn show(r: &R<Vec<B>>) -> String {
    match r {
        Ok(v) => format!("Ok({})", v.iter().map(|b| hexs(&b[..b.len().min(16)])).collect::<Vec<_>>().join(",")),
        Err(e) => format!("Err({e:?})"),
    }
}

fn history(ctx: &mut Ctx, a: A, m: Md, list: &[Op], depth: usize) -> Res {
    let w = world(a, m)?;
    let before = snapshot(&w);
    let mut hist = vec![];
    for _ in 0..depth {
        let op = *ctx.pick("operation", list);
        hist.push(op);
        let got = apply(&w, op);
        ctx.op(1);
        let want = expect(&w, op);
        if got != want {
            fail!("{} {}: after {:?}, {op:?} = {} instead of {}", a.name(), m.name(), &hist[..hist.len() - 1], show(&got), show(&want));
        }
        ctx.state(&(a.name(), m, format!("{hist:?}"), &want.as_ref().ok()));
        ctx.outcome(if want.is_ok() { "ok" } else { "error" });
        let now = snapshot(&w);
        if now != before {
            let i = (0..now.len()).find(|i| now[*i] != before[*i]).unwrap();
            fail!("{} {}: {hist:?} changed object number {i}: {} -> {}", a.name(), m.name(), hexs(&before[i]), hexs(&now[i]));
        }
    }
    ctx.note(|| format!("{} {} {hist:?}", a.name(), m.name()));
    Ok(())
}

pub fn histories(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", ctx.tiered(&FAST[..1], &FAST[..2]));
    let m = *ctx.pick("mode", &MODES);
    let list = ops(m, ctx.thorough());
    let depth = if a.name() == T61.name() { 4 } else { 3 };
    history(ctx, a, m, &list, depth)
}

/// deeper, over the operations that touch one server, client and info each
pub fn histories_deep(ctx: &mut Ctx) -> Res {
    use Op::*;
    let m = *ctx.pick("mode", &MODES);
    let mut list = vec![Evaluate(0, 0), Blind(0), BlindEval(0), Finalize(0), BlindLong, Evaluate(1, 0)];
    if m == Md::Poprf {
        list.push(Evaluate(2, 0));
    }
    if m != Md::Oprf {
        list.push(FinalizeWrongProof);
    }
    let d = ctx.tiered(5, 7);
    history(ctx, T61, m, &list, d)
}

pub fn histories_real(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &REAL);
    let m = *ctx.pick("mode", &MODES);
    let list = ops(m, ctx.thorough());
    // each pair of operations; in the thorough tier the first one once more
    let w = world(a, m)?;
    let before = snapshot(&w);
    let mut hist = vec![];
    for i in 0..2 {
        let op = *ctx.pick("operation", &list);
        hist.push(op);
        check_one(&w, op, &hist)?;
        ctx.op(1);
        if i == 1 && ctx.thorough() {
            let f = hist[0];
            hist.push(f);
            check_one(&w, f, &hist)?;
        }
    }
    chk!(snapshot(&w) == before, "{} {}: {hist:?} changed an object", a.name(), m.name());
    ctx.state(&(a.name(), m, format!("{hist:?}")));
    ctx.outcome("ok");
    Ok(())
}
fn check_one(w: &World, op: Op, hist: &[Op]) -> Res {
    let got = apply(w, op);
    let want = expect(w, op);
    if got != want {
        fail!("{} {}: in history {hist:?}, {op:?} = {} instead of {}", w.a.name(), w.m.name(), show(&got), show(&want));
    }
    Ok(())
}

/// one operation, alternating with another, more than 65536 times on the same objects
pub fn repeated(ctx: &mut Ctx) -> Res {
    let a = T61;
    let m = *ctx.pick("mode", &MODES);
    let list = ops(m, false);
    let op = *ctx.pick("operation", &list);
    let other = *ctx.pick("other", &[None, Some(Op::Evaluate(0, 0)), Some(Op::BlindLong)][..ctx.tiered(2, 3)]);
    let w = world(a, m)?;
    let before = snapshot(&w);
    let want = expect(&w, op);
    let wo = other.map(|o| expect(&w, o));
    let heavy = matches!(op, Op::EvaluateLong | Op::BlindLong | Op::FinalizeLong | Op::LongInfo) || other == Some(Op::BlindLong);
    let n = if heavy { ctx.tiered(1000, 66_000) } else { ctx.tiered(66_000, 140_000) };
    for i in 0..n {
        let got = apply(&w, op);
        if got != want {
            fail!("{}: call {i} of {op:?} = {} instead of {}", m.name(), show(&got), show(&want));
        }
        if let Some(o) = other {
            if apply(&w, o) != *wo.as_ref().unwrap() {
                fail!("{}: call {i} of {o:?} after {op:?} differs", m.name());
            }
        }
    }
    chk!(snapshot(&w) == before, "{n} times {op:?} changed an object");
    ctx.op(n);
    ctx.state(&(m, format!("{op:?} {other:?}")));
    ctx.outcome("stable");
    Ok(())
}

/// the objects of one world used by several threads in turn: thread-local state must not matter
pub fn threads(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &FAST[..ctx.tiered(1, 3)]);
    let m = *ctx.pick("mode", &MODES);
    let list = ops(m, false);
    let o1 = *ctx.pick("here", &list);
    let o2 = *ctx.pick("there", &list);
    let w = world(a, m)?;
    check_one(&w, o1, &[o1])?;
    let r: Res = std::thread::Builder::new()
        .spawn(move || {
            // objects are rebuilt from the same data
            let w2 = world(a, m)?;
            check_one(&w2, o2, &[o1, o2])?;
            check_one(&w2, o1, &[o1, o2, o1])
        })
        .unwrap()
        .join()
        .unwrap_or_else(|_| Err(Viol(format!("{} {}: {o2:?} panics on another thread after {o1:?}", a.name(), m.name()))));
    r?;
    check_one(&w, o2, &[o1, o2, o1, o2])?;
    ctx.op(4);
    ctx.state(&(a.name(), m, format!("{o1:?}{o2:?}")));
    ctx.outcome("same on every thread");
    Ok(())
}

/// Two protocol runs that differ in some of suite, mode, key, input and info, then the first again:
/// nothing may leak from one into the other (caches, statics), whatever they have in common.
pub fn cross(ctx: &mut Ctx) -> Res {
    let suites: Vec<A> = IDS.iter().chain(&REAL).chain(&MIX).copied().collect();
    let a = *ctx.pick("suite", &suites);
    let b = *ctx.pick("other suite", &suites);
    let ma = *ctx.pick("mode", &MODES);
    let mb = *ctx.pick("other mode", &MODES);
    let (nl, ni) = ctx.tiered((2, 2), (4, 4));
    let len = [5, 100, 300, 0][ctx.choose("length", nl)];
    let il = if ma == Md::Poprf || mb == Md::Poprf { [70, 5, 300, 0][ctx.choose("info length", ni)] } else { 0 };
    // what else differs
    let same_suite = a.name() == b.name();
    let vary = ctx.choose("difference", if same_suite { 6 } else { ctx.tiered(2, 6) });
    let mut inputs = [fill(len, 1), fill(len, 1)];
    let mut infos = [fill(il, 2), fill(il, 2)];
    let mut keys = [rs(a, 3), rs(b, 3)];
    let mut flip = |v: &mut B, last: bool| {
        if v.is_empty() {
            v.push(1);
        } else {
            let i = if last { v.len() - 1 } else { 0 };
            v[i] ^= 1;
        }
    };
    match vary {
        0 => {}
        1 => {
            flip(&mut inputs[1], true);
            flip(&mut infos[1], true);
        }
        2 => keys[1] = rs(b, 4),
        3 => flip(&mut inputs[1], false),
        4 => flip(&mut infos[1], false),
        _ => {
            inputs[1].push(0);
            infos[1].push(0);
        }
    }
    for i in [0, 1, 0] {
        let (s, m) = [(a, ma), (b, mb)][i];
        let info = (m == Md::Poprf).then_some(infos[i].as_slice());
        let how = if m == Md::Oprf { How::Det(rs(s, 6)) } else { How::Rng };
        run1::<true>(ctx, s, m, &keys[i], how, &inputs[i], info, &mut ScriptRng::stream(11))?;
        let seed = &[7; 32];
        eq!(s.derive_key(seed, &inputs[i], m), s.spec().derive(seed, &inputs[i], m).map(|x| x.0), "{} {} derived key after other operations", s.name(), m.name());
        ctx.op(1);
    }
    ctx.outcome("independent");
    Ok(())
}
