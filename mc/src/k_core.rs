//! Core evaluation kernels: C01, C02, C04.
use crate::api::*;
use crate::engine::*;
use crate::h::*;
use crate::spec::*;
use crate::suites::*;
use std::collections::HashMap;

use crate::toy::{self, ScriptRng, QK};
use crate::{chk, eq, fail};

fn infos() -> Vec<Option<B>> {
    vec![None, Some(vec![]), Some(b"i".to_vec())]
}

/// every key, blinding factor, hash value, info scalar and nonce of tiny groups
pub fn toy_space<const RFC: bool>(ctx: &mut Ctx) -> Res {
    let n = ctx.tiered(4, 5);
    let a = *ctx.pick("group", &TOYS[..n]);
    let q = q(a);
    let m = *ctx.pick("mode", &MODES);
    let input = b"x".to_vec();
    let info = if m == Md::Poprf { ctx.pick("info", &infos()).clone() } else { None };
    let sk = 1 + ctx.choose("sk", q as usize - 1) as u64;
    let b = 1 + ctx.choose("blind", q as usize - 1) as u64;
    let h = 1 + ctx.choose("h2g", q as usize - 1) as u64;
    pin_h2g(a, m, &input, h);
    if m == Md::Poprf {
        let t = ctx.choose("hinfo", q as usize) as u64;
        pin_info(a, info.as_deref().unwrap_or(b""), t);
    }
    let mut script = vec![];
    let det = m == Md::Oprf && ctx.flag("danger");
    let how = if det {
        How::Det(sc(a, b))
    } else {
        script.extend(b.to_be_bytes());
        How::Rng
    };
    if m != Md::Oprf {
        let r = 1 + ctx.choose("nonce", q as usize - 1) as u64;
        script.extend(r.to_be_bytes());
    }
    let mut rng = ScriptRng::with_tail(script, 7);
    run1::<RFC>(ctx, a, m, &sc(a, sk), how, &input, info.as_deref(), &mut rng)?;
    Ok(())
}

/// every input length (and edge lengths), with info lengths, on collision-free toy suites
pub fn lengths<const RFC: bool>(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &BIGS);
    let m = *ctx.pick("mode", &MODES);
    let sweep_info = m == Md::Poprf && ctx.flag("sweep-info");
    let full = ctx.thorough() && a.name() == T61.name();
    let max = if full { 65536 } else { ctx.tiered(1101, 4200) };
    let edges = if full { vec![] } else { edge_lens() };
    let i = ctx.choose("len", max + edges.len());
    let len = if i < max { i } else { edges[i - max] };
    let sk = rs(a, 5);
    let pat = ctx.choose("content", 2);
    let mk = |n: usize| if pat == 0 { vec![0; n] } else { fill(n, 3) };
    let (input, info) = if sweep_info {
        (b"x".to_vec(), Some(mk(len)))
    } else if m == Md::Poprf {
        let il = *ctx.pick("infolen", &[None, Some(0), Some(1), Some(300)]);
        (mk(len), il.map(|n| fill(n, 9)))
    } else {
        (mk(len), None)
    };
    let how = How::Det(rs(a, 6));
    run1::<RFC>(ctx, a, m, &sk, how, &input, info.as_deref(), &mut ScriptRng::stream(11))?;
    Ok(())
}

/// shipped suites over a grid of boundary and generic keys, blinds, inputs and infos
pub fn real_grid<const RFC: bool>(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &REAL);
    let m = *ctx.pick("mode", &MODES);
    let nk = ctx.tiered(3, 8);
    let sk = ctx.pick("sk", &scalars(a, nk)).clone();
    let mut blinds: Vec<Option<B>> = scalars(a, ctx.tiered(3, 7)).into_iter().map(Some).collect();
    blinds.push(None);
    let b = ctx.pick("blind", &blinds).clone();
    let inputs: Vec<B> = vec![b"".to_vec(), vec![0], fill(300, 4), vec![0xFF; 64], fill(65535, 1)];
    let input = ctx.pick("input", &inputs[..ctx_n(ctx, 3, 5)]).clone();
    let info = if m == Md::Poprf {
        let all = [None, Some(b"".to_vec()), Some(b"info".to_vec()), Some(fill(256, 2)), Some(vec![0; 65535])];
        ctx.pick("info", &all[..ctx_n(ctx, 3, 5)]).clone()
    } else {
        None
    };
    let how = match b {
        Some(b) => How::Det(b),
        None => How::Rng,
    };
    run1::<RFC>(ctx, a, m, &sk, how, &input, info.as_deref(), &mut ScriptRng::stream(21))?;
    Ok(())
}
fn ctx_n(ctx: &Ctx, q: usize, t: usize) -> usize {
    ctx.tiered(q, t)
}

/// every batch size, every element equal to its direct evaluation
pub fn batch_sizes<const RFC: bool>(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &BIGS);
    let m = *ctx.pick("mode", &VER);
    let max = ctx.tiered(141, 1100);
    let mut edges = vec![255, 256, 257, 258, 300];
    edges.extend(size_edges(a));
    let i = ctx.choose("n", max + edges.len());
    let n = if i < max { i } else { edges[i - max] };
    let pat = if n > 1100 && !ctx.thorough() { 0 } else { ctx.choose("pattern", 3) };
    let alloc = ctx.flag("alloc");
    let info = if m == Md::Poprf { Some(b"batch-info".to_vec()) } else { None };
    let inputs = batch_inputs(n, [0, 1, 3][pat]);
    let sk = rs(a, 8);
    let mut rng = ScriptRng::stream(5 + n as u64);
    let r = run_batch(ctx, a, m, &sk, &inputs, info.as_deref(), alloc, Coll::Vec, &mut rng)?;
    let outs = er(finalize_all(ctx, a, m, &inputs, &r, info.as_deref(), Coll::Vec, Drain::All), "batch_finalize")?;
    chk!(outs.len() == n, "{} outputs for {n} inputs", outs.len());
    let s = a.spec();
    for i in 0..n {
        let o = er(outs[i].clone(), "batch output")?;
        let d = er(a.evaluate(&r.server, &inputs[i], info.as_deref()), "evaluate")?;
        chk!(o == d, "{} {} batch of {n}: output {i} differs from evaluate", a.name(), m.name());
        if RFC {
            eq!(d, er(s.evaluate(&sk, &inputs[i], info.as_deref(), m), "ref")?, "output {i} of {n}");
        }
    }
    ctx.op(n as u64);
    if RFC {
        let k = er(s.eval_scalar(&sk, info.as_deref(), m), "ref")?;
        let bl: Vec<B> = r.bls.iter().map(|x| a.ser(x)).collect();
        let ev: Vec<B> = r.evs.iter().map(|x| a.ser(x)).collect();
        for i in 0..n {
            eq!(ev[i], s.mul(&bl[i], &k), "evaluation element {i} of {n}");
        }
        check_proof_rfc(a, m, &sk, &bl, &ev, info.as_deref(), &a.ser(&r.proof))?;
    }
    ctx.state(&(a.name(), m, n, pat, a.ser(&r.proof)));
    ctx.outcome(&format!("{} batch ok", m.name()));
    Ok(())
}

/// shipped suites, small batches, RFC lockstep
pub fn batch_real<const RFC: bool>(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &REAL);
    let m = *ctx.pick("mode", &VER);
    let mut sizes: Vec<usize> = (0..ctx.tiered(5, 18)).collect();
    sizes.extend(ctx.tiered(&[16usize, 33, 64, 129, 257][..], &[31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300]));
    let mut n = *ctx.pick("n", &sizes);
    if !ctx.thorough() && a.spec().ns() > 40 && n > 40 {
        n /= 8;
    }
    let alloc = ctx.flag("alloc");
    let key = ctx.choose("sk", ctx.tiered(2, 3));
    let sk = [rs(a, 30), neg1(a), sc(a, 1)][key].clone();
    let info = if m == Md::Poprf { Some(b"info".to_vec()) } else { None };
    let pat = ctx.choose("pattern", 2);
    let inputs = batch_inputs(n, pat);
    let mut rng = ScriptRng::stream(99 + n as u64);
    let r = run_batch(ctx, a, m, &sk, &inputs, info.as_deref(), alloc, Coll::Vec, &mut rng)?;
    let outs = er(finalize_all(ctx, a, m, &inputs, &r, info.as_deref(), Coll::Vec, Drain::All), "batch_finalize")?;
    chk!(outs.len() == n, "{} outputs for {n} inputs", outs.len());
    for i in 0..n {
        let d = er(a.evaluate(&r.server, &inputs[i], info.as_deref()), "evaluate")?;
        chk!(outs[i] == Ok(d.clone()), "{} {} batch of {n}: output {i} differs from evaluate", a.name(), m.name());
        if RFC {
            eq!(d, er(a.spec().evaluate(&sk, &inputs[i], info.as_deref(), m), "ref")?, "output {i}");
        }
    }
    if RFC {
        let bl: Vec<B> = r.bls.iter().map(|x| a.ser(x)).collect();
        let ev: Vec<B> = r.evs.iter().map(|x| a.ser(x)).collect();
        check_proof_rfc(a, m, &sk, &bl, &ev, info.as_deref(), &a.ser(&r.proof))?;
    }
    ctx.state(&(a.name(), m, n, a.ser(&r.proof)));
    ctx.outcome(&format!("{} batch ok", m.name()));
    Ok(())
}

/// Honest proofs: tiny groups, every key, two blinds, hash values, weights and nonce.
pub fn complete_toy(ctx: &mut Ctx) -> Res {
    let n = ctx.tiered(2, 3);
    let a = *ctx.pick("group", &TOYS[..n]);
    let q = q(a) as usize;
    let m = *ctx.pick("mode", &VER);
    let size = ctx.choose("n", 3);
    let sk = 1 + ctx.choose("sk", q - 1) as u64;
    let inputs = batch_inputs(size, 0);
    let mut script = vec![];
    for i in 0..size {
        let hb = 1 + ctx.choose("blinded", q - 1) as u64;
        pin_h2g(a, m, &inputs[i], hb);
        script.extend(1u64.to_be_bytes());
    }
    let r = 1 + ctx.choose("nonce", q - 1) as u64;
    script.extend(r.to_be_bytes());
    let info: Option<B> = if m == Md::Poprf { Some(b"i".to_vec()) } else { None };
    if m == Md::Poprf {
        let t = ctx.choose("hinfo", q) as u64;
        if (t + sk) % q as u64 == 0 {
            return Ok(()); // no evaluation defined (covered by C15)
        }
        pin_info(a, b"i", t);
    }
    let mut rng = ScriptRng::with_tail(script, 3);
    // learn the weight and challenge queries, then pin every weight value
    let skb = sc(a, sk);
    toy::oracle_log_on();
    let r0 = run_batch(ctx, a, m, &skb, &inputs, info.as_deref(), true, Coll::Vec, &mut rng.clone())?;
    let qs: Vec<_> = toy::oracle_take_log()
        .into_iter()
        .filter(|x| x.kind == QK::Scalar && x.input.ends_with(b"Composite"))
        .collect();
    drop(r0);
    for x in &qs {
        let w = ctx.choose("weight", q) as u64;
        toy::oracle_override(QK::Scalar, &x.dst, &x.input, w);
    }
    let r = run_batch(ctx, a, m, &skb, &inputs, info.as_deref(), true, Coll::Vec, &mut rng)?;
    let outs = er(finalize_all(ctx, a, m, &inputs, &r, info.as_deref(), Coll::Vec, Drain::All), "honest batch_finalize")?;
    chk!(outs.len() == size && outs.iter().all(|o| o.is_ok()), "honest outputs {outs:?}");
    if size == 1 {
        let o = a.finalize(&r.clients[0], &inputs[0], &r.evs[0], Some(&r.proof), Some(&r.pk), info.as_deref());
        chk!(o == outs[0], "single finalize of an honest batch of one: {o:?} vs {:?}", outs[0]);
        ctx.op(1);
    }
    ctx.state(&(a.name(), m, sk, r.bls.iter().map(|b| a.ser(b)).collect::<Vec<_>>(), a.ser(&r.proof)));
    ctx.outcome(&format!("{} n={size} weights={} ok", m.name(), qs.len()));
    Ok(())
}

/// Honest proofs verify for every batch size, with the key pair obtained in every way.
pub fn complete_sizes(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &BIGS);
    let m = *ctx.pick("mode", &VER);
    let max = ctx.tiered(301, 1300);
    let edges = size_edges(a);
    let i = ctx.choose("n", max + edges.len());
    let n = if i < max { i } else { edges[i - max] };
    let alloc = ctx.flag("alloc");
    let inputs = batch_inputs(n, 2);
    let info = if m == Md::Poprf { *ctx.pick("info", &[None, Some(b"z".as_slice())]) } else { None };
    let mut rng = ScriptRng::stream(n as u64 + 1);
    let r = run_batch(ctx, a, m, &rs(a, 40), &inputs, info, alloc, Coll::Vec, &mut rng)?;
    let outs = er(finalize_all(ctx, a, m, &inputs, &r, info, Coll::Vec, Drain::All), "honest batch_finalize")?;
    chk!(outs.len() == n && outs.iter().all(|o| o.is_ok()), "honest batch of {n}: some outputs failed");
    ctx.state(&(a.name(), m, n, a.ser(&r.proof)));
    ctx.outcome(&format!("{} ok", m.name()));
    Ok(())
}

/// Honest runs on shipped suites: all ways to obtain a server, key and nonce boundary values.
pub fn complete_real(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &REAL);
    let m = *ctx.pick("mode", &VER);
    let way = ctx.choose("server", 7);
    let s = match way {
        0 => a.server_new(m, &mut ScriptRng::stream(1)),
        1 => a.server_from_seed(m, b"seed", b"key info"),
        2 => a.server_with_key(m, &sc(a, 1)),
        3 => a.server_with_key(m, &neg1(a)),
        4 => a.server_new(m, &mut ScriptRng::with_tail(vec![0; 256], 1)),
        5 => a.server_new(m, &mut ScriptRng::with_tail(vec![0xFF; 256], 1)),
        _ => a.server_with_key(m, &sc(a, 255)).and_then(|s| a.de(server_kind(m), &a.ser(&s))),
    };
    let server = er(s, "server construction")?;
    let pk = a.server_pk(&server).unwrap();
    let n = ctx.choose("n", ctx.tiered(4, 12));
    let nonce = ctx.choose("rng", 3);
    let info = if m == Md::Poprf { *ctx.pick("info", &[None, Some(b"i".as_slice())]) } else { None };
    let inputs = batch_inputs(n, 0);
    let mut rng = ScriptRng::stream(5);
    let (clients, bls) = blind_all(ctx, a, m, &inputs, &mut rng)?;
    let mut rng = match nonce {
        0 => ScriptRng::stream(77),
        1 => ScriptRng::with_tail(vec![0; 300], 8),
        _ => ScriptRng::with_tail(vec![0xFF; 300], 9),
    };
    let b = er(eval_batch(ctx, a, &server, &bls, info, n % 2 == 0, Coll::Vec, &mut rng), "batch evaluation")?;
    let outs = a.batch_finalize(m, &inputs, &refs(&clients), &refs(&b.msgs), &b.proof, &pk, info, Coll::Vec, Drain::All);
    match outs {
        Ok(v) => chk!(v.len() == n && v.iter().all(|o| o.is_ok()), "honest outputs failed"),
        Err(e) => fail!("honest batch of {n} ({} {} server way {way} rng {nonce}) rejected: {e:?}", a.name(), m.name()),
    }
    ctx.op(2);
    ctx.state(&(a.name(), m, way, n, nonce, a.ser(&b.proof)));
    ctx.outcome(&format!("{} ok", m.name()));
    Ok(())
}

fn unhex(x: &str) -> B {
    (0..x.len() / 2).map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).unwrap()).collect()
}
/// the published RFC 9497 vectors, against the reference model and the implementation
pub fn vectors(ctx: &mut Ctx) -> Res {
    let all: Vec<HashMap<&str, &str>> =
        include_str!("vectors.txt").lines().map(|l| l.split(' ').map(|f| f.split_once('=').unwrap()).collect()).collect();
    let v: Vec<_> = all.into_iter().filter_map(|v| REAL.iter().find(|a| a.suite_id() == v["suite"]).map(|a| (*a, v))).collect();
    chk!(v.len() == 32, "{} vectors for the shipped suites instead of 32", v.len());
    let (a, v) = ctx.pick("vector", &v).clone();
    let s = a.spec();
    let m = *MODES.iter().find(|m| m.name().eq_ignore_ascii_case(v["mode"])).unwrap();
    let one = |k: &str| unhex(v[k]);
    let many = |k: &str| -> Vec<B> { v[k].split(',').map(unhex).collect() };
    let info = v.get("Info").map(|i| unhex(i));
    let info = info.as_deref();
    let (sk, pk) = er(s.derive(&one("Seed"), &one("KeyInfo"), m), "model derivation")?;
    assert!(sk == one("skSm") && v.get("pkSm").map(|p| unhex(p) == pk).unwrap_or(true), "harness: model key differs from the vector");
    let server = er(a.server_from_seed(m, &one("Seed"), &one("KeyInfo")), "derivation")?;
    eq!(a.ser(&server)[..s.ns()].to_vec(), sk, "derived key");
    let (ins, blinds, bes, ees, outs) = (many("Input"), many("Blind"), many("BlindedElement"), many("EvaluationElement"), many("Output"));
    let (mut cl, mut bl) = (vec![], vec![]);
    for i in 0..ins.len() {
        assert!(s.blind(&ins[i], &blinds[i], m) == Ok(bes[i].clone()), "harness: model blinded element differs from the vector");
        assert!(s.mul(&bes[i], &s.eval_scalar(&sk, info, m).unwrap()) == ees[i], "harness: model evaluation differs from the vector");
        assert!(s.evaluate(&sk, &ins[i], info, m) == Ok(outs[i].clone()), "harness: model output differs from the vector");
        let (c, b) = er(a.blind_det(m, &ins[i], &blinds[i]), "blind")?;
        eq!(a.ser(&b), bes[i], "blinded element");
        eq!(er(a.evaluate(&server, &ins[i], info), "evaluate")?, outs[i], "output");
        cl.push(c);
        bl.push(b);
    }
    ctx.op(2 * ins.len() as u64 + 1);
    let evs: Vec<Obj> = ees.iter().map(|e| a.raw_eval(e)).collect();
    if m == Md::Oprf {
        let (e, _) = er(a.blind_evaluate(&server, &mut ScriptRng::stream(1), &bl[0], info), "blind_evaluate")?;
        eq!(a.ser(&e), ees[0], "evaluation element");
        eq!(er(a.finalize(&cl[0], &ins[0], &evs[0], None, None, info), "finalize")?, outs[0], "finalized output");
    } else {
        let pf = s.server_prove(&sk, &bes, &ees, info, &one("ProofRandomScalar"), m);
        assert!(pf == Ok(one("Proof")), "harness: model proof differs from the vector");
        let p = er(a.de(Kind::Proof, &one("Proof")), "proof")?;
        let got = er(a.batch_finalize(m, &ins, &refs(&cl), &refs(&evs), &p, &pk, info, Coll::Vec, Drain::All), "batch_finalize")?;
        eq!(got, outs.iter().cloned().map(Ok).collect::<Vec<_>>(), "finalized outputs");
        let b = er(eval_batch(ctx, a, &server, &bl, info, true, Coll::Vec, &mut ScriptRng::stream(1)), "batch evaluation")?;
        for i in 0..ins.len() {
            eq!(a.ser(&b.msgs[i]), ees[i], "evaluation element");
        }
    }
    ctx.state(&(a.name(), m, outs, ins));
    ctx.outcome("as published");
    Ok(())
}

/// inputs of every shape a parser might treat specially
pub fn contents() -> Vec<B> {
    let mut v: Vec<B> = (0..=255u8).map(|b| vec![b]).collect();
    let odd = [0u8, 1, 9, 10, 13, 32, b'"', b'/', b'0', b'=', b'A', b'a', 0x7F, 0x80, 0xC3, 0xFE, 0xFF];
    for x in odd {
        for y in odd {
            v.push(vec![x, y]);
        }
        for t in [&b"abc"[..], b"Finalize", b"OPRFV1-"] {
            v.push([t, &[x]].concat());
            v.push([&[x], t].concat());
            v.push([t, &[x, x]].concat());
            v.push([&t[..2], &[x], &t[2..]].concat());
        }
        v.push(vec![x; 16]);
        v.push(vec![x; 33]);
    }
    for n in [0u8, 3, 32, 255] {
        v.push([vec![0, n], fill(n as usize, 1)].concat());
    }
    v.push("\u{feff}text".into());
    v.push("na\u{ef}ve \u{1F600}".into());
    v.sort();
    v.dedup();
    v
}
/// every shipped suite: inputs and infos of every shape
pub fn real_contents<const RFC: bool>(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &if ctx.thorough() { [&REAL[..], &MIX].concat() } else { [&REAL[..3], &MIX[..1]].concat() });
    let m = *ctx.pick("mode", &MODES);
    let c = contents();
    let x = ctx.pick("content", &c).clone();
    let as_info = m == Md::Poprf && ctx.flag("as-info");
    let (input, info) = if as_info { (b"x".to_vec(), Some(x)) } else { (x, (m == Md::Poprf).then(|| b"i".to_vec())) };
    run1::<RFC>(ctx, a, m, &rs(a, 15), How::Rng, &input, info.as_deref(), &mut ScriptRng::stream(31))?;
    Ok(())
}
/// every shipped suite: every input length up to the bound and edges
pub fn real_lengths<const RFC: bool>(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &if ctx.thorough() { [&REAL[..], &MIX].concat() } else { [&REAL[..2], &MIX].concat() });
    let m = *ctx.pick("mode", &MODES);
    let max = ctx.tiered(280, 1200);
    let edges = edge_lens();
    let i = ctx.choose("length", max + edges.len());
    let n = if i < max { i } else { edges[i - max] };
    let as_info = m == Md::Poprf && ctx.flag("as-info");
    let x = if n % 2 == 0 { vec![0; n] } else { fill(n, 13) };
    let (input, info) = if as_info { (b"x".to_vec(), Some(x)) } else { (x, (m == Md::Poprf).then(|| b"i".to_vec())) };
    run1::<RFC>(ctx, a, m, &rs(a, 16), How::Det(rs(a, 17)), &input, info.as_deref(), &mut ScriptRng::stream(32))?;
    Ok(())
}
/// scalars with one, two or all but a few bits set, and their negatives
pub fn bit_scalars(a: A, step: usize) -> Vec<B> {
    let s = a.spec();
    let mut v = vec![];
    let mut p = s.one();
    let bits = s.ns() * 8 - if a.name() == "P521" { 7 } else { 1 };
    for i in 0..bits {
        if i % step == 0 || i + 3 > bits || (i % 8 == 7 && step < 32) {
            v.extend([p.clone(), s.sadd(&p, &s.one()), s.ssub(&p, &s.one())]);
        }
        p = s.sadd(&p, &p);
    }
    for i in 0..v.len() {
        v.push(s.ssub(&s.zero(), &v[i]));
    }
    v.extend((2..40).flat_map(|i| [s.scalar(i), s.sinv(&s.scalar(i))]));
    v.retain(|x| s.scalar_ok(x));
    let mut seen = std::collections::BTreeSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}
/// every shipped suite: boundary values as key, as blinding factor and as nonce
pub fn real_scalars<const RFC: bool>(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &REAL);
    let m = *ctx.pick("mode", &MODES);
    let role = ctx.choose("role", if m == Md::Oprf { 2 } else { 3 });
    let step = ctx.tiered(if a.spec().ns() > 40 { 64 } else { 16 }, 4);
    let v = bit_scalars(a, step);
    let x = ctx.pick("value", &v).clone();
    let (mut sk, mut b) = (rs(a, 18), rs(a, 19));
    let mut rng = ScriptRng::stream(33);
    match role {
        0 => sk = x,
        1 => b = x,
        // the implementation maps RNG output to scalars in its own way: both byte orders, padded
        _ => rng = ScriptRng::with_tail([x.clone(), vec![0; 64 - x.len().min(64)]].concat(), 34),
    }
    let info = (m == Md::Poprf).then(|| b"i".to_vec());
    run1::<RFC>(ctx, a, m, &sk, How::Det(b), b"input", info.as_deref(), &mut rng)?;
    Ok(())
}
