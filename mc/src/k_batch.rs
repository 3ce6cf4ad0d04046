//! Batches: C07 (batch = items), C08 (mismatched / oversized), C09 (length limits).
use crate::api::*;
use crate::engine::*;
use crate::h::*;
use crate::spec::*;
use crate::suites::*;
use crate::toy::ScriptRng;
use crate::{chk, eq, fail};

pub fn sers(a: A, v: &[Obj]) -> Vec<B> {
    v.iter().map(|o| a.ser(o)).collect()
}
fn info_for(m: Md) -> Option<&'static [u8]> {
    (m == Md::Poprf).then_some(b"batch-info".as_slice())
}

/// Everything a batch of one size means, computed item by item.
struct Items {
    inputs: Vec<B>,
    clients: Vec<Obj>,
    bls: Vec<Obj>,
    server: Obj,
    pk: B,
    evs: Vec<B>,
    outs: Vec<B>,
}
fn items(ctx: &mut Ctx, a: A, m: Md, n: usize, pat: usize, info: Option<&[u8]>) -> Result<Items, Viol> {
    let server = er(a.server_with_key(m, &rs(a, 61)), "server")?;
    let pk = a.server_pk(&server).unwrap();
    let inputs = batch_inputs(n, pat);
    let mut rng = ScriptRng::stream(31 + n as u64);
    let (clients, bls) = blind_all(ctx, a, m, &inputs, &mut rng)?;
    let (mut evs, mut outs) = (vec![], vec![]);
    for i in 0..n {
        let (ev, pf) = er(a.blind_evaluate(&server, &mut rng, &bls[i], info), "blind_evaluate")?;
        outs.push(er(a.finalize(&clients[i], &inputs[i], &ev, pf.as_ref(), Some(&pk), info), "finalize")?);
        evs.push(a.ser(&ev));
    }
    ctx.op(2 * n as u64);
    Ok(Items { inputs, clients, bls, server, pk, evs, outs })
}

fn batch_vs_items(ctx: &mut Ctx, a: A, m: Md, n: usize, pat: usize, alloc: bool, c: Coll, d: Drain) -> Res {
    let info = info_for(m);
    let it = items(ctx, a, m, n, pat, info)?;
    let what = format!("{} {} batch of {n} (pattern {pat}, {c:?}, alloc={alloc}, {d:?})", a.name(), m.name());
    let b = er(eval_batch(ctx, a, &it.server, &it.bls, info, alloc, c, &mut ScriptRng::stream(3)), &what)?;
    chk!(b.msgs.len() == n, "{what}: {} evaluation elements", b.msgs.len());
    for i in 0..n {
        eq!(hexs(&a.ser(&b.msgs[i])), hexs(&it.evs[i]), "{what}: evaluation element {i}");
    }
    // the other API gives the same bytes for the same randomness
    let o = er(eval_batch(ctx, a, &it.server, &it.bls, info, !alloc, Coll::Vec, &mut ScriptRng::stream(3)), &what)?;
    eq!(sers(a, &o.msgs), sers(a, &b.msgs), "{what}: messages, alloc vs prepare/finish");
    eq!(a.ser(&o.proof), a.ser(&b.proof), "{what}: proof, alloc vs prepare/finish");
    let outs = er(a.batch_finalize(m, &it.inputs, &refs(&it.clients), &refs(&b.msgs), &b.proof, &it.pk, info, c, d), &what)?;
    ctx.op(1);
    let want: Vec<R<B>> = match d {
        Drain::All | Drain::Step => it.outs.iter().cloned().map(Ok).collect(),
        Drain::Prefix(k) => it.outs.iter().take(k).cloned().map(Ok).collect(),
        Drain::Nth(k) => it.outs.iter().skip(k).take(1).cloned().map(Ok).collect(),
    };
    if outs != want {
        let i = (0..outs.len().min(want.len())).find(|i| outs[*i] != want[*i]);
        fail!("{what}: results differ from finalizing the items one by one: {} vs {} results, first difference at {i:?}", outs.len(), want.len());
    }
    ctx.state(&(a.name(), m, n, pat, a.ser(&b.proof)));
    ctx.note(|| format!("{what}: proof {}", hexs(&a.ser(&b.proof))));
    ctx.outcome(m.name());
    Ok(())
}

fn drains(n: usize) -> Vec<Drain> {
    let mut v = vec![Drain::All, Drain::Step];
    for k in 0..=n {
        v.push(Drain::Prefix(k));
        v.push(Drain::Nth(k));
    }
    v
}

/// small sizes: every collection kind, API and way to drain
pub fn small(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &[T61, TW, TOYS[2], REAL[0]]);
    let m = *ctx.pick("mode", &VER);
    let n = ctx.choose("n", ctx.tiered(7, 13));
    let c = *ctx.pick("collection", &COLLS);
    let alloc = ctx.flag("alloc");
    let d = *ctx.pick("drain", &drains(n));
    let pat = ctx.choose("pattern", 3);
    if a.toy_q().is_some() && q(a) < 100 {
        // hash values that are never the identity, weights fixed
        for (i, x) in batch_inputs(n, pat).iter().enumerate() {
            pin_h2g(a, m, x, 1 + (i as u64 * 5 + 2) % (q(a) - 1));
        }
        pin_info(a, b"batch-info", 0);
    }
    batch_vs_items(ctx, a, m, n, pat, alloc, c, d)
}

/// every size
pub fn sizes(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &BIGS);
    let m = *ctx.pick("mode", &VER);
    let max = ctx.tiered(400, 1500);
    let edges = size_edges(a);
    let i = ctx.choose("n", max + edges.len());
    let n = if i < max { i } else { edges[i - max] };
    let alloc = ctx.flag("alloc");
    let pat = if n > 1100 && !ctx.thorough() { 0 } else { ctx.choose("pattern", 3) };
    batch_vs_items(ctx, a, m, n, pat, alloc, COLLS[n % 3], if n % 2 == 0 { Drain::All } else { Drain::Step })
}

pub fn real(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &REAL);
    let m = *ctx.pick("mode", &VER);
    let n = ctx.choose("n", ctx.tiered(5, 12));
    let c = *ctx.pick("collection", &COLLS);
    let alloc = ctx.flag("alloc");
    batch_vs_items(ctx, a, m, n, n % 3, alloc, c, Drain::All)
}

/// batches whose elements are related: repeated, negated, doubled, the base element
pub fn related<const RFC: bool>(ctx: &mut Ctx) -> Res {
    let real = ctx.flag("shipped");
    let a = if real { *ctx.pick("suite", &REAL) } else { *ctx.pick("suite", &BIGS) };
    let m = *ctx.pick("mode", &VER);
    let n = 2 + ctx.choose("n", if real { ctx.tiered(2, 3) } else { ctx.tiered(3, 4) });
    let s = a.spec();
    let k = if real { ctx.tiered(5, 6) } else { 7 };
    let rel = |i: usize| -> B {
        let p = re(a, 1);
        match i {
            0 => p,
            1 => s.mul(&p, &neg1(a)),
            2 => re(a, 2),
            3 => s.add(&p, &p),
            4 => s.base(),
            5 => s.mul(&re(a, 2), &neg1(a)),
            _ => s.mul(&s.base(), &neg1(a)),
        }
    };
    let mut pat = vec![];
    for i in 0..n {
        // the first element is P, -P or the base, up to renaming
        pat.push(if i == 0 { *ctx.pick("element", &[0, 4]) } else { ctx.choose("element", k) });
    }
    let alloc = ctx.flag("alloc");
    let info = info_for(m);
    let server = er(a.server_with_key(m, &rs(a, 61)), "server")?;
    let pk = a.server_pk(&server).unwrap();
    let els: Vec<B> = pat.iter().map(|i| rel(*i)).collect();
    let bls: Vec<Obj> = els.iter().map(|e| a.raw_blinded(e)).collect();
    // clients that blinded with 1, 2, ...
    let mut clients = vec![];
    for (i, e) in els.iter().enumerate() {
        let st = [sc(a, i as u64 + 1), e.clone()].concat();
        clients.push(er(a.de(client_kind(m), &st), "restoring a client")?);
    }
    let inputs = batch_inputs(n, 0);
    let what = format!("{} {} batch {pat:?} (0=P 1=-P 2=Q 3=2P 4=G 5=-Q 6=-G, alloc={alloc})", a.name(), m.name());
    let b = er(eval_batch(ctx, a, &server, &bls, info, alloc, Coll::Vec, &mut ScriptRng::stream(3)), &what)?;
    chk!(b.msgs.len() == n, "{what}: {} evaluation elements", b.msgs.len());
    let mut outs = vec![];
    let key = er(s.eval_scalar(&rs(a, 61), info, m), "ref")?;
    for i in 0..n {
        let (ev, pf) = er(a.blind_evaluate(&server, &mut ScriptRng::stream(4), &bls[i], info), "blind_evaluate")?;
        eq!(hexs(&a.ser(&b.msgs[i])), hexs(&a.ser(&ev)), "{what}: evaluation element {i}");
        if RFC {
            eq!(hexs(&a.ser(&ev)), hexs(&s.mul(&els[i], &key)), "{what}: evaluation of element {i} alone");
        }
        outs.push(Ok(er(a.finalize(&clients[i], &inputs[i], &ev, pf.as_ref(), Some(&pk), info), "finalize")?));
    }
    let got = er(a.batch_finalize(m, &inputs, &refs(&clients), &refs(&b.msgs), &b.proof, &pk, info, Coll::Vec, Drain::All), &what)?;
    chk!(got == outs, "{what}: results differ from finalizing the items one by one");
    if RFC {
        let ev: Vec<B> = b.msgs.iter().map(|x| a.ser(x)).collect();
        check_proof_rfc(a, m, &rs(a, 61), &els, &ev, info, &a.ser(&b.proof))?;
    }
    ctx.op(2 * n as u64 + 1);
    ctx.state(&(a.name(), m, pat, a.ser(&b.proof)));
    ctx.outcome(m.name());
    Ok(())
}

fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut o = vec![];
    for p in perms(n - 1) {
        for i in 0..=p.len() {
            let mut x = p.clone();
            x.insert(i, n - 1);
            o.push(x);
        }
    }
    o
}

/// every permutation of small batches
pub fn permuted(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &[T61, TW, REAL[0]]);
    let m = *ctx.pick("mode", &VER);
    let n = 2 + ctx.choose("n", ctx.tiered(4, 5));
    let p = ctx.pick("permutation", &perms(n)).clone();
    let alloc = ctx.flag("alloc");
    let info = info_for(m);
    let it = items(ctx, a, m, n, 0, info)?;
    let bl: Vec<Obj> = p.iter().map(|i| a.dup(&it.bls[*i])).collect();
    let cl: Vec<&Obj> = p.iter().map(|i| &it.clients[*i]).collect();
    let inp: Vec<B> = p.iter().map(|i| it.inputs[*i].clone()).collect();
    let b = er(eval_batch(ctx, a, &it.server, &bl, info, alloc, Coll::Vec, &mut ScriptRng::stream(4)), "permuted batch")?;
    chk!(b.msgs.len() == n, "{} elements for {n}", b.msgs.len());
    for (j, i) in p.iter().enumerate() {
        eq!(a.ser(&b.msgs[j]), it.evs[*i], "element {j} of the permuted batch {p:?}");
    }
    let outs = er(a.batch_finalize(m, &inp, &cl, &refs(&b.msgs), &b.proof, &it.pk, info, Coll::Vec, Drain::All), "permuted finalize")?;
    let want: Vec<R<B>> = p.iter().map(|i| Ok(it.outs[*i].clone())).collect();
    chk!(outs == want, "{} {}: outputs of the permuted batch {p:?} are not the permuted outputs", a.name(), m.name());
    ctx.op(1);
    ctx.state(&(a.name(), m, p, a.ser(&b.proof)));
    ctx.outcome(m.name());
    Ok(())
}

/// two live batches, every interleaving of their lazy iterators
pub fn interleaved(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &[T61, TW, REAL[0]]);
    let m = *ctx.pick("mode", &VER);
    let k = ctx.tiered(4, 5);
    let n = ctx.choose("n0", k);
    let l = ctx.choose("n1", k);
    let same_server = ctx.flag("same-server");
    let mut sched = vec![];
    for _ in 0..n + l {
        sched.push(ctx.flag("advance"));
    }
    let info = [info_for(m), (m == Md::Poprf).then_some(b"other".as_slice())];
    let s0 = er(a.server_with_key(m, &rs(a, 61)), "server")?;
    let s1 = er(a.server_with_key(m, &rs(a, if same_server { 61 } else { 62 })), "server")?;
    let pk = [a.server_pk(&s0).unwrap(), a.server_pk(&s1).unwrap()];
    let ins = [batch_inputs(n, 0), batch_inputs(l, 3)];
    let mut rng = ScriptRng::stream(8);
    let (c0, b0) = blind_all(ctx, a, m, &ins[0], &mut rng)?;
    let (c1, b1) = blind_all(ctx, a, m, &ins[1], &mut rng)?;
    let (r0, r1) = (refs(&b0), refs(&b1));
    let [p0, p1] = er(a.inter_prepare([&s0, &s1], [&r0, &r1], info, &sched), "prepare")?;
    let (q0, t0) = er(a.prepare(&s0, &r0, info[0], Coll::Vec), "prepare")?;
    let (q1, t1) = er(a.prepare(&s1, &r1, info[1], Coll::Vec), "prepare")?;
    let sb = |v: &[Obj]| -> Result<Vec<B>, Viol> { v.iter().map(|o| a.serde_ser(o, Fmt::Bincode).map_err(Viol)).collect() };
    eq!(sb(&p0)?, sb(&q0)?, "{} {} prepared elements of the first of two interleaved batches ({sched:?})", a.name(), m.name());
    eq!(sb(&p1)?, sb(&q1)?, "{} {} prepared elements of the second of two interleaved batches ({sched:?})", a.name(), m.name());
    let mut r = ScriptRng::stream(12);
    let [f0, f1] = er(a.inter_finish([&s0, &s1], [&r0, &r1], [&refs(&p0), &refs(&p1)], [t0.as_ref(), t1.as_ref()], &mut r, &sched), "finish")?;
    let mut r = ScriptRng::stream(12);
    let g0 = er(a.finish(&s0, &mut r, &r0, &refs(&q0), t0.as_ref(), Coll::Vec), "finish")?;
    let g1 = er(a.finish(&s1, &mut r, &r1, &refs(&q1), t1.as_ref(), Coll::Vec), "finish")?;
    for (f, g) in [(&f0, &g0), (&f1, &g1)] {
        eq!(sers(a, &f.msgs), sers(a, &g.msgs), "messages of an interleaved finish");
        eq!(a.ser(&f.proof), a.ser(&g.proof), "proof of an interleaved finish");
    }
    let j0 = FinJob { inputs: &ins[0], clients: refs(&c0), evals: refs(&f0.msgs), proof: &f0.proof, pk: &pk[0], info: info[0] };
    let j1 = FinJob { inputs: &ins[1], clients: refs(&c1), evals: refs(&f1.msgs), proof: &f1.proof, pk: &pk[1], info: info[1] };
    let [o0, o1] = er(a.inter_finalize(m, [&j0, &j1], &sched), "finalize")?;
    ctx.op(8);
    for (o, (s, i, x)) in [(o0, (&s0, &ins[0], info[0])), (o1, (&s1, &ins[1], info[1]))] {
        chk!(o.len() == i.len(), "{} results for {} inputs", o.len(), i.len());
        for (y, z) in o.iter().zip(i) {
            chk!(*y == a.evaluate(s, z, x), "{} {}: a result of an interleaved batch is wrong ({sched:?})", a.name(), m.name());
        }
    }
    ctx.state(&(a.name(), m, n, l, sched, a.ser(&f0.proof), a.ser(&f1.proof)));
    ctx.outcome(m.name());
    Ok(())
}

// ---------------------------------------------------------------- C08

fn is_batch<T>(r: &R<T>) -> bool {
    matches!(r, Err(Er::Batch))
}

/// finish: every pair of counts
pub fn finish_counts(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &FAST);
    let m = *ctx.pick("mode", &VER);
    let k = ctx.tiered(7, 12);
    let n = ctx.choose("blinded", k);
    let p = ctx.choose("prepared", k);
    let c = *ctx.pick("collection", &COLLS);
    let server = er(a.server_with_key(m, &rs(a, 3)), "server")?;
    let bls: Vec<Obj> = (0..n.max(p)).map(|i| a.raw_blinded(&re(a, i as u64))).collect();
    let all = refs(&bls);
    let (ps, t) = er(a.prepare(&server, &all, info_for(m), c), "prepare")?;
    let pr = refs(&ps);
    let r = a.finish(&server, &mut ScriptRng::stream(1), &all[..n], &pr[..p], t.as_ref(), c);
    ctx.op(2);
    if n == p {
        let b = er(r, "finish")?;
        chk!(b.msgs.len() == n, "{} messages for {n}", b.msgs.len());
        ctx.outcome("equal");
    } else {
        chk!(is_batch(&r), "{} {}: finish with {n} blinded and {p} prepared elements gives {:?}", a.name(), m.name(), r.map(|b| b.msgs.len()).map_err(|e| e));
        ctx.outcome("refused");
    }
    ctx.state(&(a.name(), m, n, p, c));
    Ok(())
}

/// batch_finalize: every triple of counts, honest and unrelated proofs
pub fn finalize_counts(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &FAST);
    let m = *ctx.pick("mode", &VER);
    let toy = a.toy_q().is_some();
    let k = if toy { ctx.tiered(6, 9) } else { ctx.tiered(4, 5) };
    let (i, c, e) = (ctx.choose("inputs", k), ctx.choose("clients", k), ctx.choose("evaluations", k));
    // proof over c, e, or i items (or a broken one)
    let pn = ctx.choose("proof", 5);
    let coll = COLLS[(i + c + e) % 3];
    let info = info_for(m);
    let server = er(a.server_with_key(m, &rs(a, 3)), "server")?;
    let pk = a.server_pk(&server).unwrap();
    let n = i.max(c).max(e);
    let inputs = batch_inputs(n, 0);
    let (cl, bl) = blind_all(ctx, a, m, &inputs, &mut ScriptRng::stream(2))?;
    let full = er(eval_batch(ctx, a, &server, &bl, info, true, Coll::Vec, &mut ScriptRng::stream(2)), "batch")?;
    let np = [c, e, i, n, 0][pn];
    let pb = er(eval_batch(ctx, a, &server, &bl[..np], info, true, Coll::Vec, &mut ScriptRng::stream(3)), "batch")?;
    let r = a.batch_finalize(m, &inputs[..i], &refs(&cl)[..c], &refs(&full.msgs)[..e], &pb.proof, &pk, info, coll, Drain::All);
    ctx.op(1);
    let what = format!("{} {}: batch_finalize with {i} inputs, {c} clients, {e} evaluations, proof over {np}", a.name(), m.name());
    if i == c && c == e {
        if np == i {
            let o = er(r, &what)?;
            for x in 0..i {
                chk!(o.len() == i && o[x] == a.evaluate(&server, &inputs[x], info), "{what}: wrong results");
            }
            ctx.outcome("ok");
        } else {
            chk!(matches!(r, Err(Er::ProofVerification)), "{what}: {r:?}");
            ctx.outcome("bad proof");
        }
    } else if c == e && np != c {
        // two things are wrong: either documented error will do
        chk!(matches!(r, Err(Er::ProofVerification) | Err(Er::Batch)), "{what}: {r:?}");
        ctx.outcome("refused, two reasons");
    } else {
        chk!(is_batch(&r), "{what}: {:?}", r.map(|v| v.len()));
        ctx.outcome("refused");
    }
    ctx.state(&(a.name(), m, i, c, e, np));
    Ok(())
}

/// sizes around 65535 and 65536·k, with a proof that is honest for the size modulo 65536
pub fn huge(ctx: &mut Ctx) -> Res {
    let m = *ctx.pick("mode", &VER);
    let op = ctx.choose("op", 4);
    let sizes: &[usize] = if ctx.thorough() {
        &[65533, 65534, 65535, 65536, 65537, 65538, 65540, 65791, 65792, 100_000, 131_070, 131_071, 131_072, 131_073, 131_080, 196_608, 262_145]
    } else {
        &[65534, 65535, 65536, 65537, 65539, 131_071, 131_072, 131_073]
    };
    let n = *ctx.pick("n", sizes);
    let a = if n > 65535 { *ctx.pick("suite", &[T61, TW, REAL[0]]) } else { *ctx.pick("suite", &[T61, TW]) };
    let info = info_for(m);
    let server = er(a.server_with_key(m, &rs(a, 3)), "server")?;
    let pk = a.server_pk(&server).unwrap();
    let k = n % 65536; // what a truncated counter would see
    let toy = a.toy_q().is_some();
    let distinct = if toy { n.min(65536 + 8) } else { 3 };
    let inputs0 = batch_inputs(distinct, 0);
    let (cl, bl) = blind_all(ctx, a, m, &inputs0, &mut ScriptRng::stream(2))?;
    let idx = |i: usize| i % distinct;
    let what = format!("{} {} n={n}", a.name(), m.name());
    let bls: Vec<&Obj> = (0..n).map(|i| &bl[idx(i)]).collect();
    let (ok, len) = match op {
        0 => {
            let r = a.batch_evaluate(&server, &mut ScriptRng::stream(9), &bls, info, Coll::Vec);
            (if n > 65535 { is_batch(&r) } else { r.is_ok() }, r.map(|b| b.msgs.len()).unwrap_or(0))
        }
        1 | 2 => {
            let (ps, t) = er(a.prepare(&server, &bls[..distinct], info, Coll::Vec), "prepare")?;
            let pr: Vec<&Obj> = (0..n).map(|i| &ps[idx(i)]).collect();
            if op == 1 {
                let r = a.finish(&server, &mut ScriptRng::stream(9), &bls, &pr, t.as_ref(), Coll::Vec);
                (if n > 65535 { is_batch(&r) } else { r.is_ok() }, r.map(|b| b.msgs.len()).unwrap_or(0))
            } else {
                // counts that agree modulo 65536 only
                let r1 = a.finish(&server, &mut ScriptRng::stream(9), &bls, &pr[..k], t.as_ref(), Coll::Vec);
                let r2 = a.finish(&server, &mut ScriptRng::stream(9), &bls[..k], &pr, t.as_ref(), Coll::Vec);
                if n > 65535 {
                    (is_batch(&r1) && is_batch(&r2), 0)
                } else {
                    (r1.is_ok() && r2.is_ok(), n)
                }
            }
        }
        _ => {
            let evs: Vec<B> = {
                let s = a.spec();
                let x = er(s.eval_scalar(&rs(a, 3), info, m), "ref")?;
                bl.iter().map(|b| s.mul(&a.ser(b), &x)).collect()
            };
            let ev: Vec<Obj> = evs.iter().map(|e| a.raw_eval(e)).collect();
            let k2 = if k == n { n } else { k };
            let hb: Vec<Obj> = (0..k2).map(|i| a.dup(&bl[idx(i)])).collect();
            let p = er(eval_batch(ctx, a, &server, &hb, info, false, Coll::Vec, &mut ScriptRng::stream(3)), "honest proof")?;
            let ins: Vec<B> = (0..n).map(|i| inputs0[idx(i)].clone()).collect();
            let cs: Vec<&Obj> = (0..n).map(|i| &cl[idx(i)]).collect();
            let es: Vec<&Obj> = (0..n).map(|i| &ev[idx(i)]).collect();
            let r = a.batch_finalize(m, &ins, &cs, &es, &p.proof, &pk, info, Coll::Vec, Drain::All);
            let mut ok = if n > 65535 { is_batch(&r) } else { r.as_ref().map(|v| v.len() == n && v.iter().all(|x| x.is_ok())).unwrap_or(false) };
            if n > 65535 {
                // shorter companions that agree modulo 65536
                let r1 = a.batch_finalize(m, &ins, &cs[..k], &es[..k], &p.proof, &pk, info, Coll::Vec, Drain::All);
                let r2 = a.batch_finalize(m, &ins[..k], &cs, &es[..k], &p.proof, &pk, info, Coll::Vec, Drain::All);
                let r3 = a.batch_finalize(m, &ins[..k], &cs[..k], &es, &p.proof, &pk, info, Coll::Vec, Drain::All);
                let r4 = a.batch_finalize(m, &ins[..k], &cs, &es, &p.proof, &pk, info, Coll::Vec, Drain::All);
                ok = ok && is_batch(&r1) && is_batch(&r2) && is_batch(&r3) && is_batch(&r4);
            }
            (ok, n)
        }
    };
    chk!(ok, "{what}: {} did not {}", ["batch_blind_evaluate", "batch_blind_evaluate_finish", "batch_blind_evaluate_finish (counts equal modulo 65536)", "batch_finalize"][op],
        if n > 65535 { "return the batch error" } else { "process every item" });
    chk!(n > 65535 || len == n, "{what}: {len} results");
    ctx.op(2);
    ctx.state(&(a.name(), m, op, n));
    ctx.outcome(if n > 65535 { "refused" } else { "processed" });
    Ok(())
}

/// every subset of oversized inputs of small batches: only those items fail
pub fn bad_items(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &FAST);
    let m = *ctx.pick("mode", &VER);
    let n = 1 + ctx.choose("n", ctx.tiered(4, 5));
    let mask = ctx.choose("oversized", 1 << n);
    let d = *ctx.pick("drain", &[Drain::All, Drain::Step, Drain::Prefix(n), Drain::Nth(n - 1)]);
    let len = *ctx.pick("len", &[65536usize, 65537, 131_072, 70_000]);
    if a.toy_q().is_none() && len > 65536 && !ctx.thorough() {
        return Ok(());
    }
    let info = info_for(m);
    let mut it = items(ctx, a, m, n, 0, info)?;
    let b = er(eval_batch(ctx, a, &it.server, &it.bls, info, true, Coll::Vec, &mut ScriptRng::stream(3)), "batch")?;
    for i in 0..n {
        if mask >> i & 1 == 1 {
            it.inputs[i] = fill(len, 1);
        }
    }
    let outs = er(a.batch_finalize(m, &it.inputs, &refs(&it.clients), &refs(&b.msgs), &b.proof, &it.pk, info, Coll::Vec, d), "batch_finalize")?;
    ctx.op(1);
    let mut want: Vec<R<B>> = (0..n).map(|i| if mask >> i & 1 == 1 { Err(Er::Input) } else { Ok(it.outs[i].clone()) }).collect();
    if let Drain::Nth(k) = d {
        want = vec![want[k].clone()];
    }
    chk!(outs == want, "{} {} batch of {n} with oversized inputs {mask:b}: {:?}, expected {:?}", a.name(), m.name(),
        outs.iter().map(|x| x.as_ref().map(|b| hexs(b))).collect::<Vec<_>>(), want.iter().map(|x| x.as_ref().map(|b| hexs(b))).collect::<Vec<_>>());
    ctx.state(&(a.name(), m, n, mask, len));
    ctx.outcome(m.name());
    Ok(())
}

// ---------------------------------------------------------------- C09

/// Every operation with one input length and one info length.
fn lens_ok(ctx: &mut Ctx, a: A, m: Md, input: &[u8], info: Option<&[u8]>) -> Res {
    let what = format!("{} {} input[{}] info[{:?}]", a.name(), m.name(), input.len(), info.map(|i| i.len()));
    let server = er(a.server_with_key(m, &rs(a, 3)), "server")?;
    let pk = a.server_pk(&server);
    let (c, bl) = er(a.blind(m, input, &mut ScriptRng::stream(1)), &what)?;
    let (ev, pf) = er(a.blind_evaluate(&server, &mut ScriptRng::stream(2), &bl, info), &what)?;
    let o = er(a.finalize(&c, input, &ev, pf.as_ref(), pk.as_deref(), info), &what)?;
    let e = er(a.evaluate(&server, input, info), &what)?;
    ctx.op(4);
    chk!(o == e, "{what}: finalize and evaluate differ");
    if m != Md::Oprf {
        let pk = pk.unwrap();
        let inputs = vec![input.to_vec()];
        let b = er(a.batch_evaluate(&server, &mut ScriptRng::stream(2), &[&bl], info, Coll::Vec), &what)?;
        let (ps, t) = er(a.prepare(&server, &[&bl], info, Coll::Vec), &what)?;
        let f = er(a.finish(&server, &mut ScriptRng::stream(2), &[&bl], &refs(&ps), t.as_ref(), Coll::Vec), &what)?;
        let o2 = er(a.batch_finalize(m, &inputs, &[&c], &refs(&b.msgs), &b.proof, &pk, info, Coll::Vec, Drain::All), &what)?;
        let o3 = er(a.batch_finalize(m, &inputs, &[&c], &refs(&f.msgs), &f.proof, &pk, info, Coll::Vec, Drain::All), &what)?;
        ctx.op(5);
        chk!(o2 == vec![Ok(o.clone())] && o3 == o2, "{what}: batch API differs");
    }
    ctx.state(&(a.name(), m, o));
    Ok(())
}

/// every length 0..=65535 of input, info, key info and seed
pub fn sweep(ctx: &mut Ctx) -> Res {
    let (a, role, m) = {
        let r = ctx.choose("role", 7);
        let m = [Md::Oprf, Md::Voprf, Md::Poprf, Md::Poprf, Md::Oprf, Md::Poprf, Md::Voprf][r];
        (if ctx.thorough() { *ctx.pick("suite", &BIGS) } else { T61 }, r, m)
    };
    let hi = ctx.choose("len/256", 256);
    let buf = fill(65536, 77 + role as u64);
    for lo in 0..256 {
        let l = hi * 256 + lo;
        let v = &buf[..l];
        match role {
            0..=2 => lens_ok(ctx, a, m, v, None)?,
            3 => lens_ok(ctx, a, m, b"x", Some(v))?,
            4 | 5 => {
                let k = er(a.server_from_seed(m, b"seed", v), "new_from_seed with a long key info")?;
                ctx.state(&(l, a.ser(&k)));
                ctx.op(1);
            }
            _ => {
                let k = er(a.server_from_seed(m, v, b"info"), "new_from_seed with a long seed")?;
                ctx.state(&(l, a.ser(&k)));
                ctx.op(1);
            }
        }
    }
    ctx.outcome(["oprf input", "voprf input", "poprf input", "info", "key info", "key info", "seed"][role]);
    Ok(())
}

/// shipped suites at edge lengths, input and info together
pub fn sweep_real(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &FAST);
    let m = *ctx.pick("mode", &MODES);
    let ls: &[usize] = if ctx.thorough() {
        &[0, 1, 31, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 1024, 4095, 4096, 16384, 32767, 32768, 65280, 65534, 65535]
    } else {
        &[0, 1, 64, 128, 255, 256, 32768, 65534, 65535]
    };
    let il = *ctx.pick("input", ls);
    let xl = if m == Md::Poprf { *ctx.pick("info", ls) } else { 0 };
    let info = fill(xl, 4);
    lens_ok(ctx, a, m, &fill(il, 3), if m == Md::Poprf { Some(&info) } else { None })?;
    ctx.outcome(m.name());
    Ok(())
}

/// over the limit: every operation, every role, documented error
pub fn over(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &FAST);
    let m = *ctx.pick("mode", &MODES);
    let ls: &[usize] = &[65536, 65537, 65538, 65791, 65792, 65793, 66000, 98_304, 131_070, 131_071, 131_072, 131_073, 196_607, 196_608, 196_609, 1 << 20, (1 << 20) + 1, (1 << 24) + 3];
    let l = *ctx.pick("len", &ls[..if a.toy_q().is_some() { ls.len() } else { ls.len() - 1 }]);
    let role = ctx.choose("role", if m == Md::Poprf { 4 } else { 2 });
    let big = fill_fast(l, 5);
    let what = format!("{} {} with {l} bytes", a.name(), m.name());
    let server = er(a.server_with_key(m, &rs(a, 3)), "server")?;
    let pk = a.server_pk(&server);
    let good: &[u8] = b"ok";
    let gi = (m == Md::Poprf).then_some(good);
    let (c, bl) = er(a.blind(m, good, &mut ScriptRng::stream(1)), "blind")?;
    let (ev, pf) = er(a.blind_evaluate(&server, &mut ScriptRng::stream(1), &bl, gi), "blind_evaluate")?;
    let is_in = |e: Option<Er>| matches!(e, Some(Er::Input));
    match role {
        0 => {
            let rs_ = [
                ("blind", a.blind(m, &big, &mut ScriptRng::stream(1)).err()),
                ("deterministic_blind_unchecked", a.blind_det(m, &big, &rs(a, 7)).err()),
                ("evaluate", a.evaluate(&server, &big, gi).err()),
                ("finalize", a.finalize(&c, &big, &ev, pf.as_ref(), pk.as_deref(), gi).err()),
            ];
            for (w, e) in rs_ {
                chk!(is_in(e.clone()), "{what}: {w} of an oversized input gives {e:?}, expected Err(Input)");
            }
            if m != Md::Oprf {
                let r = a.batch_finalize(m, &[big.clone()], &[&c], &[&ev], pf.as_ref().unwrap(), pk.as_deref().unwrap(), gi, Coll::Vec, Drain::All);
                chk!(r == Ok(vec![Err(Er::Input)]), "{what}: batch_finalize gives {:?}", r.map(|v| v.len()));
            }
            ctx.op(5);
            ctx.outcome("input");
        }
        1 => {
            for (w, e) in [
                ("new_from_seed", a.server_from_seed(m, b"s", &big).err()),
                ("derive_key", a.derive_key(b"s", &big, m).err()),
            ] {
                chk!(matches!(e, Some(Er::DeriveKeyPair)), "{what}: {w} with an oversized key info gives {e:?}");
            }
            er(a.server_from_seed(m, &big, b"i"), "new_from_seed with a long seed")?;
            er(a.derive_key(&big, b"i", m), "derive_key with a long seed")?;
            ctx.op(4);
            ctx.outcome("key info and seed");
        }
        2 => {
            let big = Some(big.as_slice());
            let pf = pf.as_ref().unwrap();
            let pk = pk.as_deref().unwrap();
            let inp = vec![good.to_vec()];
            for (w, e) in [
                ("blind_evaluate", a.blind_evaluate(&server, &mut ScriptRng::stream(1), &bl, big).err()),
                ("batch_blind_evaluate", a.batch_evaluate(&server, &mut ScriptRng::stream(1), &[&bl], big, Coll::Vec).err()),
                ("batch_blind_evaluate of nothing", a.batch_evaluate(&server, &mut ScriptRng::stream(1), &[], big, Coll::Vec).err()),
                ("batch_blind_evaluate_prepare", a.prepare(&server, &[&bl], big, Coll::Vec).err()),
                ("evaluate", a.evaluate(&server, good, big).err()),
                ("finalize", a.finalize(&c, good, &ev, Some(pf), Some(pk), big).err()),
                ("batch_finalize", a.batch_finalize(m, &inp, &[&c], &[&ev], pf, pk, big, Coll::Vec, Drain::All).err()),
                ("batch_finalize of nothing", a.batch_finalize(m, &[], &[], &[], pf, pk, big, Coll::Vec, Drain::All).err()),
            ] {
                chk!(matches!(e, Some(Er::Info)), "{what}: {w} with an oversized info gives {e:?}, expected Err(Info)");
            }
            ctx.op(8);
            ctx.outcome("info");
        }
        _ => {
            // both too long: one of the two documented errors
            let b = Some(big.as_slice());
            for (w, e) in [
                ("evaluate", a.evaluate(&server, &big, b).err()),
                ("finalize", a.finalize(&c, &big, &ev, pf.as_ref(), pk.as_deref(), b).err()),
            ] {
                chk!(matches!(e, Some(Er::Info) | Some(Er::Input)), "{what}: {w} with oversized input and info gives {e:?}");
            }
            ctx.op(2);
            ctx.outcome("input and info");
        }
    }
    ctx.state(&(a.name(), m, l, role));
    Ok(())
}
pub fn fill_fast(n: usize, seed: u8) -> B {
    (0..n).map(|i| (i as u8).wrapping_mul(31).wrapping_add(seed)).collect()
}
