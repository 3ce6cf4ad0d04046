//! C06 (and, with the RFC verifier as verdict, C05), further attacks: answers of servers in other modes, under other infos and keys; spliced,
//! shifted and replayed answers of batches of every size; changed bits. The only verdict is the
//! property's: for C06, a client that outputs something outputs the function value under the honest
//! key; for C05, it outputs something exactly if the RFC verifier accepts, else the documented error.
use crate::api::*;
use crate::chk;
use crate::engine::*;
use crate::h::*;
use crate::spec::*;
use crate::suites::*;
use crate::toy::{self, ScriptRng, QK};

/// What a client (or a batch of clients) knows, and what it should get.
#[derive(Clone)]
struct Session {
    m: Md,
    inputs: Vec<B>,
    clients: Vec<B>,
    msgs: Vec<B>,
    pk: B,
    info: Option<B>,
    want: Vec<B>,
}
/// What the network delivers.
#[derive(Clone)]
struct Answer {
    evs: Vec<B>,
    proof: B,
}

fn session(a: A, m: Md, key: &[u8], inputs: &[B], blinds: u64, info: Option<&[u8]>) -> Result<Session, Viol> {
    let s = a.spec();
    let (mut clients, mut msgs, mut want) = (vec![], vec![], vec![]);
    for (i, x) in inputs.iter().enumerate() {
        let (c, b) = er(a.blind_det(m, x, &rs(a, blinds + i as u64)), "blind")?;
        clients.push(a.ser(&c));
        msgs.push(a.ser(&b));
        want.push(er(s.evaluate(key, x, info, m), "ref")?);
    }
    Ok(Session { m, inputs: inputs.to_vec(), clients, msgs, pk: s.mul(&s.base(), key), info: info.map(|i| i.to_vec()), want })
}

fn serve(a: A, m: Md, key: &[u8], msgs: &[B], info: Option<&[u8]>, nonce: u64) -> Option<Answer> {
    let server = a.server_with_key(m, key).ok()?;
    let bl: Vec<Obj> = msgs.iter().map(|e| a.de(Kind::Blinded, e)).collect::<R<_>>().ok()?;
    let b = refs(&bl);
    let mut rng = ScriptRng::stream(toy::fh(nonce, &msgs.concat()));
    let b = if m == Md::Poprf {
        let (ps, t) = a.prepare(&server, &b, info, Coll::Vec).ok()?;
        a.finish(&server, &mut rng, &b, &refs(&ps), t.as_ref(), Coll::Vec).ok()?
    } else {
        a.batch_evaluate(&server, &mut rng, &b, info, Coll::Vec).ok()?
    };
    Some(Answer { evs: b.msgs.iter().map(|x| a.ser(x)).collect(), proof: a.ser(&b.proof) })
}

/// Delivers an answer; true = the client output something (which was right).
fn deliver<const RFC: bool>(ctx: &mut Ctx, a: A, t: &Session, x: &Answer, what: &dyn Fn() -> String) -> Result<bool, Viol> {
    let (Ok(ev), Ok(p)) = (x.evs.iter().map(|e| a.de(Kind::Eval, e)).collect::<R<Vec<Obj>>>(), a.de(Kind::Proof, &x.proof)) else {
        return Ok(false);
    };
    let cl: Vec<Obj> = t.clients.iter().map(|c| a.de(client_kind(t.m), c)).collect::<R<_>>().map_err(|e| Viol(format!("client restore {e:?}")))?;
    let info = t.info.as_deref();
    let mut outs = vec![a.batch_finalize(t.m, &t.inputs, &refs(&cl), &refs(&ev), &p, &t.pk, info, Coll::Vec, Drain::All)];
    if cl.len() == 1 && ev.len() == 1 {
        outs.push(a.finalize(&cl[0], &t.inputs[0], &ev[0], Some(&p), Some(&t.pk), info).map(|o| vec![Ok(o)]));
    }
    ctx.op(outs.len() as u64);
    let mut any = false;
    if RFC {
        let s = a.spec();
        let verdict = if t.inputs.len() == x.evs.len() { s.client_verify(&t.pk, &t.msgs, &x.evs, info, &x.proof, t.m) } else { Err(voprf::Error::Batch) };
        for v in outs {
            match (v, &verdict) {
                (Err(e), Err(w)) => chk!(e == *w, "{} {}: refused with {e:?} instead of {w:?}: {}", a.name(), t.m.name(), what()),
                (Err(e), Ok(())) => chk!(false, "{} {}: refused ({e:?}), the RFC verifier accepts: {}", a.name(), t.m.name(), what()),
                (Ok(_), Err(w)) => chk!(false, "{} {} (info {:?}): the client returns outputs although the RFC verifier refuses ({w:?}): {}", a.name(), t.m.name(), info.map(hexs), what()),
                (Ok(v), Ok(())) => {
                    any = true;
                    chk!(v.len() == t.inputs.len(), "{} outputs for {} inputs", v.len(), t.inputs.len());
                    for (i, o) in v.iter().enumerate() {
                        let u = s.mul(&x.evs[i], &s.sinv(&t.clients[i][..s.ns()]));
                        let w = s.out(&t.inputs[i], info, &u, t.m);
                        chk!(*o == w, "{} {}: output {i} differs from the reference: {}", a.name(), t.m.name(), what());
                    }
                }
            }
        }
        return Ok(any);
    }
    for v in outs.into_iter().flatten() {
        chk!(v.len() <= t.want.len(), "a client accepted {} outputs for {} inputs", v.len(), t.want.len());
        for (i, o) in v.iter().enumerate() {
            if let Ok(o) = o {
                any = true;
                chk!(
                    *o == t.want[i],
                    "{} {}: a client (info {:?}) accepted an output that is not the function value under the honest key, for item {i} of {}: {}",
                    a.name(), t.m.name(), info.map(hexs), t.want.len(), what()
                );
            }
        }
    }
    Ok(any)
}

/// Servers of every mode under the honest key, a rogue one and keys related to the honest one, each
/// with every info; every evaluation is handed over with every proof.
pub fn cross<const RFC: bool>(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &FAST);
    let toy = a.toy_q().is_some();
    let m = *ctx.pick("mode", &VER);
    let s = a.spec();
    let long = fill(300, 3);
    let infos: Vec<Option<&[u8]>> = vec![None, Some(b""), Some(b"a"), Some(b"aa"), Some(b"b"), Some(&long)];
    let info = if m == Md::Poprf { *ctx.pick("info", &infos) } else { None };
    let n = 1 + ctx.choose("batch", 2);
    let same = n == 2 && ctx.flag("same-input");
    let inputs: Vec<B> = (0..n).map(|i| if same { b"in".to_vec() } else { vec![b'i', i as u8] }).collect();
    let parts = if toy { 6 } else { ctx.tiered(1, 4) };
    let step = if ctx.thorough() { 16 * n } else if RFC { 12 * n } else { 3 + 6 * (n - 1) };
    let part = ctx.choose("part", parts);
    let k = rs(a, 800);
    let t = session(a, m, &k, &inputs, 810, info)?;
    let x = serve(a, m, &k, &t.msgs, info, 1).ok_or_else(|| Viol("the server refuses an honest batch".into()))?;
    let ok = deliver::<RFC>(ctx, a, &t, &x, &|| "the honest answer".into())?;
    chk!(ok, "the honest answer is refused");
    // the same inputs and blinds in the other mode, and another session of the same client
    let om = if m == Md::Voprf { Md::Poprf } else { Md::Voprf };
    let o = session(a, om, &k, &inputs, 810, None)?;
    let t2 = session(a, m, &k, &inputs, 820, info)?;
    let mut keys = vec![("honest", k.clone()), ("rogue", rs(a, 801))];
    let mi = er(s.info_scalar(info.unwrap_or(b"")), "ref")?;
    keys.push(("inverse less info", s.ssub(&s.sinv(&k), &mi)));
    keys.push(("plus info", s.sadd(&k, &mi)));
    keys.push(("less info", s.ssub(&k, &mi)));
    if toy {
        keys.push(("negated", s.smul(&k, &neg1(a))));
        keys.push(("inverse", s.sinv(&k)));
        keys.push(("inverse of the sum", s.sinv(&s.sadd(&k, &mi))));
    } else if !ctx.thorough() {
        keys.truncate(3);
    }
    let mut requests: Vec<(String, Vec<B>)> = vec![("the message".into(), t.msgs.clone()), ("the other mode's message".into(), o.msgs.clone())];
    if toy || ctx.thorough() {
        requests.push(("another session".into(), t2.msgs.clone()));
        requests.push(("negated".into(), t.msgs.iter().map(|x| s.mul(x, &neg1(a))).collect()));
        requests.push(("the base element".into(), vec![s.base(); n]));
    }
    if n == 2 {
        requests.push(("reversed".into(), vec![t.msgs[1].clone(), t.msgs[0].clone()]));
        requests.push(("first twice".into(), vec![t.msgs[0].clone(), t.msgs[0].clone()]));
        requests.push(("first alone".into(), vec![t.msgs[0].clone()]));
    }
    let some: Vec<Option<&[u8]>> = if toy || ctx.thorough() { infos.clone() } else { [None, Some(&b"a"[..]), info].to_vec() };
    let mut answers: Vec<(String, Answer)> = vec![];
    for (kn, key) in &keys {
        for (rn, r) in &requests {
            for (mode, i) in [(Md::Voprf, None)].into_iter().chain(some.iter().map(|i| (Md::Poprf, *i))) {
                if let Some(x) = serve(a, mode, key, r, i, 1) {
                    answers.push((format!("{} server, key {kn}, info {:?}, {rn}", mode.name(), i.map(hexs)), x));
                }
            }
        }
    }
    ctx.op(answers.len() as u64);
    let (mut right, mut all) = (0u64, 0u64);
    for (i, (w, x)) in answers.iter().enumerate() {
        for (j, (w2, y)) in answers.iter().enumerate() {
            let md = if RFC { 8 } else { 3 };
            if i % parts != part || (n == 2 && !ctx.thorough() && i % md != j % md && i != j && toy) {
                continue;
            }
            // real suites: evaluations and proofs of the same request
            if !toy && i % step != j % step && i != j {
                continue;
            }
            let mut evs = vec![x.evs.clone()];
            if n == 2 && i != j && toy {
                evs.push([&x.evs[..1], &y.evs[y.evs.len() - 1..]].concat());
            }
            if n == 1 && i == j {
                evs.push(t.msgs.clone());
            }
            for e in evs {
                if e.len() != n && toy && i != j {
                    continue;
                }
                all += 1;
                let d = Answer { evs: e, proof: y.proof.clone() };
                right += deliver::<RFC>(ctx, a, &t, &d, &|| format!("evaluations of [{w}], proof of [{w2}]"))? as u64;
            }
        }
    }
    ctx.state(&(a.name(), m, info, n, same, part));
    ctx.outcome("right outputs");
    ctx.outcome(&format!("{} {} batch of {n}: {all} deliveries, {right} right outputs", a.name(), m.name()));
    Ok(())
}

/// Everything one step can do to an answer.
fn steps(a: A, t: &Session, x: &Answer, others: &[(String, Answer)]) -> Vec<(String, Answer)> {
    let s = a.spec();
    let neg = neg1(a);
    let n = x.evs.len();
    let ns = s.ns();
    let mut v = vec![];
    for i in 0..n {
        let d = &x.evs[i];
        let mut new = vec![s.base(), s.mul(d, &neg), s.add(d, d), s.add(d, &s.base()), t.pk.clone()];
        for b in &t.msgs {
            new.extend([b.clone(), s.add(d, b), s.mul(b, &rs(a, 600))]);
        }
        for (k, e) in new.into_iter().enumerate() {
            let mut y = x.clone();
            y.evs[i] = e;
            v.push((format!("evaluation {i} := {k}"), y));
        }
        for j in 0..n {
            if j != i {
                let mut y = x.clone();
                y.evs[i] = x.evs[j].clone();
                v.push((format!("evaluation {i} := evaluation {j}"), y));
            }
            if j > i {
                let mut y = x.clone();
                y.evs.swap(i, j);
                v.push((format!("swap {i} and {j}"), y));
                let mut y = x.clone();
                y.evs[i] = s.add(&x.evs[i], &s.base());
                y.evs[j] = s.add(&x.evs[j], &s.mul(&s.base(), &neg));
                v.push((format!("shift {i} and {j} apart"), y));
            }
        }
        for (w, o) in others {
            for (j, e) in o.evs.iter().enumerate() {
                let mut y = x.clone();
                y.evs[i] = e.clone();
                v.push((format!("evaluation {i} := evaluation {j} of {w}"), y));
            }
        }
    }
    let mut shorter = x.clone();
    if shorter.evs.pop().is_some() {
        v.push(("last evaluation dropped".into(), shorter));
    }
    let mut longer = x.clone();
    longer.evs.push(s.base());
    v.push(("evaluation added".into(), longer));
    let (c, r) = x.proof.split_at(ns);
    for (w, p) in [
        ("c + 1", [s.sadd(c, &s.one()), r.to_vec()]),
        ("-c", [s.smul(c, &neg), r.to_vec()]),
        ("s + 1", [c.to_vec(), s.sadd(r, &s.one())]),
        ("-s", [c.to_vec(), s.smul(r, &neg)]),
        ("-c, -s", [s.smul(c, &neg), s.smul(r, &neg)]),
        ("swapped", [r.to_vec(), c.to_vec()]),
        ("c = s", [r.to_vec(), r.to_vec()]),
        ("s = c", [c.to_vec(), c.to_vec()]),
        ("ones", [s.one(), s.one()]),
    ] {
        v.push((format!("proof {w}"), Answer { evs: x.evs.clone(), proof: p.concat() }));
    }
    for (w, o) in others {
        v.push((format!("proof of {w}"), Answer { evs: x.evs.clone(), proof: o.proof.clone() }));
        v.push((format!("c of {w}"), Answer { evs: x.evs.clone(), proof: [&o.proof[..ns], r].concat() }));
        v.push((format!("s of {w}"), Answer { evs: x.evs.clone(), proof: [c, &o.proof[ns..]].concat() }));
        v.push((format!("all evaluations of {w}"), Answer { evs: o.evs.clone(), proof: x.proof.clone() }));
    }
    v
}

/// The honest answer changed by every sequence of one or two steps.
pub fn altered<const RFC: bool>(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &FAST);
    let real = a.toy_q().is_none();
    let m = *ctx.pick("mode", &VER);
    let n = 1 + ctx.choose("n", ctx.tiered(2, 3));
    let info: Option<&[u8]> = if m == Md::Poprf { *ctx.pick("info", &[None, Some(&b"info"[..])]) } else { None };
    let k = rs(a, 840);
    let t = session(a, m, &k, &batch_inputs(n, 0), 850, info)?;
    let t2 = session(a, m, &k, &batch_inputs(n, 0), 860, info)?;
    let first = serve(a, m, &k, &t.msgs, info, 1).ok_or_else(|| Viol("the server refuses an honest batch".into()))?;
    let other_info: Option<&[u8]> = if info.is_none() { Some(b"info") } else { None };
    let mut others = vec![];
    for (w, mode, key, msgs, i, nonce) in [
        ("the same request", m, &k, &t.msgs, info, 2),
        ("another session", m, &k, &t2.msgs, info, 1),
        ("a rogue server", m, &rs(a, 841), &t.msgs, info, 1),
        ("the other mode", if m == Md::Voprf { Md::Poprf } else { Md::Voprf }, &k, &t.msgs, None, 1),
        ("another info", Md::Poprf, &k, &t.msgs, other_info, 1),
    ] {
        if let Some(x) = serve(a, mode, key, msgs, i, nonce) {
            others.push((w.to_string(), x));
        }
    }
    let ok = deliver::<RFC>(ctx, a, &t, &first, &|| "the honest answer".into())?;
    chk!(ok, "the honest answer is refused");
    let one = steps(a, &t, &first, &others);
    let (w, x) = ctx.pick("first-step", &one).clone();
    let mut right = deliver::<RFC>(ctx, a, &t, &x, &|| w.clone())? as u64;
    // the shipped suites take one step
    let two = if real && !(ctx.thorough() && n == 1) { vec![] } else { steps(a, &t, &x, &others) };
    let all = two.len();
    for (w2, y) in two {
        right += deliver::<RFC>(ctx, a, &t, &y, &|| format!("{w}, then {w2}"))? as u64;
        ctx.state(&(a.name(), m, &y.evs, &y.proof, info));
    }
    ctx.note(|| format!("{} {} n={n} {w}: {all} second steps, {right} right outputs", a.name(), m.name()));
    ctx.outcome(if right > 0 { "some right outputs" } else { "all refused" });
    Ok(())
}

/// Batches of every size, every position: shifted, replayed, swapped, compensated by the weights.
pub fn positions<const RFC: bool>(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &BIGS);
    let m = *ctx.pick("mode", &VER);
    let small = ctx.tiered(20, 70);
    let big: &[usize] = if ctx.thorough() { &[255, 256, 257, 258, 300, 513, 1025] } else { &[257, 300] };
    let edges = size_edges(a);
    let i = ctx.choose("n", small + big.len() + edges.len());
    let n = if i < small { i + 1 } else if i < small + big.len() { big[i - small] } else { edges[i - small - big.len()] };
    let at: Vec<usize> = if i < small + if ctx.thorough() { big.len() } else { 0 } {
        (0..n).collect()
    } else {
        let mut p = vec![0, 1, n / 2, n - 1];
        p.extend([15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 257, 511, 512]);
        p.extend((10..16).map(|k| 1 << k));
        if n > 9000 && !ctx.thorough() {
            p = vec![0, n / 2, n - 1];
        }
        p.retain(|x| *x < n);
        p
    };
    let info: Option<&[u8]> = if m == Md::Poprf { Some(b"info") } else { None };
    let s = a.spec();
    let k = rs(a, 870);
    let inputs = batch_inputs(n, 0);
    let t = session(a, m, &k, &inputs, 880, info)?;
    let x = serve(a, m, &k, &t.msgs, info, 1).ok_or_else(|| Viol("the server refuses an honest batch".into()))?;
    // the same batch of another session
    let t2 = session(a, m, &k, &inputs, 880 + 100_000, info)?;
    let x2 = serve(a, m, &k, &t2.msgs, info, 1).ok_or_else(|| Viol("the server refuses an honest batch".into()))?;
    toy::oracle_log_on();
    let ok = deliver::<RFC>(ctx, a, &t, &x, &|| "the honest answer".into())?;
    let w: Vec<u64> = toy::oracle_take_log()
        .into_iter()
        .filter(|x| x.kind == QK::Scalar && x.input.ends_with(b"Composite"))
        .map(|x| toy::ref_h2x(QK::Scalar, &x.input, &x.dst, q(a)))
        .collect();
    chk!(ok, "the honest answer is refused");
    let i = *ctx.pick("i", &at);
    let j = if i + 1 < n { i + 1 } else { 0 };
    let mut v: Vec<(&str, Answer)> = vec![];
    let with = |f: &dyn Fn(&mut Answer)| {
        let mut y = x.clone();
        f(&mut y);
        y
    };
    v.push(("shifted", with(&|y| y.evs[i] = s.add(&y.evs[i], &s.base()))));
    v.push(("replayed", with(&|y| y.evs[i] = x2.evs[i].clone())));
    v.push(("message echoed", with(&|y| y.evs[i] = t.msgs[i].clone())));
    v.push(("other session with its proof, but one", Answer { evs: (0..n).map(|l| if l == i { x.evs[l].clone() } else { x2.evs[l].clone() }).collect(), proof: x2.proof.clone() }));
    v.push(("one of the other session with its proof", Answer { evs: (0..n).map(|l| if l == i { x2.evs[l].clone() } else { x.evs[l].clone() }).collect(), proof: x2.proof.clone() }));
    if i != j {
        v.push(("swapped with the next", with(&|y| y.evs.swap(i, j))));
        v.push(("shifted apart", with(&|y| {
            y.evs[i] = s.add(&y.evs[i], &s.base());
            y.evs[j] = s.add(&y.evs[j], &s.mul(&s.base(), &neg1(a)));
        })));
        if w.len() >= n {
            let (wi, wj) = (sc(a, w[i]), sc(a, w[j]));
            v.push(("shifted apart by the weights", with(&|y| {
                y.evs[i] = s.add(&y.evs[i], &s.mul(&s.base(), &wj));
                y.evs[j] = s.add(&y.evs[j], &s.mul(&s.base(), &s.smul(&wi, &neg1(a))));
            })));
        }
    }
    let mut right = 0u64;
    for (what, y) in &v {
        right += deliver::<RFC>(ctx, a, &t, y, &|| format!("{what}, item {i} of {n}"))? as u64;
    }
    ctx.state(&(a.name(), m, n, i));
    ctx.outcome(if right > 0 { "some right outputs" } else { "all refused" });
    Ok(())
}

/// Shipped suites: every byte of the evaluations and of the proof, several bits.
pub fn bits<const RFC: bool>(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &REAL);
    let m = *ctx.pick("mode", &VER);
    let n = 1 + ctx.choose("n", ctx.tiered(1, 2));
    let info: Option<&[u8]> = if m == Md::Poprf { Some(b"abc") } else { None };
    let k = rs(a, 890);
    let t = session(a, m, &k, &batch_inputs(n, 0), 895, info)?;
    let x = serve(a, m, &k, &t.msgs, info, 1).ok_or_else(|| Viol("the server refuses an honest batch".into()))?;
    let byte = ctx.choose("byte", x.evs[0].len() * n + x.proof.len());
    let bits: Vec<u8> = if ctx.thorough() { (0..8).collect() } else { vec![0, 3, 7] };
    let mut right = 0u64;
    for bit in bits {
        let mut y = x.clone();
        let e = x.evs[0].len();
        match byte.checked_sub(e * n) {
            None => y.evs[byte / e][byte % e] ^= 1 << bit,
            Some(b) => y.proof[b] ^= 1 << bit,
        }
        right += deliver::<RFC>(ctx, a, &t, &y, &|| format!("byte {byte} bit {bit} flipped"))? as u64;
    }
    ctx.state(&(a.name(), m, n, byte));
    ctx.outcome(if right > 0 { "some right outputs" } else { "all refused" });
    Ok(())
}
