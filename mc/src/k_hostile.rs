//! Robustness (C19): hostile bytes, documents and combinations of objects.
use crate::api::*;
use crate::engine::*;
use crate::h::*;
use crate::k_persist::{build, elem_cands, scalar_cands};
use crate::spec::*;
use crate::suites::*;
use crate::toy::ScriptRng;
use crate::chk;

fn suite_pool() -> Vec<A> {
    vec![T61, REAL[0], REAL[1], TW, REAL[2], REAL[3], TOYS[0], TOYS[2]]
}
fn count<T, E>(ctx: &mut Ctx, r: &Result<T, E>) {
    ctx.op(1);
    ctx.outcome(if r.is_ok() { "value" } else { "error" });
}
/// valid parts of a kind
fn valid(a: A, k: Kind) -> B {
    k.layout().iter().enumerate().flat_map(|(i, e)| if *e { a.spec().mul(&a.spec().base(), &sc(a, 2 + i as u64 % 1)) } else { sc(a, 1 + i as u64) }).collect()
}

/// uses a decoded object in every operation that takes it
fn exercise(ctx: &mut Ctx, a: A, o: &Obj) -> Res {
    let s = a.spec();
    let mut rng = ScriptRng::stream(1);
    if !matches!(o.kind, Kind::Prepared | Kind::Tweak) {
        let b = a.ser(o);
        chk!(b.len() == o.kind.len(s), "{}: {} serializes to {} bytes", a.name(), o.kind.name(), b.len());
    }
    for f in [Fmt::Json, Fmt::Bincode] {
        let _ = a.serde_ser(o, f);
    }
    let ev = a.raw_eval(&s.base());
    let bl = a.raw_blinded(&s.base());
    let pk = s.base();
    let pf = build(a, Kind::Proof, &[sc(a, 1), sc(a, 2)])?;
    match o.kind {
        Kind::OprfClient | Kind::VoprfClient | Kind::PoprfClient => {
            let r = a.finalize(o, b"h", &ev, Some(&pf), Some(&pk), None);
            count(ctx, &r);
        }
        Kind::OprfServer | Kind::VoprfServer | Kind::PoprfServer => {
            let r = a.evaluate(o, b"h", None);
            count(ctx, &r);
            let r = a.blind_evaluate(o, &mut rng, &bl, None);
            count(ctx, &r);
        }
        Kind::Blinded => {
            for m in MODES {
                let sv = er(a.server_with_key(m, &s.one()), "server")?;
                let r = a.blind_evaluate(&sv, &mut rng, o, None);
                count(ctx, &r);
            }
        }
        Kind::Eval => {
            for m in MODES {
                let c = build(a, client_kind(m), &[s.one(), s.base()][..client_kind(m).layout().len()])?;
                let r = a.finalize(&c, b"h", o, Some(&pf), Some(&pk), None);
                count(ctx, &r);
            }
        }
        Kind::Proof => {
            for m in VER {
                let c = build(a, client_kind(m), &[s.one(), s.base()])?;
                let r = a.finalize(&c, b"h", &ev, Some(o), Some(&pk), None);
                count(ctx, &r);
            }
        }
        Kind::Prepared => {
            let sv = er(a.server_with_key(Md::Voprf, &s.one()), "server")?;
            let r = a.finish(&sv, &mut rng, &[&bl], &[o], None, Coll::Vec);
            count(ctx, &r);
        }
        Kind::Tweak => {
            let sv = er(a.server_with_key(Md::Poprf, &s.one()), "server")?;
            if let Ok((ps, _)) = a.prepare(&sv, &[&bl], None, Coll::Vec) {
                let r = a.finish(&sv, &mut rng, &[&bl], &refs(&ps), Some(o), Coll::Vec);
                count(ctx, &r);
            }
        }
    }
    Ok(())
}

/// byte strings of every length and pattern into every byte decoder
pub fn bytes(ctx: &mut Ctx) -> Res {
    let sp = suite_pool();
    let a = *ctx.pick("suite", &sp);
    let kind = ctx.choose("kind", 10);
    let s = a.spec();
    let kl = if kind < 9 { WIRE_KINDS[kind].len(s) } else { s.ns() };
    let extra = [2 * kl, 255, 256, 1000, 65535, 65536, 1 << 20];
    let li = ctx.choose("length", kl + 9 + extra.len());
    let l = if li < kl + 9 { li } else { extra[li - kl - 9] };
    let base = if kind < 9 { valid(a, WIRE_KINDS[kind]) } else { sc(a, 1) };
    for pat in 0..14u8 {
        let b: B = match pat {
            0 => vec![0; l],
            1 => vec![0xFF; l],
            2 => vec![1; l],
            3 | 4 | 5 | 6 | 7 => {
                let mut v = fill(l, pat as u64);
                if l > 0 {
                    v[0] = pat - 1;
                }
                v
            }
            8 => (0..l).map(|i| i as u8).collect(),
            9 | 10 | 11 => base.iter().copied().cycle().take(l).collect(),
            12 => {
                let mut v = base.clone();
                v.resize(l, 0xAA);
                v
            }
            _ => fill(l, 99),
        };
        if kind == 9 {
            for m in MODES {
                let r = a.server_with_key(m, &b);
                count(ctx, &r);
                if let Ok(o) = r {
                    exercise(ctx, a, &o)?;
                }
            }
        } else {
            let r = a.de(WIRE_KINDS[kind], &b);
            count(ctx, &r);
            if let Ok(o) = r {
                exercise(ctx, a, &o)?;
            }
        }
    }
    ctx.state(&(a.name(), kind, l));
    Ok(())
}

/// boundary encodings in every component
pub fn components(ctx: &mut Ctx) -> Res {
    let sp = suite_pool();
    let a = *ctx.pick("suite", &sp[..6]);
    let k = *ctx.pick("kind", &WIRE_KINDS);
    let comp = ctx.choose("component", k.layout().len());
    let part = |i: usize, e: bool| if e { a.spec().base() } else { sc(a, 1 + i as u64) };
    let cands = if k.layout()[comp] { elem_cands(a, ctx.thorough()) } else { scalar_cands(a, ctx.thorough()) };
    // the large curves only decode in the quick tier
    let use_it = ctx.thorough() || a.spec().ne() <= 33;
    let blk = 32;
    let bi = ctx.choose("block", cands.len().div_ceil(blk));
    for c in cands.iter().skip(bi * blk).take(blk) {
        let b: B = k.layout().iter().enumerate().flat_map(|(i, e)| if i == comp { c.clone() } else { part(i, *e) }).collect();
        let r = a.de(k, &b);
        count(ctx, &r);
        if let Ok(o) = r {
            if use_it {
                exercise(ctx, a, &o)?;
            }
        }
        ctx.state(&(a.name(), k, b));
    }
    Ok(())
}

fn odd_docs(f: Fmt) -> Vec<B> {
    let mut v: Vec<B> = vec![];
    match f {
        Fmt::Json | Fmt::JsonValue => {
            for s in [
                "", "null", "true", "0", "-1", "256", "1e999", "-0.0", "1.5", "\"\"", "\"x\"", "[]", "[[]]", "{}", "[256]", "[-1]", "[null]", "[1.5]", "[\"a\"]", "[0,", "{\"0\":1}",
                "{\"c_scalar\":[]}", "{\"c_scalar\":[],\"s_scalar\":[]}", "{\"blind\":[1]}", "{\"blind\":null,\"blinded_element\":null}",
                "{\"sk\":[],\"pk\":[]}", "{\"sk\":{},\"pk\":{}}", "{\"blind\":[0],\"blind\":[0]}", "[[1],[2]]", "[[],[],[]]", "\u{feff}[]",
                "99999999999999999999999999", "[99999999999999999999]",
            ] {
                v.push(s.as_bytes().to_vec());
            }
            for n in [1usize, 8, 31, 32, 33, 48, 49, 64, 66, 67, 128, 5000, 200_000] {
                for x in ["0", "255", "1", "256"] {
                    v.push(format!("[{}]", vec![x; n].join(",")).into_bytes());
                    v.push(format!("{{\"sk\":[{0}],\"pk\":[{0}],\"blind\":[{0}],\"blinded_element\":[{0}],\"c_scalar\":[{0}],\"s_scalar\":[{0}]}}", vec![x; n].join(",")).into_bytes());
                }
                v.push(format!("\"{}\"", "a".repeat(n)).into_bytes());
            }
            v.push("[".repeat(100_000).into_bytes());
            v.push("{\"a\":".repeat(10_000).into_bytes());
        }
        Fmt::Bincode => {
            for n in [0usize, 1, 7, 8, 9, 16, 24, 31, 32, 33, 40, 41, 64, 72, 132, 500] {
                for x in [0u8, 1, 2, 0x7F, 0x80, 0xFF] {
                    v.push(vec![x; n]);
                }
            }
            for l in [0u64, 1, 8, 31, 32, 33, 48, 49, 66, 67, 255, 1 << 16, 1 << 31, 1 << 32, 1 << 40, 1 << 62, u64::MAX / 2, u64::MAX] {
                for n in [0usize, 8, 32, 33, 66, 67, 200] {
                    v.push([&l.to_le_bytes()[..], &vec![1; n]].concat());
                    v.push([&l.to_le_bytes()[..], &vec![1; n], &l.to_le_bytes()[..], &vec![2; n]].concat());
                }
            }
        }
        Fmt::Cbor => {
            for major in 0..8u8 {
                for inf in [0u8, 1, 23, 24, 25, 26, 27, 28, 31] {
                    for tail in [vec![], vec![0; 4], vec![0xFF; 8], vec![0xFF; 80], vec![0x7F; 9], [vec![0, 0, 0, 0, 0xFF, 0xFF, 0xFF, 0xFF], vec![1; 100]].concat(), [vec![0x18, 0x20], vec![1; 40]].concat()] {
                        v.push([vec![major << 5 | inf], tail].concat());
                    }
                }
            }
            for k in ["sk", "blind", "c_scalar"] {
                for h in [0x9Bu8, 0x5B, 0xBB, 0x9F, 0x5F] {
                    let mut d = vec![0xA1, 0x60 + k.len() as u8];
                    d.extend(k.as_bytes());
                    d.push(h);
                    d.extend([0x7F, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 1, 1, 1]);
                    v.push(d);
                }
            }
            v.push(vec![0x81; 100_000]);
            v.push(vec![0x9F; 1000]);
            v.push(vec![0xC1; 1000]);
        }
    }
    v
}

/// odd documents into every serde decoder
pub fn documents(ctx: &mut Ctx) -> Res {
    let sp = suite_pool();
    let a = *ctx.pick("suite", &sp[..ctx.tiered(6, 8)]);
    let k = *ctx.pick("kind", &ALL_KINDS);
    let f = *ctx.pick("format", &FMTS);
    for d in odd_docs(f) {
        let r = a.serde_de(k, &d, f);
        count(ctx, &r);
        if let Ok(o) = r {
            exercise(ctx, a, &o)?;
        }
    }
    ctx.state(&(a.name(), k, f));
    ctx.note(|| format!("{} {} {f:?}", a.name(), k.name()));
    Ok(())
}

/// mutations of valid documents at every position
pub fn mutations(ctx: &mut Ctx) -> Res {
    let sp = suite_pool();
    let a = *ctx.pick("suite", &sp[..ctx.tiered(3, 8)]);
    let k = *ctx.pick("kind", &ALL_KINDS);
    let f = *ctx.pick("format", &FMTS);
    let o = match k {
        Kind::Prepared | Kind::Tweak => {
            let m = if k == Kind::Tweak { Md::Poprf } else { Md::Voprf };
            let sv = er(a.server_with_key(m, &sc(a, 1)), "server")?;
            let (mut p, t) = match a.prepare(&sv, &[&a.raw_blinded(&a.spec().base())], None, Coll::Vec) {
                Ok(x) => x,
                Err(_) => return Ok(()),
            };
            if k == Kind::Tweak { t.unwrap() } else { p.remove(0) }
        }
        _ => er(a.de(k, &valid(a, k)), "valid object")?,
    };
    let d = a.serde_ser(&o, f).map_err(Viol)?;
    let what = ctx.choose("mutation", ctx.tiered(8, 16));
    for i in 0..=d.len() {
        let mut t = d.clone();
        match what {
            0 => t.truncate(i),
            1 => t.insert(i, b'['),
            2 => t.insert(i, 0xFF),
            _ if i == d.len() => continue,
            3 => {
                t.remove(i);
            }
            4 => t[i] = 0xFF,
            5 => t[i] = 0,
            6 => t[i] ^= 1,
            7 => t[i] = b'9',
            8 => t[i] ^= 0x80,
            9 => t[i] = b'"',
            10 => t[i] = 0x9F,
            11 => t[i] = 0x5B,
            12 => t[i] = t[i].wrapping_add(1),
            13 => t[i] = b'-',
            14 => {
                t.swap(i, d.len() - 1 - i);
            }
            _ => {
                let x = t[i..].to_vec();
                t.extend(x);
            }
        }
        let r = a.serde_de(k, &t, f);
        count(ctx, &r);
        if let Ok(o) = r {
            exercise(ctx, a, &o)?;
        }
    }
    ctx.state(&(a.name(), k, f, what));
    Ok(())
}

struct Pool {
    clients: Vec<Obj>,
    evals: Vec<Obj>,
    proofs: Vec<Obj>,
    pks: Vec<B>,
    infos: Vec<Option<B>>,
    inputs: Vec<B>,
    servers: Vec<Obj>,
    bls: Vec<Obj>,
}
fn pool(a: A, m: Md) -> Result<Pool, Viol> {
    let s = a.spec();
    let toy = a.toy_q().map(|q| q < 100).unwrap_or(false);
    // a key that is degenerate for some info of the pool
    let h = if m == Md::Poprf { er(s.info_scalar(b"deg"), "info")? } else { sc(a, 1) };
    let mut sk = s.ssub(&s.zero(), &h);
    if sk == s.zero() {
        sk = sc(a, 1);
    }
    let g = s.base();
    let servers = vec![er(a.server_with_key(m, &sk), "server")?, er(a.server_with_key(m, &neg1(a)), "server")?];
    let mut clients = vec![];
    let mut bls = vec![];
    for (i, b) in [(b"x".as_slice(), sc(a, 1)), (b"y".as_slice(), if toy { neg1(a) } else { rs(a, 5) })] {
        if let Ok((c, e)) = a.blind_det(m, i, &b) {
            clients.push(c);
            bls.push(e);
        }
    }
    let parts = |b: B, e: B| -> Vec<B> { if m == Md::Oprf { vec![b] } else { vec![b, e] } };
    clients.push(build(a, client_kind(m), &parts(neg1(a), g.clone()))?);
    clients.push(build(a, client_kind(m), &parts(sc(a, 1), s.mul(&g, &neg1(a))))?);
    bls.push(a.raw_blinded(&g));
    bls.push(a.raw_blinded(&s.identity()));
    let mut evals = vec![a.raw_eval(&s.mul(&g, &sk)), a.raw_eval(&s.identity()), a.raw_eval(&g)];
    let mut proofs = vec![build(a, Kind::Proof, &[sc(a, 1), sc(a, 1)])?, build(a, Kind::Proof, &[neg1(a), neg1(a)])?];
    let honest = match m {
        Md::Oprf => a.blind_evaluate(&servers[0], &mut ScriptRng::stream(1), &bls[0], None).ok(),
        _ => a.batch_evaluate(&servers[0], &mut ScriptRng::stream(1), &[&bls[0], &bls[1]], None, Coll::Vec).ok().map(|mut b| (b.msgs.remove(0), Some(b.proof))),
    };
    if let Some((e, p)) = honest {
        evals.insert(0, e);
        if let Some(p) = p {
            proofs.insert(0, p);
        }
    }
    let pks = vec![s.mul(&g, &sk), s.identity(), g.clone(), s.mul(&g, &neg1(a))];
    let mut infos = vec![None];
    if m == Md::Poprf {
        infos.extend([Some(vec![]), Some(b"deg".to_vec()), Some(vec![0; 65536]), Some(vec![0; 65535])]);
    }
    let inputs = vec![b"x".to_vec(), vec![], vec![0; 65536], vec![0; 65535]];
    Ok(Pool { clients, evals, proofs, pks, infos, inputs, servers, bls })
}

/// finalize over the full product of the pools
pub fn finalize_pools(ctx: &mut Ctx) -> Res {
    let sp = suite_pool();
    let a = *ctx.pick("suite", &sp);
    let m = *ctx.pick("mode", &MODES);
    let p = pool(a, m)?;
    let c = ctx.pick("client", &p.clients);
    let e = ctx.pick("evaluation", &p.evals);
    let pf = if m == Md::Oprf { None } else { Some(ctx.pick("proof", &p.proofs)) };
    let pk = if m == Md::Oprf { None } else { Some(ctx.pick("key", &p.pks)) };
    let info = ctx.pick("info", &p.infos);
    for i in &p.inputs {
        let r = a.finalize(c, i, e, pf, pk.map(|x| x.as_slice()), info.as_deref());
        count(ctx, &r);
    }
    ctx.state(&(a.name(), m, a.ser(c), a.ser(e), pf.map(|p| a.ser(p)), pk, info.as_ref().map(|x| x.len())));
    Ok(())
}

/// batch finalize with unrelated shapes
pub fn batch_pools(ctx: &mut Ctx) -> Res {
    let sp = suite_pool();
    let a = *ctx.pick("suite", &sp);
    let m = *ctx.pick("mode", &VER);
    let p = pool(a, m)?;
    let n = ctx.tiered(3, 4);
    let (ni, nc, ne) = (ctx.choose("inputs", n + 1), ctx.choose("clients", n + 1), ctx.choose("evaluations", n + 1));
    let d = *ctx.pick("drain", &[Drain::All, Drain::Step, Drain::Nth(2), Drain::Prefix(1)]);
    let pf = ctx.choose("proof", 2);
    let pk = ctx.choose("key", 2);
    let info = ctx.pick("info", &p.infos);
    let pick = |v: &[Obj], n: usize| -> Vec<Obj> { (0..n).map(|i| a.dup(&v[i % v.len()])).collect() };
    let ins: Vec<B> = (0..ni).map(|i| p.inputs[i % p.inputs.len()].clone()).collect();
    let (cl, ev) = (pick(&p.clients, nc), pick(&p.evals, ne));
    let r = a.batch_finalize(m, &ins, &refs(&cl), &refs(&ev), &p.proofs[pf], &p.pks[pk], info.as_deref(), Coll::Vec, d);
    count(ctx, &r);
    ctx.state(&(a.name(), m, ni, nc, ne, pf, pk, info.as_ref().map(|x| x.len())));
    Ok(())
}

/// server operations with unrelated shapes, prepared elements and tweaks
pub fn server_pools(ctx: &mut Ctx) -> Res {
    let sp = suite_pool();
    let a = *ctx.pick("suite", &sp);
    let m = *ctx.pick("mode", &MODES);
    let p = pool(a, m)?;
    let sv = ctx.pick("server", &p.servers);
    let info = ctx.pick("info", &p.infos);
    let rng = &mut ScriptRng::stream(4);
    for b in &p.bls {
        let r = a.blind_evaluate(sv, rng, b, info.as_deref());
        count(ctx, &r);
    }
    for i in &p.inputs {
        let r = a.evaluate(sv, i, info.as_deref());
        count(ctx, &r);
    }
    ctx.state(&(a.name(), m, a.ser(sv), info.as_ref().map(|x| x.len())));
    if m == Md::Oprf {
        return Ok(());
    }
    let (nb, np) = (ctx.choose("blinded", 4), ctx.choose("prepared", 4));
    let other = ctx.pick("preparing-server", &p.servers);
    let other_info = ctx.pick("preparing-info", &p.infos);
    let pick = |n: usize| -> Vec<Obj> { (0..n).map(|i| a.dup(&p.bls[i % p.bls.len()])).collect() };
    let (bl, pb) = (pick(nb), pick(np));
    let r = a.batch_evaluate(sv, rng, &refs(&bl), info.as_deref(), Coll::List);
    count(ctx, &r);
    let pr = a.prepare(other, &refs(&pb), other_info.as_deref(), Coll::Vec);
    count(ctx, &pr);
    if let Ok((ps, t)) = pr {
        let r = a.finish(sv, rng, &refs(&bl), &refs(&ps), t.as_ref(), Coll::Deque);
        count(ctx, &r);
        // a tweak prepared for another info or by another server
        if let Ok((_, Some(t2))) = a.prepare(sv, &refs(&pb), info.as_deref(), Coll::Vec) {
            let r = a.finish(sv, rng, &refs(&bl), &refs(&ps), Some(&t2), Coll::Vec);
            count(ctx, &r);
        }
    }
    ctx.state(&(nb, np));
    Ok(())
}

/// key derivation and blinding with odd lengths and RNG outputs
pub fn inputs(ctx: &mut Ctx) -> Res {
    let sp = suite_pool();
    let a = *ctx.pick("suite", &sp);
    let m = *ctx.pick("mode", &MODES);
    let ls = [0usize, 1, 2, 255, 256, 32767, 32768, 65532, 65533, 65534, 65535, 65536, 65537, 131071, 131072, 1 << 20];
    let l = *ctx.pick("length", &ls);
    let pat = ctx.choose("content", 3);
    let x = match pat {
        0 => vec![0; l],
        1 => vec![0xFF; l],
        _ => fill(l, 1),
    };
    for r in [vec![0u8; 200], vec![0xFF; 200], a.spec().order().iter().copied().cycle().take(200).collect()] {
        let res = a.blind(m, &x, &mut ScriptRng::with_tail(r.clone(), 1));
        count(ctx, &res);
        let res = a.server_new(m, &mut ScriptRng::with_tail(r, 1));
        count(ctx, &res);
    }
    for l2 in [0usize, 1, 65535, 65536] {
        let r = a.server_from_seed(m, &x, &vec![1; l2]);
        count(ctx, &r);
        let r = a.derive_key(&vec![1; l2], &x, m);
        count(ctx, &r);
    }
    ctx.state(&(a.name(), m, l, pat));
    Ok(())
}
