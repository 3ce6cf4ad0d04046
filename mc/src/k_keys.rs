//! Keys and degenerate values: C03 (derivation), C16 (identity/zero), C22 (danger API).
use crate::api::*;
use crate::engine::*;
use crate::h::*;
use crate::spec::*;
use crate::suites::*;
use crate::toy::{self, ScriptRng, QK};
use crate::{chk, eq, fail};

fn pin_derive(a: A, m: Md, seed: &[u8], info: &[u8], counter: u8, v: u64) {
    let x = [seed, &i2(info.len()), info, &[counter]].concat();
    toy::oracle_override(QK::Scalar, &a.spec().dst(b"DeriveKeyPair", m), &x, v);
}

/// A server must hold a nonzero key and the matching public key, in every representation.
pub fn check_server(a: A, m: Md, srv: &Obj, want_sk: Option<&[u8]>) -> Result<B, Viol> {
    let s = a.spec();
    let b = a.ser(srv);
    chk!(b.len() == server_kind(m).len(s), "server state has {} bytes", b.len());
    let sk = b[..s.ns()].to_vec();
    chk!(sk != s.zero(), "{} {}: server with the zero key", a.name(), m.name());
    chk!(s.scalar_ok(&sk), "{} {}: server key {} is not a canonical scalar", a.name(), m.name(), hexs(&sk));
    if let Some(w) = want_sk {
        eq!(hexs(&sk), hexs(w), "{} {} secret key", a.name(), m.name());
    }
    if m != Md::Oprf {
        let pk = s.mul(&s.base(), &sk);
        eq!(hexs(&b[s.ns()..]), hexs(&pk), "{} {} serialized public key", a.name(), m.name());
        eq!(hexs(&a.server_pk(srv).unwrap()), hexs(&pk), "{} {} get_public_key", a.name(), m.name());
    }
    Ok(sk)
}

fn check_derive(ctx: &mut Ctx, a: A, m: Md, seed: &[u8], info: &[u8]) -> Res {
    let want = a.spec().derive(seed, info, m);
    let got = a.derive_key(seed, info, m);
    let srv = a.server_from_seed(m, seed, info);
    ctx.op(2);
    let what = format!("{} {} seed[{}]={} info[{}]", a.name(), m.name(), seed.len(), hexs(&seed[..seed.len().min(16)]), info.len());
    match (&want, &srv) {
        (Ok((sk, _)), Ok(o)) => {
            check_server(a, m, o, Some(sk)).map_err(|v| Viol(format!("{what}: {}", v.0)))?;
        }
        (Err(e), Err(f)) => chk!(e == f, "{what}: new_from_seed fails with {f:?}, expected {e:?}"),
        _ => fail!("{what}: new_from_seed = {:?}, reference = {:?}", srv.as_ref().map(|o| hexs(&a.ser(o))), want.as_ref().map(|x| hexs(&x.0))),
    }
    chk!(got == want.clone().map(|x| x.0), "{what}: derive_key = {:?}, reference = {:?}", got.map(|b| hexs(&b)), want.as_ref().map(|x| hexs(&x.0)));
    ctx.state(&(a.name(), m, &want.as_ref().map(|x| x.0.clone()).ok(), seed, info.len()));
    ctx.note(|| format!("{what}: {:?}", want.as_ref().map(|x| hexs(&x.0))));
    ctx.outcome(&format!("{} {}", m.name(), if want.is_ok() { "key" } else { "error" }));
    Ok(())
}

/// 0..=256 leading zero candidates
pub fn derive_retry(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &[TOYS[0], TOYS[1], TOYS[3], T61, TW]);
    let m = *ctx.pick("mode", &MODES);
    let seeds: [B; 4] = [fill(8, 1), vec![], vec![0], fill(300, 2)];
    let infos: [B; 3] = [vec![], b"i".to_vec(), fill(256, 3)];
    let seed = ctx.pick("seed", &seeds).clone();
    let info = ctx.pick("info", &infos).clone();
    let n = ctx.choose("zeros", 257);
    for c in 0..n {
        pin_derive(a, m, &seed, &info, c as u8, 0);
    }
    if n < 256 && q(a) < 100 {
        let v = 1 + ctx.choose("key", q(a) as usize - 1) as u64;
        pin_derive(a, m, &seed, &info, n as u8, v);
    }
    check_derive(ctx, a, m, &seed, &info)?;
    // any other single zero candidate must not matter
    Ok(())
}

/// every seed length, every info length
pub fn derive_len(ctx: &mut Ctx) -> Res {
    let real = ctx.flag("real");
    let m = *ctx.pick("mode", &MODES);
    if real {
        let a = *ctx.pick("suite", &REAL);
        let ls: &[usize] = if ctx.thorough() {
            &[0, 1, 2, 15, 16, 31, 32, 33, 47, 48, 63, 64, 65, 66, 67, 127, 128, 129, 255, 256, 257, 1000, 32767, 32768, 65533, 65534, 65535]
        } else {
            &[0, 1, 31, 32, 33, 64, 66, 127, 128, 255, 256, 65535]
        };
        let sl = *ctx.pick("seed-len", ls);
        let il = *ctx.pick("info-len", ls);
        let sl = if sl == 65535 && ctx.flag("huge-seed") { 70_000 } else { sl };
        return check_derive(ctx, a, m, &fill(sl, 5), &fill(il, 6));
    }
    let a = *ctx.pick("suite", &BIGS);
    let which = ctx.flag("sweep-info");
    let hi = ctx.choose("len/64", ctx.tiered(256, 1024));
    let pat = ctx.choose("content", 2);
    for lo in 0..64 {
        // the quick tier takes every length below 4096 and every fourth block above
        let l = if ctx.thorough() || hi < 64 { hi * 64 + lo } else { 4096 + (hi - 64) * 320 + lo * 5 };
        if l > 65535 {
            break;
        }
        let v = if pat == 0 { vec![0; l] } else { fill(l, 7) };
        if which {
            check_derive(ctx, a, m, b"seed", &v)?;
        } else {
            check_derive(ctx, a, m, &v, b"info")?;
        }
    }
    Ok(())
}

/// every key of the small groups through new_with_key; shipped suites at the boundaries
pub fn key_ways(ctx: &mut Ctx) -> Res {
    let m = *ctx.pick("mode", &MODES);
    let which = ctx.choose("kind", 3);
    match which {
        0 => {
            let a = *ctx.pick("group", &TOYS);
            let v = ctx.choose("key", q(a) as usize + 3) as u64;
            let k = toy::enc_s(v, a.spec().ns());
            let srv = a.server_with_key(m, &k);
            ctx.op(1);
            if v == 0 || v >= q(a) {
                chk!(matches!(srv, Err(Er::Deserialization)), "key {v} of a group of order {} accepted", q(a));
                ctx.outcome("refused");
                return Ok(());
            }
            let srv = er(srv, "new_with_key")?;
            check_server(a, m, &srv, Some(&k))?;
            let back = er(a.de(server_kind(m), &a.ser(&srv)), "restore")?;
            check_server(a, m, &back, Some(&k))?;
            ctx.state(&(a.name(), m, v));
            ctx.outcome("key");
        }
        1 => {
            let a = *ctx.pick("suite", &FAST);
            let k = ctx.pick("key", &scalars(a, 8)).clone();
            let srv = er(a.server_with_key(m, &k), "new_with_key")?;
            check_server(a, m, &srv, Some(&k))?;
            for f in FMTS {
                let b = a.serde_ser(&srv, f).map_err(Viol)?;
                let back = a.serde_de(server_kind(m), &b, f).map_err(Viol)?;
                check_server(a, m, &back, Some(&k))?;
                ctx.op(2);
            }
            ctx.state(&(a.name(), m, k));
            ctx.outcome("key");
        }
        _ => {
            // random servers: valid key pair, every byte drawn matters, nothing else does
            let a = *ctx.pick("suite", &FAST);
            let i = ctx.choose("stream", ctx.tiered(6, 40)) as u64;
            let mut r0 = ScriptRng::stream(1000 + i);
            let s0 = er(a.server_new(m, &mut r0), "new")?;
            let sk = check_server(a, m, &s0, None)?;
            chk!(r0.used() >= a.scalar_len(), "{}: new drew {} bytes for a {}-byte key", a.name(), r0.used(), a.scalar_len());
            let s1 = er(a.server_new(m, &mut ScriptRng::stream(1000 + i)), "new")?;
            eq!(a.ser(&s1), a.ser(&s0), "{} {} same RNG output, different server", a.name(), m.name());
            let n = r0.used().min(4 * a.scalar_len());
            for p in 0..n {
                for x in [1u8, 0x80, 0xFF] {
                    let mut d: B = (0..n).map(|_| 0).collect();
                    use rand_core::RngCore;
                    ScriptRng::stream(1000 + i).fill_bytes(&mut d);
                    d[p] ^= x;
                    let s2 = er(a.server_new(m, &mut ScriptRng::with_tail(d, 77)), "new")?;
                    let k2 = check_server(a, m, &s2, None)?;
                    chk!(k2 != sk, "{} {}: byte {p} of the {n} random bytes drawn by new does not influence the key", a.name(), m.name());
                    ctx.op(1);
                    ctx.state(&(a.name(), m, k2));
                }
            }
            ctx.outcome("random key");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C16

/// every hash-to-group value including zero, every operation that hashes an input
pub fn ident_toy(ctx: &mut Ctx) -> Res {
    let gs: [A; 7] = [TOYS[0], TOYS[1], TOYS[2], TOYS[3], TOYS[4], T61, TW];
    let a = *ctx.pick("group", &gs);
    let m = *ctx.pick("mode", &MODES);
    let s = a.spec();
    let lim = q(a).min(13);
    let h = ctx.choose("h2g", lim as usize) as u64;
    let input = ctx.pick("input", &[b"x".to_vec(), vec![], fill(65535, 1)]).clone();
    pin_h2g(a, m, &input, h);
    let b = 1 + ctx.choose("blind", lim as usize - 1) as u64;
    let sk = 1 + ctx.choose("sk", (lim as usize - 1).min(5)) as u64;
    let info = if m == Md::Poprf { *ctx.pick("info", &[None, Some(b"i".as_slice())]) } else { None };
    let srv = er(a.server_with_key(m, &sc(a, sk)), "server")?;
    let mut res: Vec<(&str, R<Option<B>>)> = vec![];
    let mut rng = ScriptRng::with_tail(b.to_be_bytes().to_vec(), 1);
    res.push(("blind", a.blind(m, &input, &mut rng).map(|(_, x)| Some(a.ser(&x)))));
    res.push(("deterministic_blind_unchecked", a.blind_det(m, &input, &sc(a, b)).map(|(_, x)| Some(a.ser(&x)))));
    let tweak_ok = m != Md::Poprf || s.tweak(&sc(a, sk), info.unwrap_or(b"")).is_ok();
    if tweak_ok {
        res.push(("evaluate", a.evaluate(&srv, &input, info).map(|_| None)));
    }
    ctx.op(3);
    for (w, r) in res {
        if h == 0 {
            chk!(matches!(r, Err(Er::Input)), "{} {}: {w} of an input that hashes to the identity gives {:?}", a.name(), m.name(), r.map(|b| b.map(|b| hexs(&b))));
        } else {
            let v = er(r, w)?;
            if let Some(e) = v {
                chk!(e != s.identity(), "{} {}: {w} returned the identity", a.name(), m.name());
            }
        }
    }
    ctx.state(&(a.name(), m, h, b, sk, info, input.len()));
    ctx.outcome(if h == 0 { "refused" } else { "accepted" });
    Ok(())
}

/// scripted randomness that maps to zero: keys, blinds and nonces must still be nonzero
pub fn zero_rng(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &FAST);
    let m = *ctx.pick("mode", &MODES);
    let s = a.spec();
    let ord = match a.toy_q() {
        Some(q) => q.to_be_bytes().to_vec(),
        None => s.order(),
    };
    let mut le = ord.clone();
    le.reverse();
    let dbl = |v: &[u8]| -> B {
        // 2*v big endian, same width (carry dropped only for wide orders)
        let mut c = 0u16;
        let mut o = v.to_vec();
        for x in o.iter_mut().rev() {
            let t = (*x as u16) * 2 + c;
            *x = t as u8;
            c = t >> 8;
        }
        o
    };
    let mut dle = dbl(&ord);
    dle.reverse();
    let pad = |v: &B, n: usize| -> B {
        let mut o = v.clone();
        o.resize(n.max(v.len()), 0);
        o
    };
    let scripts: Vec<B> = vec![
        vec![0; 1],
        vec![0; a.scalar_len()],
        vec![0; 2 * a.scalar_len()],
        vec![0; 64],
        vec![0; 128],
        vec![0; 1000],
        vec![0xFF; a.scalar_len()],
        vec![0xFF; 64],
        vec![0xFF; 1000],
        ord.clone(),
        [ord.clone(), ord.clone()].concat(),
        pad(&le, 64),
        [pad(&le, 64), pad(&le, 64)].concat(),
        pad(&dle, 64),
        [vec![0; 64], pad(&le, 64)].concat(),
        [vec![0; a.scalar_len()], ord.clone()].concat(),
        [vec![0; 63], vec![1]].concat(),
    ];
    let i = ctx.choose("script", scripts.len());
    let mk = || ScriptRng::with_tail(scripts[i].clone(), 5);
    // key
    let srv = er(a.server_new(m, &mut mk()), "new")?;
    let sk = check_server(a, m, &srv, None)?;
    // blind
    let (c, bl) = er(a.blind(m, b"input", &mut mk()), "blind")?;
    let blind = a.ser(&c)[..s.ns()].to_vec();
    chk!(blind != s.zero() && s.scalar_ok(&blind), "{} {}: blinding factor {}", a.name(), m.name(), hexs(&blind));
    chk!(a.ser(&bl) != s.identity(), "{} {}: blinded element is the identity", a.name(), m.name());
    let g = a.g_random_scalar(&mut mk());
    chk!(g != s.zero(), "random_scalar returned zero");
    ctx.op(3);
    if m != Md::Oprf {
        for n in [1usize, 3] {
            let bls: Vec<Obj> = (0..n).map(|j| a.raw_blinded(&re(a, j as u64))).collect();
            let info = if m == Md::Poprf { Some(b"i".as_slice()) } else { None };
            let b = er(eval_batch(ctx, a, &srv, &bls, info, true, Coll::Vec, &mut mk()), "batch")?;
            let p = a.ser(&b.proof);
            let k = if m == Md::Poprf { er(s.tweak(&sk, b"i"), "tweak")? } else { sk.clone() };
            let r = s.sadd(&p[s.ns()..], &s.smul(&p[..s.ns()], &k));
            chk!(r != s.zero(), "{} {}: proof nonce is zero (the proof reveals the key)", a.name(), m.name());
            for e in &b.msgs {
                chk!(a.ser(e) != s.identity(), "evaluation element is the identity");
            }
        }
    }
    ctx.state(&(a.name(), m, i, blind, sk));
    ctx.outcome("nonzero");
    Ok(())
}

// ---------------------------------------------------------------- C22

pub fn danger_agrees(ctx: &mut Ctx) -> Res {
    let small = ctx.choose("space", 2) == 0;
    let m = *ctx.pick("mode", &MODES);
    let (a, b, det_rng): (A, B, ScriptRng);
    let input = ctx.pick("input", &[b"x".to_vec(), vec![], fill(300, 1)]).clone();
    if small {
        a = *ctx.pick("group", &TOYS);
        let v = 1 + ctx.choose("blind", q(a) as usize - 1) as u64;
        let h = 1 + ctx.choose("h2g", q(a) as usize - 1) as u64;
        pin_h2g(a, m, &input, h);
        b = sc(a, v);
        det_rng = ScriptRng::script(v.to_be_bytes().to_vec());
    } else {
        a = *ctx.pick("suite", &FAST);
        det_rng = ScriptRng::stream(50 + ctx.choose("stream", ctx.tiered(6, 40)) as u64);
        let (c, _) = er(a.blind(m, &input, &mut det_rng.clone()), "blind")?;
        b = a.ser(&c)[..a.spec().ns()].to_vec();
    }
    let (c1, m1) = er(a.blind(m, &input, &mut det_rng.clone()), "blind")?;
    let (c2, m2) = er(a.blind_det(m, &input, &b), "deterministic_blind_unchecked")?;
    ctx.op(2);
    eq!(a.ser(&c2), a.ser(&c1), "{} {} client state, danger vs safe", a.name(), m.name());
    eq!(a.ser(&m2), a.ser(&m1), "{} {} message, danger vs safe", a.name(), m.name());
    chk!(a.same(&c1, &c2) && a.same(&m1, &m2), "danger and safe objects differ");
    if let Some(x) = a.get_blind(&c2) {
        eq!(x, b, "get_blind");
    }
    eq!(a.value(&m1), a.ser(&m1), "BlindedElement::value");
    chk!(a.same(&a.raw_blinded(&a.value(&m1)), &m1), "from_value_unchecked(value())");
    let seed = b"danger seed".to_vec();
    let srv = er(a.server_from_seed(m, &seed, &input), "new_from_seed")?;
    let k = er(a.derive_key(&seed, &input, m), "derive_key")?;
    eq!(k, a.ser(&srv)[..a.spec().ns()].to_vec(), "{} {} derive_key vs new_from_seed", a.name(), m.name());
    let info = if m == Md::Poprf { Some(b"i".as_slice()) } else { None };
    if m == Md::Poprf && a.spec().tweak(&k, b"i").is_err() {
        ctx.outcome("no evaluation");
        return Ok(());
    }
    let (ev, pf) = er(a.blind_evaluate(&srv, &mut ScriptRng::stream(3), &m2, info), "blind_evaluate")?;
    eq!(a.value(&ev), a.ser(&ev), "EvaluationElement::value");
    let ev2 = a.raw_eval(&a.value(&ev));
    chk!(a.same(&ev2, &ev), "EvaluationElement::from_value_unchecked(value())");
    let pk = a.server_pk(&srv);
    let o1 = a.finalize(&c1, &input, &ev, pf.as_ref(), pk.as_deref(), info);
    let o2 = a.finalize(&c2, &input, &ev2, pf.as_ref(), pk.as_deref(), info);
    ctx.op(5);
    chk!(o1 == o2 && o1.is_ok(), "danger client finalizes to {o2:?}, safe client to {o1:?}");
    ctx.state(&(a.name(), m, a.ser(&c1), o1.ok()));
    ctx.outcome(m.name());
    // errors agree as well
    let big = fill(65536, 1);
    let e1 = a.blind(m, &big, &mut ScriptRng::stream(1)).map(|_| ()).err();
    let e2 = a.blind_det(m, &big, &b).map(|_| ()).err();
    eq!(e1, e2, "error of an oversized input");
    Ok(())
}

/// randomness from which the group draws exactly the scalar b (when it draws plainly)
pub fn rng_for(a: A, b: &[u8]) -> ScriptRng {
    let mut x = b.to_vec();
    if a.toy_q().is_some() {
        x = [vec![0; 8usize.saturating_sub(x.len())], x[x.len().saturating_sub(8)..].to_vec()].concat();
    } else if a.spec().ns() == 32 && a.spec().base()[0] & 0xFE != 2 {
        x.resize(64, 0);
    }
    ScriptRng::with_tail(x, 77)
}

/// Client with an explicit blind against the client that drew it: state, message, serde, and result.
fn both(ctx: &mut Ctx, a: A, m: Md, b: &[u8], rng: &ScriptRng, input: &[u8], info: Option<&[u8]>, k: u64) -> Res {
    let w = format!("{} {} blind {} input[{}] info {:?}", a.name(), m.name(), hexs(b), input.len(), info.map(|i| i.len()));
    let safe = a.blind(m, input, &mut rng.clone());
    let dang = a.blind_det(m, input, b);
    ctx.op(2);
    let ((c1, m1), (c2, m2)) = match (safe, dang) {
        (Ok(x), Ok(y)) => (x, y),
        (Err(e), Err(f)) => {
            chk!(e == f, "{w}: blind fails with {e:?}, deterministic_blind_unchecked with {f:?}");
            ctx.outcome("both refuse");
            return Ok(());
        }
        (x, y) => fail!("{w}: blind ok={}, deterministic_blind_unchecked ok={}", x.is_ok(), y.is_ok()),
    };
    chk!(a.ser(&c1)[..b.len()] == *b, "{w}: the client drew {}", hexs(&a.ser(&c1)[..b.len()]));
    chk!(a.ser(&c1) == a.ser(&c2) && a.same(&c1, &c2), "{w}: states {} and {}", hexs(&a.ser(&c1)), hexs(&a.ser(&c2)));
    chk!(a.ser(&m1) == a.ser(&m2) && a.same(&m1, &m2), "{w}: messages {} and {}", hexs(&a.ser(&m1)), hexs(&a.ser(&m2)));
    if let Some(x) = a.get_blind(&c1) {
        chk!(x == b, "{w}: get_blind gives {}", hexs(&x));
    }
    for e in [&m1, &m2] {
        chk!(a.value(e) == a.ser(e), "{w}: value() is {}, serialized {}", hexs(&a.value(e)), hexs(&a.ser(e)));
        chk!(a.same(&a.raw_blinded(&a.value(e)), e), "{w}: from_value_unchecked(value()) differs");
    }
    let srv = er(a.server_with_key(m, &rs(a, k)), "server")?;
    let pk = a.server_pk(&srv);
    let e1 = a.blind_evaluate(&srv, &mut ScriptRng::stream(k), &m1, info);
    let e2 = a.blind_evaluate(&srv, &mut ScriptRng::stream(k), &a.raw_blinded(&a.value(&m2)), info);
    ctx.op(2);
    let ((e1, p1), (e2, p2)) = match (e1, e2) {
        (Ok(x), Ok(y)) => (x, y),
        (Err(e), Err(f)) if e == f => {
            ctx.outcome("both evaluations refuse");
            return Ok(());
        }
        _ => fail!("{w}: evaluation of the wrapped value differs in outcome"),
    };
    chk!(a.same(&e1, &e2) && a.value(&e1) == a.ser(&e1), "{w}: evaluation elements differ");
    chk!(p1.as_ref().map(|p| a.ser(p)) == p2.as_ref().map(|p| a.ser(p)), "{w}: proofs differ");
    let o1 = a.finalize(&c1, input, &e1, p1.as_ref(), pk.as_deref(), info);
    let o2 = a.finalize(&c2, input, &a.raw_eval(&a.value(&e2)), p2.as_ref(), pk.as_deref(), info);
    ctx.op(2);
    chk!(o1.is_ok() && o1 == o2, "{w}: outputs {o1:?} and {o2:?}");
    // and on what is refused: another input, another info, another element
    let other = a.raw_eval(&re(a, 4));
    let o1 = a.finalize(&c1, input, &other, p1.as_ref(), pk.as_deref(), info);
    let o2 = a.finalize(&c2, input, &other, p2.as_ref(), pk.as_deref(), info);
    ctx.op(2);
    chk!(o1 == o2, "{w}: on a foreign element {o1:?} and {o2:?}");
    ctx.state(&(a.name(), m, a.ser(&c1), a.ser(&m1), info));
    ctx.outcome(m.name());
    Ok(())
}

/// explicit blinding factors at the boundaries of the scalar fields
pub fn danger_values(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &[&FAST[..], &MIX].concat());
    let m = *ctx.pick("mode", &MODES);
    let step = if a.toy_q().is_some() { 0 } else { ctx.tiered(if a.spec().ns() > 40 { 64 } else { 16 }, 2) };
    let v = if step == 0 {
        let qq = q(a);
        let mut v: Vec<u64> = (1..300).chain((2..61).flat_map(|i| [(1u64 << i) - 1, 1 << i, (1 << i) + 1])).filter(|x| *x < 1 << 32).collect();
        v.retain(|x| *x < qq);
        v.iter().map(|x| sc(a, *x)).collect()
    } else {
        crate::k_core::bit_scalars(a, step)
    };
    let b = ctx.pick("blind", &v).clone();
    let rng = rng_for(a, &b);
    let (c, _) = er(a.blind(m, b"probe", &mut rng.clone()), "blind")?;
    if a.ser(&c)[..b.len()] != b[..] {
        // the group draws this value in another way
        ctx.outcome("not drawn plainly");
        return Ok(());
    }
    let n = ctx.choose("input-len", ctx.tiered(2, 4)) * 20;
    let info = (m == Md::Poprf).then_some(b"i".as_slice());
    both(ctx, a, m, &b, &rng, &fill(n, 3), info, 1)
}

/// every input and info length
pub fn danger_lengths(ctx: &mut Ctx) -> Res {
    let big = ctx.flag("shipped");
    let (set, max) = if big { ([&REAL[..], &MIX].concat(), ctx.tiered(140, 700)) } else { (IDS.to_vec(), ctx.tiered(2100, 70_000)) };
    let a = *ctx.pick("suite", &set);
    let m = *ctx.pick("mode", &MODES);
    let mut ls: Vec<usize> = edge_lens();
    ls.extend([65536, 65537, 70_000, 131_071, 131_072, 196_608]);
    let i = ctx.choose("length", max + ls.len());
    let n = if i < max { i } else { ls[i - max] };
    let as_info = m == Md::Poprf && ctx.flag("as-info");
    let x = if n % 2 == 0 { vec![0; n] } else { fill(n, 13) };
    let (input, info) = if as_info { (b"x".to_vec(), Some(x)) } else { (x, (m == Md::Poprf).then(|| b"i".to_vec())) };
    let rng = ScriptRng::stream(n as u64);
    let b = a.g_random_scalar(&mut rng.clone());
    both(ctx, a, m, &b, &rng, &input, info.as_deref(), 2)
}

/// the exposed derivation against the server constructor
pub fn danger_derive(ctx: &mut Ctx) -> Res {
    let kind = ctx.choose("kind", 3);
    let m = *ctx.pick("mode", &MODES);
    let (a, seed, info): (A, B, B);
    match kind {
        0 => {
            // candidates that are zero before the first usable one; 256 of them leave no key
            a = *ctx.pick("suite", &[TOYS[0], TOYS[2], TOYS[4], T61, TW]);
            seed = fill(ctx.choose("seed", 3) * 32, 1);
            info = fill(ctx.choose("info", 3) * 7, 2);
            let n = ctx.choose("zeros", 257);
            for c in 0..n {
                pin_derive(a, m, &seed, &info, c as u8, 0);
            }
        }
        1 => {
            a = *ctx.pick("suite", &IDS);
            let max = ctx.tiered(1100, 5000);
            let mut ls = edge_lens();
            ls.extend([65530, 65531, 65532, 65533, 65536, 70_000, 131_072]);
            let i = ctx.choose("length", max + ls.len());
            let n = if i < max { i } else { ls[i - max] };
            let other = [0, 1, 40, 65535, 65536][ctx.choose("other", 5)];
            (seed, info) = if ctx.flag("sweep-info") { (fill(other, 3), fill(n, 4)) } else { (fill(n, 3), fill(other, 4)) };
        }
        _ => {
            a = *ctx.pick("suite", &[&REAL[..], &MIX].concat());
            let max = ctx.tiered(150, 600);
            let ls = [255, 256, 257, 1000, 65535, 65536];
            let i = ctx.choose("length", max + ls.len());
            let n = if i < max { i } else { ls[i - max] };
            (seed, info) = if ctx.flag("sweep-info") { (fill(32, 3), fill(n, 4)) } else { (fill(n, 3), fill(32, 4)) };
        }
    }
    let k = a.derive_key(&seed, &info, m);
    let s = a.server_from_seed(m, &seed, &info);
    ctx.op(2);
    let w = format!("{} {} seed[{}] info[{}]", a.name(), m.name(), seed.len(), info.len());
    match (&k, &s) {
        (Ok(k), Ok(s)) => {
            chk!(a.ser(s)[..k.len()] == k[..], "{w}: derive_key gives {}, the server holds {}", hexs(k), hexs(&a.ser(s)[..k.len()]));
            let t = er(a.server_with_key(m, k), "new_with_key of a derived key")?;
            chk!(a.same(&t, s), "{w}: server from the exposed key differs from the server from the seed");
            ctx.op(1);
        }
        (Err(e), Err(f)) => chk!(e == f, "{w}: derive_key fails with {e:?}, new_from_seed with {f:?}"),
        _ => fail!("{w}: derive_key = {:?}, new_from_seed ok = {}", k.as_ref().map(|b| hexs(b)), s.is_ok()),
    }
    ctx.state(&(a.name(), m, &seed, &info, &k.clone().ok()));
    ctx.outcome(if k.is_ok() { "key" } else { "error" });
    Ok(())
}

/// exposed values of every kind of element, as messages and as evaluations
pub fn danger_wrap(ctx: &mut Ctx) -> Res {
    let small = ctx.flag("small");
    let a = if small { *ctx.pick("group", &TOYS) } else { *ctx.pick("suite", &FAST) };
    let s = a.spec();
    let e = if small {
        s.mul(&s.base(), &sc(a, ctx.choose("element", q(a) as usize) as u64))
    } else if a.toy_q().is_some() {
        re(a, ctx.choose("element", ctx.tiered(50, 500)) as u64)
    } else {
        let v = crate::k_core::bit_scalars(a, ctx.tiered(16, 1));
        s.mul(&s.base(), ctx.pick("element", &v))
    };
    let id = e == s.identity();
    for (o, k) in [(a.raw_blinded(&e), Kind::Blinded), (a.raw_eval(&e), Kind::Eval)] {
        chk!(a.value(&o) == e, "{} {}: value() of a wrapped element is {}", a.name(), k.name(), hexs(&a.value(&o)));
        ctx.op(3);
        let d = a.dup(&o);
        chk!(a.same(&d, &o) && a.value(&d) == e, "{} {}: copy of a wrapped element", a.name(), k.name());
        if id {
            // the unit has no encoding that is accepted: wrapping checks nothing
            continue;
        }
        chk!(a.ser(&o) == e, "{} {}: serialization {} of the wrapped {}", a.name(), k.name(), hexs(&a.ser(&o)), hexs(&e));
        let r = er(a.de(k, &e), "restore")?;
        chk!(a.same(&r, &o), "{} {}: wrapped and restored element differ", a.name(), k.name());
        chk!(a.hash64(&r) == a.hash64(&o), "{} {}: hashes of equal elements differ", a.name(), k.name());
        for f in FMTS {
            chk!(a.serde_ser(&o, f).map_err(Viol)? == a.serde_ser(&r, f).map_err(Viol)?, "{} {}: {f:?} forms differ", a.name(), k.name());
        }
    }
    ctx.state(&(a.name(), &e));
    ctx.outcome(if id { "identity" } else { "element" });
    Ok(())
}

// ---------------------------------------------------------------- C16 again

/// shipped suites: no boundary key, blind or element pair makes the unit or zero appear
pub fn ident_values(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &[&FAST[..], &MIX].concat());
    let s = a.spec();
    let m = *ctx.pick("mode", &MODES);
    let v: Vec<B> = if a.toy_q().is_some() {
        (1..=30).flat_map(|i| [sc(a, i), s.ssub(&s.zero(), &sc(a, i)), s.sinv(&sc(a, i))]).collect()
    } else {
        let b = crate::k_core::bit_scalars(a, ctx.tiered(128, 32));
        let n = b.len();
        b.into_iter().enumerate().filter(|(i, _)| *i < 24 || *i > n - 16 || i % 5 == 0).map(|x| x.1).collect()
    };
    let i = ctx.choose("sk", v.len());
    let sk = v[i].clone();
    // the quick tier pairs each key with every fourth blind, in rotation
    let every = ctx.tiered(4, 1);
    let info = (m == Md::Poprf).then_some(b"i".as_slice());
    let srv = er(a.server_with_key(m, &sk), "new_with_key")?;
    check_server(a, m, &srv, Some(&sk))?;
    if m == Md::Poprf && s.tweak(&sk, b"i").is_err() {
        return Ok(());
    }
    let id = s.identity();
    for b in v.iter().skip(i % every).step_by(every) {
        let (c, bl) = er(a.blind_det(m, b"input", b), "blind")?;
        let w = || format!("{} {} key {} blind {}", a.name(), m.name(), hexs(&sk), hexs(b));
        chk!(a.ser(&bl) != id && a.value(&bl) != id, "{}: blinded element is the identity", w());
        chk!(a.ser(&c)[..s.ns()] != s.zero()[..], "{}: the client keeps a zero blind", w());
        // an element anyone may send
        let msg = a.raw_blinded(&s.mul(&s.base(), b));
        let (ev, pf) = er(a.blind_evaluate(&srv, &mut ScriptRng::stream(9), &msg, info), "blind_evaluate")?;
        chk!(a.ser(&ev) != id, "{}: evaluation of blind*G is the identity", w());
        ctx.op(3);
        if m != Md::Oprf {
            let neg = a.raw_blinded(&s.mul(&s.base(), &s.ssub(&s.zero(), b)));
            let (ps, t) = er(a.prepare(&srv, &[&msg, &neg], info, Coll::Vec), "prepare")?;
            for p in &ps {
                let b = a.serde_ser(p, Fmt::Bincode).map_err(Viol)?;
                chk!(!b.windows(id.len()).any(|x| x == id), "{}: a prepared element is the identity", w());
            }
            if let Some(t) = &t {
                let b = a.serde_ser(t, Fmt::Bincode).map_err(Viol)?;
                chk!(!b.windows(s.ns()).any(|x| x == s.zero()), "{}: the prepared tweak is zero", w());
            }
            let bt = er(a.finish(&srv, &mut ScriptRng::stream(9), &[&msg, &neg], &refs(&ps), t.as_ref(), Coll::Vec), "finish")?;
            for e in &bt.msgs {
                chk!(a.ser(e) != id, "{}: a batch evaluation is the identity", w());
            }
            for p in [Some(&bt.proof), pf.as_ref()].into_iter().flatten() {
                let p = a.ser(p);
                let k = if m == Md::Poprf { er(s.tweak(&sk, b"i"), "tweak")? } else { sk.clone() };
                let r = s.sadd(&p[s.ns()..], &s.smul(&p[..s.ns()], &k));
                chk!(r != s.zero(), "{}: a proof nonce is zero", w());
            }
            ctx.op(2);
        }
        ctx.state(&(a.name(), m, &sk, b));
    }
    ctx.outcome(m.name());
    Ok(())
}

/// the unit, zero and everything congruent to them, in every component of every kind, every decoder
pub fn ident_outside(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &[&FAST[..], &MIX].concat());
    let s = a.spec();
    let k = *ctx.pick("kind", &ALL_KINDS);
    let ps: Vec<B> = k.layout().iter().enumerate().map(|(i, e)| if *e { re(a, 50 + i as u64) } else { rs(a, 50 + i as u64) }).collect();
    let o = crate::k_persist::build(a, k, &ps)?;
    // every non-empty set of components degenerate at once
    let set = 1 + ctx.choose("components", (1 << ps.len()) - 1);
    let elem_forms: Vec<B> = {
        let n = s.ne();
        let mut v = vec![s.identity(), vec![0; n], vec![0xFF; n]];
        for t in 0..=255u8 {
            let mut z = vec![0; n];
            z[0] = t;
            v.push(z);
            let mut z = vec![0; n];
            z[n - 1] = t;
            v.push(z);
        }
        v.retain(|x| x.len() == n && !s.elem_ok(x));
        v
    };
    let scalar_forms: Vec<B> = {
        let mut v = vec![s.zero(), vec![0; s.ns()], vec![0xFF; s.ns()]];
        if a.toy_q().is_none() {
            v.extend(crate::k_persist::multiples(a));
        } else {
            v.extend((1..4).map(|i| toy::enc_s(q(a) * i, s.ns())));
        }
        v.retain(|x| !s.scalar_ok(x));
        v
    };
    let n = elem_forms.len().max(scalar_forms.len());
    let json = String::from_utf8(a.serde_ser(&o, Fmt::Json).map_err(Viol)?).map_err(|e| Viol(e.to_string()))?;
    let list = |b: &[u8]| format!("[{}]", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    let others: Vec<(Fmt, B)> = [Fmt::Bincode, Fmt::Cbor].into_iter().map(|f| Ok((f, a.serde_ser(&o, f).map_err(Viol)?))).collect::<Result<_, Viol>>()?;
    let mut tampered = 0;
    for i in 0..n {
        let mut bad = ps.clone();
        for (c, e) in k.layout().iter().enumerate() {
            if set >> c & 1 == 1 {
                let v = if *e { &elem_forms } else { &scalar_forms };
                bad[c] = v[i % v.len()].clone();
            }
        }
        let bytes = bad.concat();
        let w = |f: &str| format!("{} {} {} through {f}", a.name(), k.name(), hexs(&bytes));
        if k != Kind::Prepared && k != Kind::Tweak {
            match a.de(k, &bytes) {
                Ok(_) => fail!("{}: accepted", w("deserialize")),
                Err(e) => chk!(e == Er::Deserialization, "{}: {e:?}", w("deserialize")),
            }
        }
        let mut t = json.clone();
        for c in 0..ps.len() {
            t = t.replacen(&list(&ps[c]), &list(&bad[c]), 1);
        }
        if t != json {
            tampered += 1;
            for f in [Fmt::Json, Fmt::JsonValue] {
                chk!(a.serde_de(k, t.as_bytes(), f).is_err(), "{}: accepted", w("JSON"));
            }
        }
        for (f, b) in &others {
            let mut b = b.clone();
            let mut hit = true;
            for c in 0..ps.len() {
                match b.windows(ps[c].len()).position(|x| x == ps[c]) {
                    Some(at) => b[at..at + ps[c].len()].copy_from_slice(&bad[c]),
                    None => hit = false,
                }
            }
            if hit {
                tampered += 1;
                chk!(a.serde_de(k, &b, *f).is_err(), "{}: accepted", w("a binary format"));
            }
        }
        if k == Kind::OprfServer {
            for m in MODES {
                chk!(matches!(a.server_with_key(m, &bytes), Err(Er::Deserialization)), "{}: accepted", w("new_with_key"));
            }
        }
        ctx.op(5);
        ctx.state(&(a.name(), k, set, &bytes));
    }
    ctx.outcome(if tampered > 0 { "documents tampered" } else { "bytes only" });
    Ok(())
}
