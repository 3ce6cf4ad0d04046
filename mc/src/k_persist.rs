//! Persistence and representation: C10 (forms), C11 (strict decoding), C18 (wiping), C23 (values).
use serde_json::Value;

use crate::api::*;
use crate::engine::*;
use crate::h::*;
use crate::spec::*;
use crate::suites::*;
use crate::toy::{self, ScriptRng};
use crate::{chk, eq, fail};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Form {
    Same,
    Clone,
    Bytes,
    S(Fmt),
}
pub const FORMS: [Form; 7] = [Form::Same, Form::Bytes, Form::S(Fmt::Json), Form::S(Fmt::Bincode), Form::Clone, Form::S(Fmt::JsonValue), Form::S(Fmt::Cbor)];

pub fn reform(ctx: &mut Ctx, a: A, o: Obj, f: Form) -> Result<Obj, Viol> {
    let wire = !matches!(o.kind, Kind::Prepared | Kind::Tweak);
    let what = format!("{} {} through {f:?}", a.name(), o.kind.name());
    let n = match f {
        Form::Same => return Ok(o),
        Form::Clone => a.dup(&o),
        Form::Bytes if wire => er(a.de(o.kind, &a.ser(&o)), &what)?,
        Form::Bytes => a.dup(&o),
        Form::S(f) => {
            let b = a.serde_ser(&o, f).map_err(|e| Viol(format!("{what}: {e}")))?;
            let n = a.serde_de(o.kind, &b, f).map_err(|e| Viol(format!("{what}: restoring: {e}")))?;
            let again = a.serde_ser(&n, f).map_err(|e| Viol(format!("{what}: {e}")))?;
            eq!(again, b, "{what}: serialization of the restored value");
            n
        }
    };
    if wire {
        eq!(hexs(&a.ser(&n)), hexs(&a.ser(&o)), "{what}: bytes of the restored value");
    }
    chk!(a.same(&n, &o), "{what}: the restored value differs");
    drop(o);
    ctx.op(2);
    Ok(n)
}

/// A run with every object replaced by a form of itself at every hand-over.
fn persisted(ctx: &mut Ctx, a: A, m: Md, sk: &[u8], blind_stream: u64, split: bool, f: &[Form], info: Option<&[u8]>) -> Result<Vec<B>, Viol> {
    let input = b"persist".to_vec();
    let mut seen: Vec<B> = vec![];
    let server = er(a.server_with_key(m, sk), "server")?;
    let pk = a.server_pk(&server);
    let server = reform(ctx, a, server, f[0])?;
    let (c, bl) = er(a.blind(m, &input, &mut ScriptRng::stream(blind_stream)), "blind")?;
    let c = reform(ctx, a, c, f[1])?;
    let bl = reform(ctx, a, bl, f[2])?;
    seen.push(a.ser(&bl));
    let mut rng = ScriptRng::stream(blind_stream + 1);
    let (ev, pf) = if split {
        let (mut ps, mut t) = er(a.prepare(&server, &[&bl], info, Coll::Vec), "prepare")?;
        let p = reform(ctx, a, ps.remove(0), f[5])?;
        if let Some(x) = t.take() {
            t = Some(reform(ctx, a, x, f[6])?);
        }
        // the server is put away between the two steps as well
        let server = reform(ctx, a, a.dup(&server), f[0])?;
        let mut b = er(a.finish(&server, &mut rng, &[&bl], &[&p], t.as_ref(), Coll::Vec), "finish")?;
        (b.msgs.remove(0), Some(b.proof))
    } else {
        er(a.blind_evaluate(&server, &mut rng, &bl, info), "blind_evaluate")?
    };
    seen.push(a.ser(&ev));
    let ev = reform(ctx, a, ev, f[3])?;
    let pf = match pf {
        Some(p) => {
            seen.push(a.ser(&p));
            Some(reform(ctx, a, p, f[4])?)
        }
        None => None,
    };
    // the key as the persisted server exposes it
    chk!(a.server_pk(&server) == pk, "{}: restored server has another public key", a.name());
    seen.push(a.server_pk(&server).unwrap_or_default());
    let o = a.finalize(&c, &input, &ev, pf.as_ref(), pk.as_deref(), info);
    match o {
        Ok(o) => seen.push(o),
        Err(e) => fail!("{} {} with forms {f:?}: finalize fails with {e:?}", a.name(), m.name()),
    }
    // the very same objects once more
    let o2 = er(a.finalize(&c, &input, &ev, pf.as_ref(), pk.as_deref(), info), "second finalize")?;
    eq!(o2, *seen.last().unwrap(), "second finalize");
    seen.push(er(a.evaluate(&server, &input, info), "evaluate")?);
    ctx.op(6);
    Ok(seen)
}

/// full product of forms per object
pub fn forms_product(ctx: &mut Ctx) -> Res {
    let m = *ctx.pick("mode", &MODES);
    let a = *ctx.pick("suite", if ctx.thorough() { &FAST[..3] } else { &FAST[..1] });
    let split = m != Md::Oprf && ctx.flag("prepare-finish");
    let big = if a.name() == T61.name() && ctx.thorough() { 7 } else { 4 };
    let mut f = [Form::Same; 7];
    let slots: &[usize] = match (m, split) {
        (Md::Oprf, _) => &[0, 1, 2, 3],
        (_, false) => &[0, 1, 2, 3, 4],
        (Md::Voprf, true) => &[0, 1, 2, 3, 4, 5],
        _ => &[0, 1, 2, 3, 4, 5, 6],
    };
    for s in slots {
        f[*s] = *ctx.pick("form", &FORMS[..big]);
    }
    run_forms(ctx, a, m, split, f)
}
fn run_forms(ctx: &mut Ctx, a: A, m: Md, split: bool, f: [Form; 7]) -> Res {
    let info = (m == Md::Poprf).then_some(b"inf".as_slice());
    let base = persisted(ctx, a, m, &rs(a, 4), 70, split, &[Form::Same; 7], info)?;
    let got = persisted(ctx, a, m, &rs(a, 4), 70, split, &f, info)?;
    if got != base {
        let i = (0..got.len()).find(|i| got[*i] != base[*i]);
        fail!("{} {} with forms {f:?}: step {i:?} differs from the run without persistence", a.name(), m.name());
    }
    ctx.state(&(a.name(), m, split, f));
    ctx.outcome(m.name());
    Ok(())
}

/// every pair of objects replaced, every pair of forms, every suite
pub fn forms_pairs(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &FAST);
    let m = *ctx.pick("mode", &MODES);
    let split = m != Md::Oprf && ctx.flag("prepare-finish");
    let n = match (m, split) {
        (Md::Oprf, _) => 4,
        (_, false) => 5,
        (Md::Voprf, true) => 6,
        _ => 7,
    };
    let i = ctx.choose("slot", n);
    // the slow curves: single replacements only in the quick tier
    let slow = !ctx.thorough() && (a.name() == REAL[2].name() || a.name() == REAL[3].name());
    let j = if slow { i } else { i + ctx.choose("slot2", n - i) };
    let mut f = [Form::Same; 7];
    f[i] = FORMS[1 + ctx.choose("form", 6)];
    if j != i {
        f[j] = FORMS[1 + ctx.choose("form", 6)];
    }
    run_forms(ctx, a, m, split, f)
}

fn elems(a: A, n: usize) -> Vec<B> {
    let s = a.spec();
    let mut v = vec![s.base(), re(a, 1), s.mul(&s.base(), &neg1(a)), re(a, 2), s.mul(&s.base(), &sc(a, 2))];
    v.extend((3..).take(n.saturating_sub(5)).map(|i| re(a, i)));
    v.truncate(n);
    v
}
fn parts(a: A, k: Kind, i: usize, j: usize, es: &[B], ss: &[B]) -> Vec<B> {
    let _ = a;
    k.layout().iter().enumerate().map(|(p, e)| {
        let x = if p == 0 { i } else { j };
        if *e { es[x % es.len()].clone() } else { ss[x % ss.len()].clone() }
    }).collect()
}
/// an object of any kind with the given contents
pub fn build(a: A, k: Kind, p: &[B]) -> Result<Obj, Viol> {
    match k {
        Kind::Prepared | Kind::Tweak => {
            let b = p.concat();
            a.serde_de(k, &b, Fmt::Bincode).map_err(|e| Viol(format!("{} {} from bincode: {e}", a.name(), k.name())))
        }
        _ => er(a.de(k, &p.concat()), k.name()),
    }
}

/// every kind, boundary contents: layout, declared length, determinism, all formats
pub fn layouts(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &FAST);
    let k = *ctx.pick("kind", &ALL_KINDS);
    let n = ctx.tiered(5, 12);
    let i = ctx.choose("first", n);
    let j = if k.layout().len() > 1 { ctx.choose("second", n) } else { 0 };
    let (es, ss) = (elems(a, n), { let mut v = scalars(a, 8); v.extend((9..20).map(|x| rs(a, x))); v });
    let p = parts(a, k, i, j, &es, &ss);
    let o = build(a, k, &p)?;
    let s = a.spec();
    if !matches!(k, Kind::Prepared | Kind::Tweak) {
        let b = a.ser(&o);
        eq!(hexs(&b), hexs(&p.concat()), "{} {} serialization", a.name(), k.name());
        chk!(b.len() == a.declared_len(k) && b.len() == k.len(s), "{} {}: {} bytes, declared {}, RFC sizes give {}", a.name(), k.name(), b.len(), a.declared_len(k), k.len(s));
        eq!(a.ser(&o), b, "second serialization");
        // behind other data and in front of other data the object decodes to the same or is refused
    }
    let again = build(a, k, &p)?;
    chk!(a.same(&o, &again), "{} {}: the same bytes give different values", a.name(), k.name());
    for f in FORMS {
        let x = reform(ctx, a, a.dup(&o), f)?;
        let y = reform(ctx, a, x, f)?;
        for g in FMTS {
            eq!(a.serde_ser(&y, g).map_err(Viol)?, a.serde_ser(&o, g).map_err(Viol)?, "{} {} {f:?} then {g:?}", a.name(), k.name());
        }
    }
    ctx.state(&(a.name(), k, &p));
    ctx.note(|| format!("{} {} = {}", a.name(), k.name(), hexs(&p.concat())));
    ctx.outcome(k.name());
    Ok(())
}

/// batches whose items went through different forms
pub fn forms_batch(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &[T61, TW, REAL[0], REAL[1]]);
    let m = *ctx.pick("mode", &VER);
    let n = 3;
    let alloc = ctx.flag("alloc");
    let info = (m == Md::Poprf).then_some(b"inf".as_slice());
    let server = er(a.server_with_key(m, &rs(a, 4)), "server")?;
    let pk = a.server_pk(&server).unwrap();
    let inputs = batch_inputs(n, 0);
    let (mut cs, mut bs) = blind_all(ctx, a, m, &inputs, &mut ScriptRng::stream(5))?;
    let base = er(eval_batch(ctx, a, &server, &bs, info, alloc, Coll::Vec, &mut ScriptRng::stream(6)), "batch")?;
    let f3 = [Form::Same, Form::Bytes, Form::S(Fmt::Bincode)];
    let mut fs = vec![];
    for i in 0..n {
        let f = *ctx.pick("form", &f3);
        bs[i] = reform(ctx, a, a.dup(&bs[i]), f)?;
        let g = *ctx.pick("client form", &f3);
        cs[i] = reform(ctx, a, a.dup(&cs[i]), g)?;
        fs.push((f, g));
    }
    let b = er(eval_batch(ctx, a, &server, &bs, info, alloc, Coll::Vec, &mut ScriptRng::stream(6)), "batch")?;
    eq!(a.ser(&b.proof), a.ser(&base.proof), "{} {} proof with items through {fs:?}", a.name(), m.name());
    let mut ev = vec![];
    for (i, e) in b.msgs.into_iter().enumerate() {
        ev.push(reform(ctx, a, e, fs[i].0)?);
    }
    let pf = reform(ctx, a, b.proof, fs[0].1)?;
    let outs = er(a.batch_finalize(m, &inputs, &refs(&cs), &refs(&ev), &pf, &pk, info, Coll::Vec, Drain::All), "batch_finalize")?;
    for i in 0..n {
        chk!(outs[i] == a.evaluate(&server, &inputs[i], info), "{} {}: output {i} with items through {fs:?}", a.name(), m.name());
    }
    ctx.state(&(a.name(), m, fs));
    ctx.outcome(m.name());
    Ok(())
}

// ---------------------------------------------------------------- C11

fn big_add(a: &[u8], b: &[u8]) -> Option<B> {
    // big endian, same width; None on overflow
    let mut c = 0u16;
    let mut o = a.to_vec();
    for i in (0..a.len()).rev() {
        let t = a[i] as u16 + b[i] as u16 + c;
        o[i] = t as u8;
        c = t >> 8;
    }
    (c == 0).then_some(o)
}
fn big_small(n: usize, v: i64) -> (B, bool) {
    let mut o = vec![0; n];
    o[n - 8..].copy_from_slice(&v.unsigned_abs().to_be_bytes());
    (o, v < 0)
}
fn big_sub(a: &[u8], b: &[u8]) -> Option<B> {
    let mut c = 0i32;
    let mut o = a.to_vec();
    for i in (0..a.len()).rev() {
        let t = a[i] as i32 - b[i] as i32 - c;
        o[i] = t as u8;
        c = (t < 0) as i32;
    }
    (c == 0).then_some(o)
}
fn big_off(a: &[u8], v: i64) -> Option<B> {
    let (b, neg) = big_small(a.len(), v);
    if neg {
        big_sub(a, &b)
    } else {
        big_add(a, &b)
    }
}
/// field prime, big endian, in the width of an element's coordinate
fn prime(a: A) -> Option<B> {
    let h = match a.name() {
        "ristretto255-SHA512" => "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed".to_string(),
        "P256-SHA256" => "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff".to_string(),
        "P384-SHA384" => "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff".to_string(),
        "P521-SHA512" => format!("01{}", "ff".repeat(65)),
        _ => return None,
    };
    Some((0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect())
}

/// the order of a shipped group and its multiples, as far as they fit
pub fn multiples(a: A) -> Vec<B> {
    let ord = a.spec().order();
    let mut v = vec![ord.clone()];
    while let Some(x) = big_add(v.last().unwrap(), &ord) {
        if v.len() > 300 {
            break;
        }
        v.push(x);
    }
    if a.spec().scalar_le() {
        v.iter_mut().for_each(|x| x.reverse());
    }
    v
}

/// candidate encodings of one scalar (any length)
pub fn scalar_cands(a: A, thorough: bool) -> Vec<B> {
    let s = a.spec();
    let n = s.ns();
    let le = s.scalar_le();
    let fix = |mut b: B| {
        if le {
            b.reverse();
        }
        b
    };
    let ord = match a.toy_q() {
        Some(q) => toy::enc_s(q, n),
        None => s.order(),
    };
    let mut v: Vec<B> = vec![s.one(), s.zero(), neg1(a), rs(a, 1), rs(a, 2)];
    let span = if thorough { 2000 } else { 40 };
    for d in -span..=span {
        v.extend(big_off(&ord, d).map(fix));
    }
    // multiples of the order, with small offsets
    let mut k = ord.clone();
    for _ in 0..20 {
        match big_add(&k, &ord) {
            Some(x) => k = x,
            None => break,
        }
        for d in -2..=2 {
            v.extend(big_off(&k, d).map(fix));
        }
        v.extend(big_add(&k, &{ let mut x = rs(a, 1); if le { x.reverse() } x }).map(fix));
    }
    for d in 0..=(span as u64) {
        v.push(s.scalar(d));
        let (b, _) = big_small(n, d as i64);
        v.extend(big_sub(&vec![0xFF; n], &b).map(fix));
        v.extend(big_add(&ord, &b).map(fix));
    }
    for base in [vec![0; n], vec![0xFF; n], neg1(a), rs(a, 1), fix(ord.clone()), s.one()] {
        for bit in 0..8 * n {
            let mut x = base.clone();
            x[bit / 8] ^= 1 << (bit % 8);
            v.push(x);
        }
        // little / big endian mix-up
        let mut x = base.clone();
        x.reverse();
        v.push(x);
        for p in 0..n {
            if thorough {
                for y in 0..=255 {
                    let mut x = base.clone();
                    x[p] = y;
                    v.push(x);
                }
            }
        }
        // wrong lengths
        for l in 0..=2 * n + 2 {
            let mut x = base.clone();
            x.resize(l, 0);
            v.push(x.clone());
            // left-padded / left-truncated
            let mut y = vec![0; l.saturating_sub(n)];
            y.extend(&base[n.saturating_sub(l)..]);
            v.push(y);
        }
    }
    v.sort();
    v.dedup();
    v
}

/// candidate encodings of one element (any length)
pub fn elem_cands(a: A, thorough: bool) -> Vec<B> {
    let s = a.spec();
    let n = s.ne();
    let valid = elems(a, if thorough { 12 } else { 5 });
    let mut v: Vec<B> = valid.clone();
    v.push(s.identity());
    for base in valid.iter().cloned().chain([vec![0; n], vec![0xFF; n], s.identity()]) {
        for bit in 0..8 * n {
            let mut x = base.clone();
            x[bit / 8] ^= 1 << (bit % 8);
            v.push(x);
        }
        for p in [0, 1, n - 1, n / 2] {
            for y in 0..=255 {
                let mut x = base.clone();
                x[p] = y;
                v.push(x);
            }
        }
        if thorough {
            for p in 0..n {
                for y in 0..=255 {
                    let mut x = base.clone();
                    x[p] = y;
                    v.push(x);
                }
            }
        }
        let mut x = base.clone();
        x.reverse();
        v.push(x);
        for l in 0..=2 * n + 2 {
            let mut x = base.clone();
            x.resize(l, 0);
            v.push(x.clone());
            for t in [0u8, 2, 3, 4, 5, 6, 7] {
                if !x.is_empty() {
                    x[0] = t;
                    v.push(x.clone());
                }
            }
            let mut y = vec![0; l.saturating_sub(n)];
            y.extend(&base[n.saturating_sub(l)..]);
            v.push(y);
        }
    }
    if let Some(p) = prime(a) {
        let w = p.len();
        let span = if thorough { 3000 } else { 300 };
        let nist = n == w + 1;
        for d in -span..=span {
            for m in [vec![0; w], p.clone(), vec![0xFF; w]] {
                let Some(x) = big_off(&m, d) else { continue };
                if nist {
                    for t in [2u8, 3] {
                        v.push([vec![t], x.clone()].concat());
                    }
                } else {
                    let mut y = x.clone();
                    y.reverse();
                    v.push(y.clone());
                    y[n - 1] |= 0x80;
                    v.push(y);
                }
            }
        }
        // valid points written with coordinate + p, and (ristretto) p - s
        for e in &valid {
            if nist {
                v.extend(big_add(&e[1..], &p).map(|x| [vec![e[0]], x].concat()));
            } else {
                let mut be = e.clone();
                be.reverse();
                for x in [big_add(&be, &p), big_sub(&p, &be)].into_iter().flatten() {
                    let mut x = x;
                    x.reverse();
                    v.push(x);
                }
            }
        }
    }
    // uncompressed, hybrid and compact forms
    for e in &valid {
        for (t, u) in uncompressed(a, e) {
            v.push([vec![t], u.clone()].concat());
        }
    }
    v.sort();
    v.dedup();
    v
}
/// (tag, coordinates) of the other SEC1 forms of a valid point
fn uncompressed(a: A, e: &[u8]) -> Vec<(u8, B)> {
    macro_rules! unc {
        ($k:ident) => {{
            use elliptic_curve::sec1::{FromEncodedPoint, ToEncodedPoint};
            let p = $k::AffinePoint::from_encoded_point(&$k::EncodedPoint::from_bytes(e).unwrap()).unwrap();
            let u = p.to_encoded_point(false);
            let u = u.as_bytes()[1..].to_vec();
            let x = u[..u.len() / 2].to_vec();
            let odd = e[0] & 1;
            vec![(4, u.clone()), (6, u.clone()), (7, u.clone()), (6 | odd, u.clone()), (5, x.clone()), (2, u.clone()), (3, u), (4, x)]
        }};
    }
    match a.name() {
        "P256-SHA256" => unc!(p256),
        "P384-SHA384" => unc!(p384),
        "P521-SHA512" => unc!(p521),
        _ => vec![],
    }
}

fn expect_de(what: &str, r: &R<B>, ok: bool, bytes: &[u8]) -> Res {
    match r {
        Ok(b) => {
            chk!(ok, "{what}: accepted, but {} is not the canonical encoding of a valid value", hexs(bytes));
            eq!(hexs(b), hexs(bytes), "{what}: accepted value re-encodes differently");
        }
        Err(e) => {
            chk!(!ok, "{what}: valid encoding {} refused with {e:?}", hexs(bytes));
            chk!(*e == Er::Deserialization, "{what}: {} refused with {e:?} instead of the deserialization error", hexs(bytes));
        }
    }
    Ok(())
}

/// every candidate in every component of every kind, through every decoder
pub fn strict(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &FAST);
    let elem = ctx.flag("element");
    let s = a.spec();
    let cands = if elem { elem_cands(a, ctx.thorough()) } else { scalar_cands(a, ctx.thorough()) };
    let chunk = 64;
    let i = ctx.choose("chunk", cands.len().div_ceil(chunk));
    let ok_of = |c: &[u8]| if elem { s.elem_ok(c) } else { s.scalar_ok(c) };
    let mut accepted = 0;
    for c in &cands[i * chunk..((i + 1) * chunk).min(cands.len())] {
        let ok = ok_of(c);
        accepted += ok as u32;
        let t = format!("{} {}", a.name(), if elem { "element" } else { "scalar" });
        // the group's own decoder and raw keys: the exact length is required
        if elem {
            expect_de(&format!("{t}, deserialize_elem"), &a.g_de_elem(c), ok, c)?;
        } else {
            expect_de(&format!("{t}, deserialize_scalar"), &a.g_de_scalar(c), ok, c)?;
            for m in MODES {
                let r = a.server_with_key(m, c).map(|o| a.ser(&o)[..s.ns()].to_vec());
                expect_de(&format!("{t}, {} new_with_key", m.name()), &r, ok, c)?;
            }
        }
        ctx.op(4);
        let good_e = re(a, 50);
        let good_s = rs(a, 50);
        let width = if elem { s.ne() } else { s.ns() };
        for k in WIRE_KINDS {
            for (p, e) in k.layout().iter().enumerate() {
                if *e != elem {
                    continue;
                }
                let mut ps: Vec<B> = k.layout().iter().map(|e| if *e { good_e.clone() } else { good_s.clone() }).collect();
                ps[p] = c.clone();
                let bytes = ps.concat();
                if c.len() != width {
                    // the object as a whole has the wrong length: shorter must fail; a longer
                    // one is its prefix plus trailing data, which no document specifies
                    if bytes.len() < k.len(s) {
                        chk!(matches!(a.de(k, &bytes).map(|_| ()), Err(Er::Deserialization)), "{t} in {}: {} bytes accepted or wrong error", k.name(), bytes.len());
                    } else if bytes.len() > k.len(s) {
                        let l = k.len(s);
                        let pre = a.de(k, &bytes[..l]).map(|o| a.ser(&o));
                        let full = a.de(k, &bytes).map(|o| a.ser(&o));
                        chk!(full.is_err() || full == pre, "{t} in {}: trailing data changes the value", k.name());
                        if let Err(e) = full {
                            chk!(e == Er::Deserialization, "{t} in {}: {e:?}", k.name());
                        }
                    }
                    continue;
                }
                let r = a.de(k, &bytes).map(|o| a.ser(&o));
                expect_de(&format!("{t} in component {p} of {}", k.name()), &r, ok, &bytes)?;
                ctx.op(1);
            }
        }
        ctx.state(&(a.name(), elem, c));
    }
    ctx.outcome(if accepted == 0 { "all refused" } else { "some accepted" });
    Ok(())
}

fn json_parts(v: &Value) -> Vec<B> {
    // arrays of byte-sized numbers, in document order
    match v {
        Value::Array(x) if x.iter().all(|n| n.as_u64().map(|n| n < 256).unwrap_or(false)) && !x.is_empty() => {
            vec![x.iter().map(|n| n.as_u64().unwrap() as u8).collect()]
        }
        Value::Array(x) => x.iter().flat_map(json_parts).collect(),
        Value::Object(x) => x.values().flat_map(json_parts).collect(),
        _ => vec![],
    }
}
fn json_replace(v: &mut Value, old: &[u8], new: &[u8]) -> usize {
    if json_parts(v) == vec![old.to_vec()] && v.is_array() && v.as_array().unwrap().iter().all(|x| x.is_number()) {
        *v = Value::Array(new.iter().map(|b| Value::from(*b)).collect());
        return 1;
    }
    match v {
        Value::Array(x) => x.iter_mut().map(|y| json_replace(y, old, new)).sum(),
        Value::Object(x) => x.values_mut().map(|y| json_replace(y, old, new)).sum(),
        _ => 0,
    }
}
fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    (0..=h.len().checked_sub(n.len())?).find(|i| &h[*i..*i + n.len()] == n)
}

/// the same candidates inside serde documents (JSON value, JSON text, bincode)
pub fn strict_serde(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &FAST);
    let elem = ctx.flag("element");
    let k = *ctx.pick("kind", &ALL_KINDS);
    let comps: Vec<usize> = (0..k.layout().len()).filter(|p| k.layout()[*p] == elem).collect();
    if comps.is_empty() {
        return Ok(());
    }
    let p = *ctx.pick("component", &comps);
    let s = a.spec();
    let mut cands = if elem { elem_cands(a, ctx.thorough()) } else { scalar_cands(a, ctx.thorough()) };
    let width = if elem { s.ne() } else { s.ns() };
    cands.retain(|c| c.len() == width || c.len() < width + 3);
    let chunk = 256;
    let i = ctx.choose("chunk", cands.len().div_ceil(chunk));
    let ps: Vec<B> = k.layout().iter().enumerate().map(|(i, e)| if *e { re(a, 50 + i as u64) } else { rs(a, 50 + i as u64) }).collect();
    let o = build(a, k, &ps)?;
    let doc: Value = serde_json::from_slice(&a.serde_ser(&o, Fmt::Json).map_err(Viol)?).map_err(|e| Viol(e.to_string()))?;
    let bin = a.serde_ser(&o, Fmt::Bincode).map_err(Viol)?;
    let at = find(&bin, &ps[p]);
    let mut seen = 0;
    for c in &cands[i * chunk..((i + 1) * chunk).min(cands.len())] {
        let ok = if elem { s.elem_ok(c) } else { s.scalar_ok(c) };
        let what = |f: &str| format!("{} {} component {p} = {} through {f}", a.name(), k.name(), hexs(c));
        let mut d = doc.clone();
        if json_replace(&mut d, &ps[p], c) == 1 {
            let t = d.to_string().into_bytes();
            for f in [Fmt::Json, Fmt::JsonValue] {
                let r = a.serde_de(k, &t, f);
                chk!(r.is_ok() == ok, "{}: {}", what("JSON"), if ok { "valid encoding refused" } else { "accepted" });
                if let Ok(x) = r {
                    let mut b = d.clone();
                    let y: Value = serde_json::from_slice(&a.serde_ser(&x, Fmt::Json).map_err(Viol)?).map_err(|e| Viol(e.to_string()))?;
                    chk!(y == b.take(), "{}: re-encodes differently", what("JSON"));
                }
            }
            seen += 1;
        }
        if let (Some(at), true) = (at, c.len() == width) {
            let mut b = bin.clone();
            b[at..at + width].copy_from_slice(c);
            let r = a.serde_de(k, &b, Fmt::Bincode);
            chk!(r.is_ok() == ok, "{}: {}", what("bincode"), if ok { "valid encoding refused" } else { "accepted" });
            if let Ok(x) = r {
                eq!(a.serde_ser(&x, Fmt::Bincode).map_err(Viol)?, b, "{}: re-encoding", what("bincode"));
            }
            seen += 1;
        }
        ctx.op(3);
        ctx.state(&(a.name(), k, p, c));
    }
    ctx.outcome(if seen > 0 { "documents tampered" } else { "no tampering point found" });
    Ok(())
}

// ---------------------------------------------------------------- C18

/// pairs of values that differ in one component: same memory after dropping
pub fn wiped(ctx: &mut Ctx) -> Res {
    let mut suites: Vec<A> = FAST.to_vec();
    suites.extend([TOYS[2], TOYS[4]]);
    let a = *ctx.pick("suite", &suites);
    let k = *ctx.pick("kind", &ALL_KINDS);
    let comp = ctx.choose("component", k.layout().len());
    let form = *ctx.pick("form", &FORMS);
    let small = a.toy_q().map(|q| q < 100).unwrap_or(false);
    let n = if small { q(a) as usize - 1 } else { ctx.tiered(4, 10) };
    let (es, ss): (Vec<B>, Vec<B>) = if small {
        ((1..q(a)).map(|v| toy::enc_e(v, a.spec().ne())).collect(), (1..q(a)).map(|v| sc(a, v)).collect())
    } else {
        (elems(a, 12), (1..16).map(|x| rs(a, x)).collect())
    };
    let i = ctx.choose("left", n);
    let j = ctx.choose("right", n);
    if i == j {
        return Ok(());
    }
    let mk = |x: usize| {
        let p: Vec<B> = k.layout().iter().enumerate().map(|(c, e)| {
            let y = if c == comp { x } else { 0 };
            if *e { es[y].clone() } else { ss[y].clone() }
        }).collect();
        build(a, k, &p)
    };
    let x = mk(i)?;
    let x = reform(ctx, a, x, form)?;
    let y = mk(j)?;
    let y = reform(ctx, a, y, form)?;
    let ((b0, a0), (b1, a1)) = (a.wipe_image(&x), a.wipe_image(&y));
    chk!(b0 != b1, "harness: {} {} images of different values are equal", a.name(), k.name());
    ctx.op(2);
    if a0 != a1 {
        let d: Vec<usize> = (0..a0.len()).filter(|i| a0[*i] != a1[*i]).collect();
        fail!("{} {}: after dropping, {} bytes of the value still depend on its component {comp} (offsets {:?}..)", a.name(), k.name(), d.len(), &d[..d.len().min(8)]);
    }
    // the originals are still intact
    chk!(!a.same(&x, &y), "dropping a clone changed the original");
    ctx.state(&(a.name(), k, comp, i, j, form));
    ctx.outcome(k.name());
    Ok(())
}

/// values produced by the protocol itself (not decoded ones)
pub fn wiped_run(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &FAST);
    let m = *ctx.pick("mode", &MODES);
    let run = |seed: u64| -> Result<Vec<Obj>, Viol> {
        let info: B = format!("info{seed}").into_bytes();
        let info = (m == Md::Poprf).then_some(info.as_slice());
        let mut r = ScriptRng::stream(seed);
        let s = er(a.server_new(m, &mut r), "new")?;
        let (c, b) = er(a.blind(m, format!("in{seed}").as_bytes(), &mut r), "blind")?;
        let mut v = vec![];
        if m == Md::Oprf {
            let (e, _) = er(a.blind_evaluate(&s, &mut r, &b, None), "eval")?;
            v.push(e);
        } else {
            let (mut p, t) = er(a.prepare(&s, &[&b], info, Coll::Vec), "prepare")?;
            let mut f = er(a.finish(&s, &mut r, &[&b], &refs(&p), t.as_ref(), Coll::Vec), "finish")?;
            v.push(f.msgs.remove(0));
            v.push(f.proof);
            v.push(p.remove(0));
            v.extend(t);
        }
        v.extend([s, c, b]);
        Ok(v)
    };
    let i = ctx.choose("left", ctx.tiered(4, 12)) as u64;
    let j = ctx.choose("right", ctx.tiered(4, 12)) as u64;
    if i == j {
        return Ok(());
    }
    for (x, y) in run(100 + i)?.iter().zip(run(100 + j)?.iter()) {
        let ((b0, a0), (b1, a1)) = (a.wipe_image(x), a.wipe_image(y));
        chk!(b0 != b1, "harness: equal images of different {} values", x.kind.name());
        chk!(a0 == a1, "{} {} {}: dropped memory depends on the value", a.name(), m.name(), x.kind.name());
        ctx.op(2);
    }
    ctx.state(&(a.name(), m, i, j));
    ctx.outcome(m.name());
    Ok(())
}

// ---------------------------------------------------------------- C23

fn all_values(a: A, k: Kind) -> Result<Vec<(Vec<B>, Obj)>, Viol> {
    let s = a.spec();
    let es: Vec<B> = (1..q(a)).map(|v| toy::enc_e(v, s.ne())).collect();
    let ss: Vec<B> = (1..q(a)).map(|v| sc(a, v)).collect();
    let l = k.layout();
    let mut o = vec![];
    for i in 0..es.len() {
        for j in 0..if l.len() > 1 { es.len() } else { 1 } {
            let p = parts(a, k, i, j, &es, &ss);
            let x = build(a, k, &p)?;
            o.push((p, x));
        }
    }
    Ok(o)
}

/// every pair (and every third value) of every kind in the small groups
pub fn values_toy(ctx: &mut Ctx) -> Res {
    use std::cmp::Ordering::*;
    let a = *ctx.pick("group", &TOYS[..ctx.tiered(4, 5)]);
    let k = *ctx.pick("kind", &ALL_KINDS);
    let vs = all_values(a, k)?;
    let i = ctx.choose("x", vs.len());
    let (pi, x) = &vs[i];
    for (j, (pj, y)) in vs.iter().enumerate() {
        let what = || format!("{} {} {:?} vs {:?}", a.name(), k.name(), pi.iter().map(|b| hexs(b)).collect::<Vec<_>>(), pj.iter().map(|b| hexs(b)).collect::<Vec<_>>());
        let e = a.same(x, y);
        chk!(e == (pi == pj), "{}: == is {e}", what());
        chk!(a.same(y, x) == e, "{}: == is not symmetric", what());
        let (o, r) = (a.cmp(x, y).unwrap(), a.cmp(y, x).unwrap());
        chk!((o == Equal) == e, "{}: cmp is {o:?} but == is {e}", what());
        chk!(o == r.reverse(), "{}: cmp is not antisymmetric", what());
        let (h, g) = (a.hash64(x), a.hash64(y));
        chk!((h == g) == e, "{}: hashes {} although == is {e}", what(), if h == g { "agree" } else { "differ" });
        for (l, (_, z)) in vs.iter().enumerate() {
            if o == Less && a.cmp(y, z) == Some(Less) {
                chk!(a.cmp(x, z) == Some(Less), "{}: cmp is not transitive with value {l}", what());
            }
        }
        let _ = j;
        ctx.op(4);
        ctx.state(&(a.name(), k, i, j));
    }
    // clones
    let c = a.dup(x);
    chk!(a.same(&c, x) && a.cmp(&c, x) == Some(Equal) && a.hash64(&c) == a.hash64(x), "clone differs");
    let orig = build(a, k, pi)?;
    let c2 = a.dup(&orig);
    let dbg = a.debug(&c2);
    drop(orig);
    chk!(a.same(&c2, x), "clone changed when its original was dropped");
    chk!(a.debug(&c2) == dbg, "clone's Debug changed when its original was dropped");
    ctx.outcome(k.name());
    Ok(())
}

/// shipped suites: equality over boundary values, produced in different ways
pub fn values_real(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &FAST);
    let k = *ctx.pick("kind", &ALL_KINDS);
    let n = ctx.tiered(5, 8);
    let (es, ss) = (elems(a, n), scalars(a, 8));
    let l2 = k.layout().len() > 1;
    let m = if l2 { n } else { 1 };
    let i = ctx.choose("x", n * m);
    let pi = parts(a, k, i / m, i % m, &es, &ss);
    let x = build(a, k, &pi)?;
    for j in 0..n * m {
        let pj = parts(a, k, j / m, j % m, &es, &ss);
        let y = build(a, k, &pj)?;
        let y = reform(ctx, a, y, FORMS[(i + j) % 7])?;
        let e = a.same(&x, &y);
        chk!(e == (pi == pj) && a.same(&y, &x) == e, "{} {}: == is {e} for contents {} and {}", a.name(), k.name(), hexs(&pi.concat()), hexs(&pj.concat()));
        ctx.op(2);
        ctx.state(&(a.name(), k, i, j));
    }
    // equal values reached through different computations (projective representations differ)
    if k == Kind::Eval || k == Kind::Blinded {
        let s = a.spec();
        let e1 = s.mul(&s.mul(&s.base(), &rs(a, 70)), &rs(a, 71));
        let y = if k == Kind::Eval { a.raw_eval(&e1) } else { a.raw_blinded(&e1) };
        let z = build(a, k, &[s.mul(&s.mul(&s.base(), &rs(a, 71)), &rs(a, 70))])?;
        chk!(a.same(&y, &z), "{} {}: the same element computed differently is not equal", a.name(), k.name());
    }
    // a clone outlives its original
    let c = a.dup(&x);
    let d = a.debug(&c);
    drop(x);
    let z = build(a, k, &pi)?;
    chk!(a.same(&c, &z) && a.debug(&c) == d, "{} {}: clone changed when its original was dropped", a.name(), k.name());
    ctx.outcome(k.name());
    Ok(())
}

/// shipped suites: values whose encodings are as close as valid encodings can be
pub fn values_near(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &FAST);
    let k = *ctx.pick("kind", &ALL_KINDS);
    let comp = ctx.choose("component", k.layout().len());
    let s = a.spec();
    let elem = k.layout()[comp];
    let p: Vec<B> = k.layout().iter().enumerate().map(|(i, e)| if *e { s.mul(&s.base(), &rs(a, 90 + i as u64)) } else { rs(a, 80 + i as u64) }).collect();
    let x = build(a, k, &p)?;
    let byte = ctx.choose("byte", p[comp].len());
    let masks: Vec<u8> = ctx.tiered((0..8).map(|i| 1u8 << i).collect(), (1..=255).collect());
    let mut near: Vec<B> = masks.iter().map(|m| { let mut c = p[comp].clone(); c[byte] ^= m; c }).filter(|c| if elem { s.elem_ok(c) } else { s.scalar_ok(c) }).collect();
    if byte == 0 {
        // the negative, the double, the inverse
        let two = s.scalar(2);
        near.extend(if elem {
            vec![s.mul(&p[comp], &s.ssub(&s.zero(), &s.one())), s.mul(&p[comp], &two)]
        } else {
            vec![s.ssub(&s.zero(), &p[comp]), s.sinv(&p[comp]), s.smul(&two, &p[comp])]
        });
    }
    for c in &near {
        let mut pc = p.clone();
        pc[comp] = c.clone();
        let y = build(a, k, &pc)?;
        let e = a.same(&x, &y) || a.same(&y, &x);
        chk!(!e, "{} {}: == holds for {} and {}", a.name(), k.name(), hexs(&p.concat()), hexs(&pc.concat()));
        let z = build(a, k, &pc)?;
        chk!(a.same(&z, &y) && a.same(&y, &z), "{} {}: == fails for two decodings of {}", a.name(), k.name(), hexs(&pc.concat()));
        ctx.op(3);
        ctx.state(&(a.name(), k, comp, c));
    }
    ctx.outcome(k.name());
    Ok(())
}

/// shipped suites: every pair of boundary scalars or of their multiples of the generator
pub fn values_bits(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &REAL);
    let k = *ctx.pick("kind", &ALL_KINDS);
    let comp = ctx.choose("component", k.layout().len());
    let s = a.spec();
    let mut v = crate::k_core::bit_scalars(a, ctx.tiered(64, 8));
    if k.layout()[comp] {
        v = v.iter().map(|x| s.mul(&s.base(), x)).collect();
    }
    let rest: Vec<B> = k.layout().iter().enumerate().map(|(i, e)| if *e { re(a, 90 + i as u64) } else { rs(a, 80 + i as u64) }).collect();
    let mk = |x: &B| -> Result<Obj, Viol> {
        let mut p = rest.clone();
        p[comp] = x.clone();
        build(a, k, &p)
    };
    let objs: Vec<Obj> = v.iter().map(mk).collect::<Result<_, _>>()?;
    let blk = 24;
    let hi = ctx.choose("x", v.len().div_ceil(blk));
    for i in hi * blk..((hi + 1) * blk).min(v.len()) {
        let x = mk(&v[i])?;
        for (j, y) in objs.iter().enumerate() {
            let (e, f) = (a.same(&x, y), a.same(y, &x));
            chk!(e == (i == j) && e == f, "{} {}: == gives {e} and {f} for {} and {}", a.name(), k.name(), hexs(&v[i]), hexs(&v[j]));
            if let Some(o) = a.cmp(&x, y) {
                chk!((o == std::cmp::Ordering::Equal) == e && a.cmp(y, &x) == Some(o.reverse()), "{} {}: ordering {o:?} of {} and {}", a.name(), k.name(), hexs(&v[i]), hexs(&v[j]));
            }
            if e {
                chk!(a.hash64(&x) == a.hash64(y), "{} {}: equal values hash differently", a.name(), k.name());
            }
            ctx.op(2);
        }
        ctx.state(&(a.name(), k, comp, &v[i]));
    }
    ctx.outcome(k.name());
    Ok(())
}
