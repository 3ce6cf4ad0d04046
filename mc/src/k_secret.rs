//! Hiding and randomness: C12 (blinded messages), C13 (blinds, nonces, random keys).
use std::collections::{BTreeMap, HashMap, HashSet};

use crate::api::*;
use crate::engine::*;
use crate::h::*;
use crate::spec::*;
use crate::suites::*;
use crate::toy::ScriptRng;
use crate::{chk, eq, fail};

fn word(v: u64) -> B {
    v.to_be_bytes().to_vec()
}
/// blinding factor held by a client (its state starts with it)
fn blind_of(a: A, c: &Obj) -> B {
    a.ser(c)[..a.spec().ns()].to_vec()
}
fn nonce_of(a: A, m: Md, sk: &[u8], info: Option<&[u8]>, proof: &[u8]) -> Result<B, Viol> {
    let s = a.spec();
    let (c, z) = proof.split_at(s.ns());
    let k = if m == Md::Poprf { er(s.tweak(sk, info.unwrap_or(b"")), "reference tweak")? } else { sk.to_vec() };
    Ok(s.sadd(z, &s.smul(c, &k)))
}

/// small groups: blinding factor -> message is a bijection onto the non-identity elements
pub fn hide_toy(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("group", &TOYS);
    let m = *ctx.pick("mode", &MODES);
    let h = 1 + ctx.choose("hash-to-group", q(a) as usize - 1) as u64;
    let inputs: [B; 4] = [b"x".to_vec(), vec![], vec![0; 64], fill(300, 1)];
    let input = ctx.pick("input", &inputs).clone();
    pin_h2g(a, m, &input, h);
    let s = a.spec();
    let mut hit: HashMap<B, u64> = HashMap::new();
    for b in 1..q(a) {
        let mut rng = ScriptRng::script(word(b));
        let (c, bl) = er(a.blind(m, &input, &mut rng), "blind")?;
        ctx.op(1);
        let v = a.ser(&bl);
        chk!(v.len() == s.ne(), "message of {} bytes", v.len());
        chk!(v != s.identity(), "{} {}: blinded message is the identity (blind {b}, hash {h})", a.name(), m.name());
        if let Some(o) = hit.insert(v.clone(), b) {
            fail!("{} {}: blinds {o} and {b} give the same message {} for hash value {h}", a.name(), m.name(), hexs(&v));
        }
        eq!(blind_of(a, &c), sc(a, b), "blinding factor kept by the client");
        // the very same factor for another input gives the message of that input
        if m != Md::Oprf {
            eq!(a.ser(&c)[s.ns()..].to_vec(), v, "blinded element kept by the client");
        }
        ctx.state(&(a.name(), m, h, b, v));
    }
    chk!(hit.len() as u64 == q(a) - 1, "only {} messages reachable", hit.len());
    ctx.note(|| format!("{} {} h={h} {} blinds -> {} messages", a.name(), m.name(), q(a) - 1, hit.len()));
    ctx.outcome("bijective");
    Ok(())
}

/// the distribution of the message over all blinds is the same for every hash value
pub fn hide_dist(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("group", &TOYS);
    let m = *ctx.pick("mode", &MODES);
    let alloc_drop = ctx.flag("two-draws");
    let mut dists: HashSet<BTreeMap<B, u32>> = HashSet::new();
    for h in 1..q(a) {
        let input = format!("in{h}").into_bytes();
        pin_h2g(a, m, &input, h);
        let mut d: BTreeMap<B, u32> = BTreeMap::new();
        for b in 1..q(a) {
            if alloc_drop {
                // two sessions from one stream: joint distribution
                for b2 in 1..q(a) {
                    let mut rng = ScriptRng::script([word(b), word(b2)].concat());
                    let (_, x) = er(a.blind(m, &input, &mut rng), "blind")?;
                    let (_, y) = er(a.blind(m, &input, &mut rng), "blind")?;
                    ctx.op(2);
                    *d.entry([a.ser(&x), a.ser(&y)].concat()).or_default() += 1;
                }
            } else {
                let (_, x) = er(a.blind(m, &input, &mut ScriptRng::script(word(b))), "blind")?;
                ctx.op(1);
                *d.entry(a.ser(&x)).or_default() += 1;
            }
        }
        ctx.state(&(a.name(), m, &d));
        dists.insert(d);
    }
    chk!(dists.len() == 1, "{} {}: message distribution depends on the input ({} distinct)", a.name(), m.name(), dists.len());
    let d = dists.into_iter().next().unwrap();
    chk!(d.values().all(|c| *c == 1), "message distribution is not uniform: {:?}", d.values().collect::<Vec<_>>());
    ctx.outcome("same uniform distribution");
    Ok(())
}

/// message = H(input) * blind, blind and RNG use independent of the input; every length
pub fn hide_inputs(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &[T61, REAL[0], REAL[1], TW, REAL[2], REAL[3]]);
    let m = *ctx.pick("mode", &MODES);
    let toy = a.toy_q().is_some();
    let max = if toy { ctx.tiered(4096, 65536) } else { ctx.tiered(160, 1024) };
    let blk = if toy { 64 } else { 16 };
    let hi = ctx.choose("len-block", max / blk);
    let pat = ctx.choose("content", 3);
    let s = a.spec();
    let mut r0 = ScriptRng::stream(900);
    let want = a.g_random_scalar(&mut r0);
    for l in hi * blk..(hi + 1) * blk {
        let input = match pat {
            0 => vec![0u8; l],
            1 => fill(l, 3),
            _ => vec![0xFF; l],
        };
        let mut rng = ScriptRng::stream(900);
        let (c, bl) = er(a.blind(m, &input, &mut rng), "blind")?;
        ctx.op(1);
        eq!(hexs(&blind_of(a, &c)), hexs(&want), "{} {} input[{l}]: blinding factor from the same RNG output", a.name(), m.name());
        chk!(rng.used() == r0.used(), "{} {} input[{l}]: {} bytes of randomness used instead of {}", a.name(), m.name(), rng.used(), r0.used());
        let v = a.ser(&bl);
        eq!(hexs(&v), hexs(&s.mul(&s.h2g(&input, m), &want)), "{} {} input[{l}]: message", a.name(), m.name());
        chk!(v.len() == s.ne(), "message of {} bytes", v.len());
        ctx.state(&v);
    }
    ctx.note(|| format!("{} {} lengths {}.. content {pat}", a.name(), m.name(), hi * blk));
    ctx.outcome("independent");
    Ok(())
}

/// different randomness, different messages: all pairs of runs
pub fn hide_streams(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &FAST);
    let m = *ctx.pick("mode", &MODES);
    let inputs: [B; 3] = [b"pw".to_vec(), vec![], fill(100, 5)];
    let input = ctx.pick("input", &inputs).clone();
    let n = if a.toy_q().is_some() { ctx.tiered(512, 4096) } else { ctx.tiered(32, 256) };
    let mut seen: HashMap<B, String> = HashMap::new();
    let mut put = |v: B, w: String| -> Res {
        chk!(v != a.spec().identity(), "identity sent");
        if let Some(o) = seen.insert(v.clone(), w.clone()) {
            fail!("{} {}: {o} and {w} send the same message {}", a.name(), m.name(), hexs(&v));
        }
        Ok(())
    };
    for i in 0..n {
        let (_, bl) = er(a.blind(m, &input, &mut ScriptRng::stream(i as u64)), "blind")?;
        put(a.ser(&bl), format!("stream {i}"))?;
    }
    // and one continued stream
    let mut rng = ScriptRng::stream(1 << 40);
    for i in 0..n {
        let (_, bl) = er(a.blind(m, &input, &mut rng), "blind")?;
        put(a.ser(&bl), format!("draw {i}"))?;
    }
    // factors that are algebraically related
    let s = a.spec();
    for i in 0..n.min(32) as u64 {
        let r = rs(a, 7000 + i);
        let rel = [s.ssub(&sc(a, 0), &r), s.sinv(&r), s.sadd(&r, &r), s.ssub(&sc(a, 0), &s.sinv(&r)), s.sadd(&r, &sc(a, 1)), r];
        for (j, r) in rel.iter().enumerate() {
            let (_, bl) = er(a.blind_det(m, &input, r), "blind")?;
            put(a.ser(&bl), format!("related factor {i}.{j}"))?;
        }
    }
    for i in 1..=n.min(64) as u64 {
        for r in [sc(a, i), s.ssub(&sc(a, 0), &sc(a, i))] {
            let (_, bl) = er(a.blind_det(m, &input, &r), "blind")?;
            put(a.ser(&bl), format!("factor {}", hexs(&r)))?;
        }
    }
    ctx.op(2 * n as u64);
    ctx.state(&(a.name(), m, &input));
    ctx.outcome("pairwise distinct");
    Ok(())
}

// ------------------------------------------------------------------------------------- C13

/// small groups: every nonce, after rejected draws, is used exactly
pub fn nonce_toy(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("group", &TOYS);
    let m = *ctx.pick("mode", &VER);
    let sk = 1 + ctx.choose("key", q(a) as usize - 1) as u64;
    let rej: [&[u64]; 5] = [&[], &[0], &[q(a)], &[0, 0, q(a) + 1], &[u32::MAX as u64, 0]];
    let rej = *ctx.pick("rejected", &rej);
    let n = ctx.choose("batch", 4);
    let api = ctx.choose("api", 3);
    if api == 2 && n != 1 {
        return Ok(());
    }
    let info = (m == Md::Poprf).then_some(b"nn".as_slice());
    let skb = sc(a, sk);
    if m == Md::Poprf && a.spec().tweak(&skb, b"nn").is_err() {
        return Ok(());
    }
    let server = er(a.server_with_key(m, &skb), "server")?;
    let mut bls = vec![];
    for i in 0..n {
        let inp = format!("i{i}").into_bytes();
        pin_h2g(a, m, &inp, 1 + i as u64 % (q(a) - 1));
        bls.push(er(a.blind(m, &inp, &mut ScriptRng::script(word(1 + i as u64 % 2))), "blind")?.1);
    }
    let pre: B = rej.iter().flat_map(|v| v.to_be_bytes()).collect();
    let mut outs: HashSet<B> = HashSet::new();
    for r in 1..q(a) {
        let script = [pre.clone(), word(r)].concat();
        let want = script.len();
        let mut rng = ScriptRng::script(script);
        let pf = match api {
            2 => er(a.blind_evaluate(&server, &mut rng, &bls[0], info), "blind_evaluate")?.1.unwrap(),
            _ => er(eval_batch(ctx, a, &server, &bls, info, api == 0, Coll::Vec, &mut rng), "batch")?.proof,
        };
        ctx.op(1);
        let p = a.ser(&pf);
        let got = nonce_of(a, m, &skb, info, &p)?;
        eq!(got, sc(a, r), "{} {} proof nonce with RNG word {r} after {rej:?} (batch {n})", a.name(), m.name());
        chk!(rng.used() == want, "{} of {want} bytes of randomness used", rng.used());
        outs.insert(got);
        ctx.state(&(a.name(), m, sk, n, p));
    }
    chk!(outs.len() as u64 == q(a) - 1, "nonces do not cover all nonzero scalars");
    ctx.outcome("all nonces");
    Ok(())
}

/// small groups: every blind, after rejected draws
pub fn blind_toy(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("group", &TOYS);
    let m = *ctx.pick("mode", &MODES);
    let rej: [&[u64]; 5] = [&[], &[0], &[q(a)], &[0, 0, q(a) + 1], &[u32::MAX as u64, 0]];
    let rej = *ctx.pick("rejected", &rej);
    let h = 1 + ctx.choose("hash-to-group", q(a) as usize - 1) as u64;
    let r = 1 + ctx.choose("blind", q(a) as usize - 1) as u64;
    let r2 = 1 + ctx.choose("second", q(a) as usize - 1) as u64;
    let pre: B = rej.iter().flat_map(|v| v.to_be_bytes()).collect();
    pin_h2g(a, m, b"b", h);
    let mut rng = ScriptRng::script([pre.clone(), word(r), pre, word(r2)].concat());
    for x in [r, r2] {
        let (c, bl) = er(a.blind(m, b"b", &mut rng), "blind")?;
        ctx.op(1);
        eq!(blind_of(a, &c), sc(a, x), "{} {} blinding factor for RNG word {x}", a.name(), m.name());
        eq!(a.ser(&bl), er(a.spec().blind(b"b", &sc(a, x), m), "reference")?, "message");
        ctx.state(&(a.name(), m, h, r, r2, a.ser(&bl)));
    }
    chk!(rng.used() == rng.data.len(), "{} of {} bytes of randomness used", rng.used(), rng.data.len());
    ctx.outcome("exact");
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Draw {
    Blind(Md),
    Prove(Md),
    Batch(Md, usize, bool),
    New(Md),
}

/// Performs a drawing operation; returns the random values it used and its bytes.
fn draw(ctx: &mut Ctx, a: A, d: Draw, sk: &[u8], rng: &mut ScriptRng, salt: usize) -> Result<(Vec<B>, B), Viol> {
    ctx.op(1);
    let bl_rng = &mut ScriptRng::stream(4000);
    let info = |m: Md| (m == Md::Poprf).then_some(b"draw".as_slice());
    Ok(match d {
        Draw::Blind(m) => {
            let (c, b) = er(a.blind(m, format!("in{salt}").as_bytes(), rng), "blind")?;
            let v = blind_of(a, &c);
            eq!(a.ser(&b), a.spec().mul(&a.spec().h2g(format!("in{salt}").as_bytes(), m), &v), "message");
            (vec![v], a.ser(&b))
        }
        Draw::Prove(m) => {
            let server = er(a.server_with_key(m, sk), "server")?;
            let (_, b) = er(a.blind(m, b"p", bl_rng), "blind")?;
            let (_, p) = er(a.blind_evaluate(&server, rng, &b, info(m)), "evaluate")?;
            let p = a.ser(&p.unwrap());
            (vec![nonce_of(a, m, sk, info(m), &p)?], p)
        }
        Draw::Batch(m, n, alloc) => {
            let server = er(a.server_with_key(m, sk), "server")?;
            let ins = batch_inputs(n, salt % 3);
            let (_, bls) = blind_all(ctx, a, m, &ins, bl_rng)?;
            let b = er(eval_batch(ctx, a, &server, &bls, info(m), alloc, Coll::Vec, rng), "batch")?;
            let p = a.ser(&b.proof);
            (vec![nonce_of(a, m, sk, info(m), &p)?], p)
        }
        Draw::New(m) => {
            let o = er(a.server_new(m, rng), "new")?;
            let b = a.ser(&o);
            (vec![b[..a.spec().ns()].to_vec()], b)
        }
    })
}

const DRAWS: [Draw; 12] = [
    Draw::Blind(Md::Oprf), Draw::Prove(Md::Voprf), Draw::New(Md::Oprf), Draw::Blind(Md::Voprf), Draw::Prove(Md::Poprf),
    Draw::Batch(Md::Voprf, 2, true), Draw::Batch(Md::Poprf, 3, false), Draw::New(Md::Poprf), Draw::Blind(Md::Poprf),
    Draw::New(Md::Voprf), Draw::Batch(Md::Voprf, 0, false), Draw::Batch(Md::Poprf, 2, true),
];

/// sequences of drawing operations on one RNG: every value is the next one of the stream
pub fn draw_seq(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &FAST);
    let toy = a.toy_q().is_some();
    let depth = if toy { ctx.tiered(3, 4) } else { ctx.tiered(2, 3) };
    let seq: Vec<Draw> = (0..depth).map(|_| *ctx.pick("operation", &DRAWS)).collect();
    let sk = rs(a, 31);
    let mut runs = vec![];
    for _ in 0..2 {
        let mut rng = ScriptRng::stream(1234);
        let mut refr = ScriptRng::stream(1234);
        let mut all: Vec<B> = vec![];
        let mut bytes = vec![];
        for (i, d) in seq.iter().enumerate() {
            let (vs, b) = draw(ctx, a, *d, &sk, &mut rng, i)?;
            let want = match d {
                Draw::New(m) => {
                    let seed: B = {
                        use rand_core::RngCore;
                        let mut x = vec![0; a.spec().ns()];
                        refr.fill_bytes(&mut x);
                        x
                    };
                    er(a.spec().derive(&seed, &[], *m), "derive")?.0
                }
                _ => a.g_random_scalar(&mut refr),
            };
            eq!(hexs(&vs[0]), hexs(&want), "{}: value drawn by operation {i} of {seq:?}", a.name());
            chk!(rng.used() == refr.used(), "{}: operation {i} of {seq:?} leaves the RNG after {} bytes instead of {}", a.name(), rng.used(), refr.used());
            chk!(vs[0] != a.spec().zero(), "zero drawn");
            all.extend(vs);
            bytes.push(b);
        }
        let n = all.iter().collect::<HashSet<_>>().len();
        chk!(n == all.len(), "{}: a random value is reused in {seq:?}", a.name());
        runs.push(bytes);
    }
    chk!(runs[0] == runs[1], "{}: same RNG output, different results in {seq:?}", a.name());
    ctx.state(&(a.name(), &runs[0]));
    ctx.note(|| format!("{} {seq:?}", a.name()));
    ctx.outcome("fresh");
    Ok(())
}

/// nonce for every batch size and API: only the RNG decides it
pub fn nonce_sizes(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &[T61, REAL[0], REAL[1]]);
    let m = *ctx.pick("mode", &VER);
    let max = if a.toy_q().is_some() { ctx.tiered(300, 1100) } else { ctx.tiered(6, 20) };
    let edges = if a.toy_q().is_some() { size_edges(a) } else { vec![] };
    let i = ctx.choose("size", max + edges.len());
    let n = if i < max { i } else { edges[i - max] };
    let alloc = ctx.flag("alloc");
    let key = ctx.choose("key", 2);
    let pat = if n > 1100 { 0 } else { ctx.choose("inputs", 2) };
    let sk = rs(a, 40 + key as u64);
    let stream = 77;
    let info: Option<&[u8]> = if m == Md::Poprf { [None, Some(b"abc".as_slice())][key] } else { None };
    let want = a.g_random_scalar(&mut ScriptRng::stream(stream));
    let server = er(a.server_with_key(m, &sk), "server")?;
    let (_, bls) = blind_all(ctx, a, m, &batch_inputs(n, pat), &mut ScriptRng::stream(78))?;
    let b = er(eval_batch(ctx, a, &server, &bls, info, alloc, Coll::Vec, &mut ScriptRng::stream(stream)), "batch")?;
    let p = a.ser(&b.proof);
    eq!(hexs(&nonce_of(a, m, &sk, info, &p)?), hexs(&want), "{} {} nonce of a batch of {n}", a.name(), m.name());
    ctx.state(&(a.name(), m, n, p));
    ctx.outcome("nonce");
    Ok(())
}

/// every byte of randomness matters
pub fn every_byte(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &FAST);
    let d = *ctx.pick("operation", &DRAWS);
    let sk = rs(a, 50);
    let seed = ctx.choose("stream", ctx.tiered(2, 8)) as u64;
    // an RNG output whose first candidate is accepted in every suite
    let mut data = fill(256, 60 + seed);
    data[0] = 0;
    if let Draw::New(_) = d {
        data[0] = 0x55;
    }
    let mut r = ScriptRng::with_tail(data.clone(), 5);
    let (base, _) = draw(ctx, a, d, &sk, &mut r, 0)?;
    let used = r.used();
    let min = if a.toy_q().is_some() { 8 } else { a.spec().ns() };
    chk!(used >= min && used <= 128, "{} {d:?} draws {used} bytes", a.name());
    let mut seen: HashMap<B, (usize, u8)> = HashMap::new();
    seen.insert(base[0].clone(), (0, 0));
    for i in 0..used {
        let masks: &[u8] = if ctx.thorough() { &[1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0xFF] } else { &[1, 0xFF] };
        for x in masks {
            // coincidences between changed streams are fine where candidates are redrawn (the P-521
            // order leaves 7 bits of the first byte unused) or folded (toy suites)
            let mut t = data.clone();
            t[i] ^= x;
            let (v, _) = draw(ctx, a, d, &sk, &mut ScriptRng::with_tail(t, 5), 0)?;
            let redrawn = i == 0 && !matches!(d, Draw::New(_));
            if let Some((j, y)) = seen.insert(v[0].clone(), (i, *x)) {
                chk!(y != 0 && (a.toy_q().is_some() || redrawn && j == 0), "{} {d:?}: byte {i} ^ {x:#x} gives the value of byte {j} ^ {y:#x}", a.name());
            }
        }
    }
    ctx.state(&(a.name(), format!("{d:?}"), &base, used));
    ctx.note(|| format!("{} {d:?} {used} bytes, {} distinct values", a.name(), seen.len()));
    ctx.outcome(&format!("{} bytes", used));
    Ok(())
}

/// boundary RNG outputs: no bias by reduction, never zero, every byte of the value varies
pub fn scalar_shape(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &REAL);
    let s = a.spec();
    let op = ctx.choose("use", 3);
    let m = *ctx.pick("mode", &VER);
    let sk = rs(a, 51);
    let go = |data: &[u8], tail: u64, ctx: &mut Ctx| -> Result<(B, usize), Viol> {
        let mut r = ScriptRng::with_tail(data.to_vec(), tail);
        let v = match op {
            0 => a.g_random_scalar(&mut r),
            1 => draw(ctx, a, Draw::Blind(m), &sk, &mut r, 0)?.0.remove(0),
            _ => draw(ctx, a, Draw::Prove(m), &sk, &mut r, 0)?.0.remove(0),
        };
        Ok((v, r.used()))
    };
    // every byte of the value varies over the streams
    let mut or = vec![0u8; s.ns()];
    let mut and = vec![0xFFu8; s.ns()];
    let mut all = HashSet::new();
    let n = ctx.tiered(48, 200);
    for i in 0..n {
        let (v, _) = go(&[], 9000 + i, ctx)?;
        chk!(s.scalar_ok(&v), "{}: drawn value {} is not a nonzero scalar", a.name(), hexs(&v));
        for j in 0..v.len() {
            or[j] |= v[j];
            and[j] &= v[j];
        }
        all.insert(v);
    }
    chk!(all.len() as u64 == n, "{}: streams share a value", a.name());
    let order = s.order();
    // bits above the order stay zero, all others take both values
    let bits = |be: &[u8]| -> usize { be.iter().enumerate().find(|(_, x)| **x != 0).map(|(i, x)| (be.len() - i) * 8 - x.leading_zeros() as usize).unwrap_or(0) };
    let top = bits(&order);
    let be = |v: &[u8]| -> B {
        let mut v = v.to_vec();
        if s.scalar_le() {
            v.reverse();
        }
        v
    };
    let (or, and) = (be(&or), be(&and));
    for b in 0..top - 1 {
        let (i, k) = (or.len() - 1 - b / 8, b % 8);
        chk!(or[i] >> k & 1 == 1, "{}: bit {b} of the drawn values is never set", a.name());
        chk!(and[i] >> k & 1 == 0, "{}: bit {b} of the drawn values is always set", a.name());
    }
    // a short draw must reject what is out of range instead of reducing it
    for v in [0u64, 1, 2, 3, 5, 1 << 20] {
        for le in [false, true] {
            let mk = |add: bool| -> B {
                // v, or v + order, as an integer of Ns bytes
                let mut x = vec![0u8; s.ns()];
                let o = if add { order.clone() } else { vec![0; s.ns()] };
                let mut c = 0u64;
                for i in (0..s.ns()).rev() {
                    let sh = (s.ns() - 1 - i) * 8;
                    let vb = if sh < 64 { v >> sh & 255 } else { 0 };
                    let t = o[i] as u64 + vb + c;
                    x[i] = t as u8;
                    c = t >> 8;
                }
                if le {
                    x.reverse();
                }
                x
            };
            let (x, ux) = go(&mk(false), 7, ctx)?;
            let (y, uy) = go(&mk(true), 7, ctx)?;
            chk!(x != s.zero() && y != s.zero(), "{}: zero drawn", a.name());
            let wide = ux >= s.ns() + 16;
            if !wide && ux == uy {
                chk!(x != y, "{}: RNG outputs {v} and order + {v} give the same value from {ux} bytes", a.name());
            }
        }
    }
    // a candidate that is zero modulo the order is drawn again, it doesn't become a fixed value
    let width = go(&[], 9000, ctx)?.1;
    for k in 0..4u16 {
        let mut x = vec![0u8; width];
        let mut c = 0u16;
        for i in 0..width.min(s.ns()) {
            let t = order[order.len() - 1 - i] as u16 * k + c;
            x[width - 1 - i] = t as u8;
            c = t >> 8;
        }
        if c != 0 && width > s.ns() {
            x[width - 1 - s.ns()] = c as u8;
        } else if c != 0 {
            continue;
        }
        if s.scalar_le() {
            x.reverse();
        }
        let mut got = HashSet::new();
        for tail in 0..4 {
            got.insert(go(&x, 70 + tail, ctx)?.0);
        }
        chk!(got.len() == 4, "{}: RNG output {k} * order isn't drawn again: {:?}", a.name(), got.iter().map(|v| hexs(v)).collect::<Vec<_>>());
    }
    ctx.state(&(a.name(), op, m));
    ctx.outcome("unbiased");
    Ok(())
}


// ------------------------------------------------------------------------------------- C12 again

/// every drawn factor at the boundaries of the scalar field is used exactly, whatever the input
pub fn hide_scalars(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &[&FAST[..], &MIX].concat());
    let m = *ctx.pick("mode", &MODES);
    let s = a.spec();
    let v = if a.toy_q().is_some() {
        (1..400).map(|i| sc(a, i)).chain((3..32).flat_map(|i| [sc(a, (1 << i) - 1), sc(a, 1 << i), sc(a, (1 << i) + 1)])).collect()
    } else {
        crate::k_core::bit_scalars(a, ctx.tiered(if s.ns() > 40 { 32 } else { 8 }, 1))
    };
    let b = ctx.pick("factor", &v).clone();
    let rng = crate::k_keys::rng_for(a, &b);
    let mut used = None;
    for (i, input) in [b"pw".to_vec(), vec![], vec![0; 64], fill(100, 5)].iter().enumerate() {
        let mut r = rng.clone();
        let (c, bl) = er(a.blind(m, input, &mut r), "blind")?;
        ctx.op(1);
        let x = blind_of(a, &c);
        if i == 0 && x != b {
            ctx.outcome("not drawn plainly");
            return Ok(());
        }
        chk!(x == b, "{} {} input {}: the RNG gave {}, the client uses {}", a.name(), m.name(), hexs(input), hexs(&b), hexs(&x));
        chk!(*used.get_or_insert(r.used()) == r.used(), "{} {} input {}: RNG use depends on the input", a.name(), m.name(), hexs(input));
        let want = s.mul(&s.h2g(input, m), &b);
        chk!(a.ser(&bl) == want, "{} {} input {} factor {}: message {} is not factor * H(input)", a.name(), m.name(), hexs(input), hexs(&b), hexs(&a.ser(&bl)));
        ctx.state(&(a.name(), m, a.ser(&bl)));
    }
    ctx.outcome(m.name());
    Ok(())
}

/// inputs of every shape: same factor, same RNG use, nothing but factor * H(input) is sent
pub fn hide_contents(ctx: &mut Ctx) -> Res {
    let a = *ctx.pick("suite", &[&FAST[..], &MIX].concat());
    let m = *ctx.pick("mode", &MODES);
    let s = a.spec();
    let v = crate::k_core::contents();
    let input = ctx.pick("input", &v).clone();
    let mut r0 = ScriptRng::stream(901);
    let want = a.g_random_scalar(&mut r0);
    let mut rng = ScriptRng::stream(901);
    let (c, bl) = er(a.blind(m, &input, &mut rng), "blind")?;
    ctx.op(1);
    let x = blind_of(a, &c);
    chk!(x == want, "{} {} input {}: factor {} instead of the drawn {}", a.name(), m.name(), hexs(&input), hexs(&x), hexs(&want));
    chk!(rng.used() == r0.used(), "{} {} input {}: {} bytes of randomness instead of {}", a.name(), m.name(), hexs(&input), rng.used(), r0.used());
    let e = s.mul(&s.h2g(&input, m), &want);
    chk!(a.ser(&bl) == e, "{} {} input {}: message {} is not factor * H(input)", a.name(), m.name(), hexs(&input), hexs(&a.ser(&bl)));
    // what the server sees, in every form, is that element
    let plain = a.raw_blinded(&e);
    for f in FMTS {
        chk!(a.serde_ser(&bl, f).map_err(Viol)? == a.serde_ser(&plain, f).map_err(Viol)?, "{} {} input {}: the {f:?} form of the message holds more than the element", a.name(), m.name(), hexs(&input));
    }
    ctx.state(&(a.name(), m, e));
    ctx.outcome(m.name());
    Ok(())
}
