//! Helpers shared by the kernels.
use crate::api::*;
use crate::engine::*;
use crate::spec::*;
use crate::suites::*;
use crate::toy::{self, ScriptRng, QK};
use crate::{chk, eq, fail};

pub fn sc(a: A, v: u64) -> B {
    a.spec().scalar(v)
}
pub fn neg1(a: A) -> B {
    a.spec().ssub(&a.spec().zero(), &a.spec().one())
}
/// pseudo-random nonzero scalar number i
pub fn rs(a: A, i: u64) -> B {
    let s = a.spec().h2s_dst(&i.to_be_bytes(), b"vmc-harness-scalar");
    assert!(s != a.spec().zero());
    s
}
/// pseudo-random non-identity element number i
pub fn re(a: A, i: u64) -> B {
    let e = a.spec().mul(&a.spec().base(), &rs(a, i ^ 0xE1E1_0000));
    assert!(e != a.spec().identity());
    e
}
/// boundary and generic scalars, simplest first
pub fn scalars(a: A, n: usize) -> Vec<B> {
    let mut v = vec![sc(a, 1), neg1(a), rs(a, 1), sc(a, 2), rs(a, 2), sc(a, 256), sc(a, 3), rs(a, 3)];
    v.truncate(n);
    v
}
pub fn q(a: A) -> u64 {
    a.toy_q().unwrap()
}

/// lengths at which length fields, buffers and hash blocks change shape
pub fn edge_lens() -> Vec<usize> {
    let mut v = vec![];
    for k in 11..16 {
        let p = 1usize << k;
        v.extend([p - 1, p, p + 1]);
    }
    v.extend([0x7FFF, 0x8000, 0x8001, 0xFF00, 0xFFFE, 0xFFFF]);
    v.sort();
    v.dedup();
    v
}

/// batch sizes around every power of two, for the suite on which they are cheap
pub fn size_edges(a: A) -> Vec<usize> {
    let top = if a.name() == T61.name() { 16 } else { 11 };
    let mut v: Vec<usize> = (9..=top).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).filter(|n| *n <= 65535).collect();
    v.extend([1000, 1500]);
    if top == 16 {
        v.extend([3000, 10_000, 50_000]);
    }
    v
}

pub enum How {
    /// blinding factor handed over (danger API)
    Det(B),
    /// drawn from the RNG
    Rng,
}

pub struct Run {
    pub sk: B,
    pub pk: Option<B>,
    pub server: Obj,
    pub client: Obj,
    pub bl: Obj,
    pub ev: Obj,
    pub pf: Option<Obj>,
    pub out: B,
}

pub fn er<T>(r: R<T>, what: &str) -> Result<T, Viol> {
    r.map_err(|e| Viol(format!("{what} failed with {e:?}")))
}

pub fn do_blind(a: A, m: Md, input: &[u8], how: &How, rng: &mut ScriptRng) -> R<(Obj, Obj)> {
    match how {
        How::Det(b) => a.blind_det(m, input, b),
        How::Rng => a.blind(m, input, rng),
    }
}

/// pins the random oracles of a toy suite
pub fn pin_h2g(a: A, m: Md, input: &[u8], v: u64) {
    toy::oracle_override(QK::Group, &a.spec().dst(b"HashToGroup-", m), input, v);
}
pub fn pin_info(a: A, info: &[u8], v: u64) {
    let x = [b"Info".as_slice(), &i2(info.len()), info].concat();
    toy::oracle_override(QK::Scalar, &a.spec().dst(b"HashToScalar-", Md::Poprf), &x, v);
}

/// One complete protocol run with every message observed. With RFC = true each message is
/// compared with the reference model; in any case the two evaluation paths must agree.
#[allow(clippy::too_many_arguments)]
pub fn run1<const RFC: bool>(
    ctx: &mut Ctx,
    a: A,
    m: Md,
    sk: &[u8],
    how: How,
    input: &[u8],
    info: Option<&[u8]>,
    rng: &mut ScriptRng,
) -> Result<Option<Run>, Viol> {
    let s = a.spec();
    let server = er(a.server_with_key(m, sk), "new_with_key")?;
    let pk = a.server_pk(&server);
    let direct = a.evaluate(&server, input, info);
    ctx.op(2);
    let (client, bl) = match do_blind(a, m, input, &how, rng) {
        Ok(x) => x,
        Err(e) => {
            // no oblivious evaluation for this input: the direct path must refuse too
            chk!(direct.is_err(), "blind refuses the input ({e:?}) but evaluate accepts it");
            ctx.outcome(&format!("{} blind {e:?}", m.name()));
            return Ok(None);
        }
    };
    let evr = a.blind_evaluate(&server, rng, &bl, info);
    ctx.op(2);
    let (ev, pf) = match evr {
        Ok(x) => x,
        Err(e) => {
            chk!(direct.is_err(), "blind_evaluate fails with {e:?} but evaluate succeeds");
            if RFC {
                let x = s.eval_scalar(sk, info, m);
                chk!(x.is_err(), "blind_evaluate fails with {e:?} where the RFC succeeds");
            }
            ctx.outcome(&format!("{} evaluate {e:?}", m.name()));
            return Ok(None);
        }
    };
    let fin = a.finalize(&client, input, &ev, pf.as_ref(), pk.as_deref(), info);
    ctx.op(1);
    ctx.note(|| {
        format!(
            "{} {} sk={} input[{}] info={:?} blinded={} evaluated={} proof={} finalize={:?} evaluate={:?}",
            a.name(), m.name(), hexs(sk), input.len(), info.map(|i| i.len()), hexs(&a.ser(&bl)), hexs(&a.ser(&ev)),
            pf.as_ref().map(|p| hexs(&a.ser(p))).unwrap_or_default(),
            fin.as_ref().map(|o| hexs(o)), direct.as_ref().map(|o| hexs(o))
        )
    });
    let out = match (&fin, &direct) {
        (Ok(x), Ok(y)) => {
            chk!(
                x == y,
                "finalize and evaluate disagree: {} {} sk={} input[{}]={} info={:?}: {} vs {}",
                a.name(), m.name(), hexs(sk), input.len(), hexs(input), info.map(hexs), hexs(x), hexs(y)
            );
            x.clone()
        }
        _ => fail!(
            "{} {} sk={} input[{}] info={:?}: finalize = {:?}, evaluate = {:?}",
            a.name(), m.name(), hexs(sk), input.len(), info.map(|i| i.len()), fin.as_ref().map(|o| hexs(o)), direct.as_ref().map(|o| hexs(o))
        ),
    };
    if RFC {
        if let How::Det(b) = &how {
            eq!(a.ser(&bl), er(s.blind(input, b, m), "reference blind")?, "blinded element ({} {})", a.name(), m.name());
        }
        let k = er(s.eval_scalar(sk, info, m), "reference tweak")?;
        eq!(a.ser(&ev), s.mul(&a.ser(&bl), &k), "evaluation element ({} {})", a.name(), m.name());
        if let Some(p) = &pf {
            check_proof_rfc(a, m, sk, &[a.ser(&bl)], &[a.ser(&ev)], info, &a.ser(p))?;
            eq!(pk.clone().unwrap(), s.mul(&s.base(), sk), "public key");
        }
        eq!(out, er(s.evaluate(sk, input, info, m), "reference evaluate")?, "output ({} {})", a.name(), m.name());
    }
    ctx.state(&(a.name(), m, sk, a.ser(&bl), a.ser(&ev), pf.as_ref().map(|p| a.ser(p)), &out));
    ctx.outcome(&format!("{} ok", m.name()));
    Ok(Some(Run { sk: sk.to_vec(), pk, server, client, bl, ev, pf, out }))
}

/// The proof must be the RFC's proof for some nonce r: recover r = s + c*k and recompute.
pub fn check_proof_rfc(a: A, m: Md, sk: &[u8], bl: &[B], ev: &[B], info: Option<&[u8]>, proof: &[u8]) -> Res {
    let s = a.spec();
    let (c, z) = proof.split_at(s.ns());
    let k = if m == Md::Poprf { er(s.tweak(sk, info.unwrap_or(b"")), "reference tweak")? } else { sk.to_vec() };
    let r = s.sadd(z, &s.smul(c, &k));
    let want = er(s.server_prove(sk, bl, ev, info, &r, m), "reference prove")?;
    eq!(hexs(proof), hexs(&want), "{} {} proof over {} element(s) differs from RFC 9497 GenerateProof with the same nonce", a.name(), m.name(), bl.len());
    Ok(())
}

/// A batch driven through the API by one server.
pub struct BRun {
    pub server: Obj,
    pub pk: B,
    pub clients: Vec<Obj>,
    pub bls: Vec<Obj>,
    pub evs: Vec<Obj>,
    pub proof: Obj,
}
pub fn refs(v: &[Obj]) -> Vec<&Obj> {
    v.iter().collect()
}

pub fn blind_all(ctx: &mut Ctx, a: A, m: Md, inputs: &[B], rng: &mut ScriptRng) -> Result<(Vec<Obj>, Vec<Obj>), Viol> {
    let mut cs = vec![];
    let mut bs = vec![];
    for i in inputs {
        let (c, b) = er(a.blind(m, i, rng), "blind")?;
        cs.push(c);
        bs.push(b);
    }
    ctx.op(inputs.len() as u64);
    Ok((cs, bs))
}

/// alloc = batch_blind_evaluate, otherwise prepare + finish
pub fn eval_batch(ctx: &mut Ctx, a: A, server: &Obj, bls: &[Obj], info: Option<&[u8]>, alloc: bool, c: Coll, rng: &mut ScriptRng) -> R<Batch> {
    let b = refs(bls);
    if alloc {
        ctx.op(1);
        a.batch_evaluate(server, rng, &b, info, c)
    } else {
        ctx.op(2);
        let (ps, t) = a.prepare(server, &b, info, c)?;
        a.finish(server, rng, &b, &refs(&ps), t.as_ref(), c)
    }
}

pub fn run_batch(
    ctx: &mut Ctx,
    a: A,
    m: Md,
    sk: &[u8],
    inputs: &[B],
    info: Option<&[u8]>,
    alloc: bool,
    c: Coll,
    rng: &mut ScriptRng,
) -> Result<BRun, Viol> {
    let server = er(a.server_with_key(m, sk), "new_with_key")?;
    let pk = a.server_pk(&server).unwrap();
    let (clients, bls) = blind_all(ctx, a, m, inputs, rng)?;
    let b = er(eval_batch(ctx, a, &server, &bls, info, alloc, c, rng), "batch evaluation")?;
    chk!(b.msgs.len() == inputs.len(), "{} evaluation elements for {} blinded elements", b.msgs.len(), inputs.len());
    Ok(BRun { server, pk, clients, bls, evs: b.msgs, proof: b.proof })
}

pub fn finalize_all(ctx: &mut Ctx, a: A, m: Md, inputs: &[B], r: &BRun, info: Option<&[u8]>, c: Coll, d: Drain) -> R<Vec<R<B>>> {
    ctx.op(1);
    a.batch_finalize(m, inputs, &refs(&r.clients), &refs(&r.evs), &r.proof, &r.pk, info, c, d)
}

pub const VER: [Md; 2] = [Md::Voprf, Md::Poprf];

/// pattern of inputs of a batch
pub fn batch_inputs(n: usize, pat: usize) -> Vec<B> {
    (0..n)
        .map(|i| match pat {
            0 => format!("input-{i}").into_bytes(),
            1 => b"same".to_vec(),
            2 => format!("dup-{}", i % 2).into_bytes(),
            _ => fill(i * 37 % 300, i as u64),
        })
        .collect()
}
