//! The shipped groups against their specification (C20).
use crate::api::*;
use crate::engine::*;
use crate::h::*;
use crate::spec::*;
use crate::suites::*;
use crate::{chk, eq};

fn pool() -> Vec<A> {
    REAL.iter().chain(&MIX).copied().collect()
}
/// hash-to-group or hash-to-scalar of slices against the reference over their concatenation
fn h2x(ctx: &mut Ctx, a: A, scalar: bool, msg: &[&[u8]], dst: &[&[u8]]) -> Res {
    let (m, d) = (msg.concat(), dst.concat());
    let shape = || format!("{} message slices {:?}, tag slices {:?}", a.name(), msg.iter().map(|x| x.len()).collect::<Vec<_>>(), dst.iter().map(|x| x.len()).collect::<Vec<_>>());
    ctx.op(1);
    let (got, want) = if scalar {
        (a.g_h2s(msg, dst), a.spec().h2s_dst(&m, &d))
    } else {
        (a.g_h2c(msg, dst), a.spec().h2g_dst(&m, &d))
    };
    match got {
        Ok(g) => {
            chk!(g == want, "{} of {}: got {}, RFC 9380 gives {}", if scalar { "hash_to_scalar" } else { "hash_to_curve" }, shape(), hexs(&g), hexs(&want));
            ctx.state(&(a.name(), scalar, want));
        }
        Err(e) => return Err(Viol(format!("hash failed with {e}: {}", shape()))),
    }
    ctx.outcome(if scalar { "scalar" } else { "element" });
    Ok(())
}

/// every way of cutting message and tag into three slices (possibly empty), and into single bytes
pub fn splits(ctx: &mut Ctx) -> Res {
    let p = pool();
    let a = *ctx.pick("suite", &p);
    let scalar = ctx.flag("scalar");
    let ml = *ctx.pick("message-length", ctx.tiered(&[0usize, 1, 2, 5][..], &[0, 1, 2, 3, 4, 5, 8, 33]));
    let dl = *ctx.pick("tag-length", ctx.tiered(&[1usize, 2, 4, 43, 255, 256][..], &[1, 2, 3, 4, 5, 16, 43, 254, 255, 256, 257, 300]));
    let (m, d) = (fill(ml, 1), fill(dl, 2));
    let dc = ctx.choose("tag-cut", if dl < 20 { dl + 2 } else { ctx.tiered(4, 12) });
    // cut points of the tag: (dc, every second cut) for short tags, a grid for long ones
    let seconds: Vec<usize> = if dl < 20 { (dc..=dl).collect() } else { vec![dc * dl / 12, dl / 2 + dc, dl - dc] };
    for e in seconds {
        let (c1, c2) = if dl < 20 { (dc.min(dl), e) } else { (e.min(dl / 2), dl - dc.min(dl)) };
        let (c1, c2) = (c1.min(c2), c1.max(c2).min(dl));
        let ds = [&d[..c1], &d[c1..c2], &d[c2..]];
        for i in 0..=ml {
            for j in i..=ml {
                h2x(ctx, a, scalar, &[&m[..i], &m[i..j], &m[j..]], &ds)?;
            }
        }
    }
    if dc == 0 {
        let ms: Vec<&[u8]> = m.chunks(1).collect();
        let ds: Vec<&[u8]> = d.chunks(1).collect();
        h2x(ctx, a, scalar, &ms, &ds)?;
        h2x(ctx, a, scalar, &[&m], &[&d])?;
        let mut ms2 = vec![&m[..0]; 20];
        ms2.push(&m);
        let mut ds2 = ds.clone();
        ds2.insert(ds.len() / 2, &d[..0]);
        h2x(ctx, a, scalar, &ms2, &ds2)?;
    }
    Ok(())
}

/// every number of slices: message and tag in pieces of equal size
pub fn pieces(ctx: &mut Ctx) -> Res {
    let p = pool();
    let a = *ctx.pick("suite", &p);
    let scalar = ctx.flag("scalar");
    let max = ctx.tiered(80, 300);
    let edges = [127usize, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1024];
    let i = ctx.choose("slices", max + edges.len());
    let n = if i < max { i + 1 } else { edges[i - max] };
    for w in [1usize, 3, 64] {
        let m = fill(n * w, 3);
        let d = fill(n.min(255), 4);
        let ms: Vec<&[u8]> = m.chunks(w).collect();
        h2x(ctx, a, scalar, &ms, &[b"tag"])?;
        if w == 1 {
            let ds: Vec<&[u8]> = d.chunks(1).collect();
            h2x(ctx, a, scalar, &[b"message"], &ds)?;
            h2x(ctx, a, scalar, &ms, &ds)?;
            // empty slices in between
            let (mut me, mut de) = (vec![], vec![]);
            for x in &ms { me.push(*x); me.push(&m[..0]); }
            for x in &ds { de.push(&d[..0]); de.push(*x); }
            h2x(ctx, a, scalar, &me, &de)?;
        }
    }
    Ok(())
}

/// every tag length
pub fn tag_lengths(ctx: &mut Ctx) -> Res {
    let p = pool();
    let a = *ctx.pick("suite", &p);
    let scalar = ctx.flag("scalar");
    let max = ctx.tiered(320, 2100);
    let edges = [511usize, 512, 513, 1023, 1024, 4096, 65535, 65536, 100_000];
    let i = ctx.choose("tag-length", max + edges.len());
    let dl = if i < max { i + 1 } else { edges[i - max] };
    for pat in 0..3 {
        let d = match pat {
            0 => vec![0; dl],
            1 => vec![0xFF; dl],
            _ => fill(dl, 9),
        };
        h2x(ctx, a, scalar, &[b"m"], &[&d])?;
        h2x(ctx, a, scalar, &[b"me", b"ssage"], &[&d[..dl / 2], &d[dl / 2..]])?;
    }
    Ok(())
}

/// every message length
pub fn message_lengths(ctx: &mut Ctx) -> Res {
    let p = pool();
    let a = *ctx.pick("suite", &p);
    let scalar = ctx.flag("scalar");
    let max = ctx.tiered(320, 4200);
    let edges = edge_lens();
    let i = ctx.choose("message-length", max + edges.len());
    let l = if i < max { i } else { edges[i - max] };
    for m in [vec![0; l], vec![0xFF; l], fill(l, 5)] {
        h2x(ctx, a, scalar, &[&m], &[b"tag"])?;
        h2x(ctx, a, scalar, &[&m[..l / 3], &m[l / 3..]], &[b"HashToGroup-", b"OPRFV1-", &[0], b"-", b"id"])?;
    }
    Ok(())
}

struct Facts {
    id: &'static str,
    base: &'static str,
    ne: usize,
    ns: usize,
    nh: usize,
}
const FACTS: [Facts; 4] = [
    Facts { id: "ristretto255-SHA512", base: "e2f2ae0a6abc4e71a884a961c500515f58e30b6aa582dd8db6a65945e08d2d76", ne: 32, ns: 32, nh: 64 },
    Facts { id: "P256-SHA256", base: "036b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296", ne: 33, ns: 32, nh: 32 },
    Facts { id: "P384-SHA384", base: "03aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7", ne: 49, ns: 48, nh: 48 },
    Facts { id: "P521-SHA512", base: "0200c6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66", ne: 67, ns: 66, nh: 64 },
];

/// the constants of the suites
pub fn facts(ctx: &mut Ctx) -> Res {
    let i = ctx.choose("suite", 4);
    let (a, f) = (REAL[i], &FACTS[i]);
    chk!(a.suite_id() == f.id, "suite identifier {}", a.suite_id());
    chk!(a.elem_len() == f.ne && a.scalar_len() == f.ns && a.hash_len() == f.nh, "{}: sizes {} {} {}", f.id, a.elem_len(), a.scalar_len(), a.hash_len());
    let base = a.g_base();
    chk!(hexs(&base) == f.base, "{}: base element {}", f.id, hexs(&base));
    chk!(hexs(&a.g_ser_elem(&base)) == f.base, "{}: base element serializes to {}", f.id, hexs(&a.g_ser_elem(&base)));
    chk!(a.g_is_identity(&a.g_identity()), "{}: identity_elem is not the identity", f.id);
    eq!(a.g_identity(), a.spec().identity(), "{}: identity", f.id);
    for k in WIRE_KINDS {
        let n: usize = k.layout().iter().map(|e| if *e { f.ne } else { f.ns }).sum();
        chk!(a.declared_len(k) == n, "{}: declared length of {}", f.id, k.name());
    }
    ctx.op(12);
    ctx.state(&i);
    // order: (n-1)G = -G, so (n-1)G + G is the identity; and no smaller power of two multiple is
    let s = a.spec();
    let (z, ng) = a.g_mul(&base, &neg1(a));
    chk!(!z, "{}: (n-1)G is the identity", f.id);
    let (z, b) = a.g_add(&ng, &base);
    chk!(z, "{}: (n-1)G + G is not the identity", f.id);
    eq!(b, s.identity(), "{}: encoding of (n-1)G + G", f.id);
    chk!(a.g_de_elem(&b).is_err(), "{}: identity accepted", f.id);
    let (z, _) = a.g_mul(&base, &s.zero());
    chk!(z, "{}: 0G is not the identity", f.id);
    ctx.op(5);
    Ok(())
}

fn ks(a: A, n: usize) -> Vec<B> {
    let mut v: Vec<B> = (1..=n as u64).map(|i| sc(a, i)).collect();
    for i in 0..n as u64 {
        v.push(rs(a, 100 + i));
    }
    let m = neg1(a);
    for i in 0..n as u64 {
        v.push(a.spec().ssub(&m, &sc(a, i)));
    }
    // single bits
    let bits = 8 * a.spec().ns();
    let mut x = sc(a, 1);
    for b in 0..bits {
        if b > 0 {
            x = a.spec().sadd(&x, &x);
        }
        if b % (64 / n).max(1) == 0 {
            v.push(x.clone());
        }
    }
    v
}

/// inversion, encodings, zero and identity tests, on pairs of scalars
pub fn arithmetic(ctx: &mut Ctx) -> Res {
    let p = pool();
    let a = *ctx.pick("suite", &p);
    let s = a.spec();
    let v = ks(a, ctx.tiered(4, 16));
    let k = ctx.pick("scalar", &v);
    let inv = a.g_invert(k);
    eq!(s.smul(k, &inv), s.one(), "{}: {} times its inverse", a.name(), hexs(k));
    eq!(a.g_invert(&inv), k.clone(), "{}: inverse of the inverse of {}", a.name(), hexs(k));
    chk!(!a.g_is_zero(k), "{}: {} taken for zero", a.name(), hexs(k));
    chk!(a.g_is_zero(&s.zero()), "{}: zero not recognized", a.name());
    eq!(a.g_ser_scalar(k), k.clone(), "{}: scalar encoding", a.name());
    eq!(a.g_de_scalar(k), Ok(k.clone()), "{}: scalar decoding", a.name());
    chk!(a.g_de_scalar(&a.g_ser_scalar(&s.zero())).is_err(), "{}: zero accepted", a.name());
    let (z, e) = a.g_mul(&s.base(), k);
    chk!(!z, "{}: {}G taken for the identity", a.name(), hexs(k));
    eq!(e, s.mul(&s.base(), k), "{}: kG encoding", a.name());
    chk!(!a.g_is_identity(&e), "{}: identity test", a.name());
    eq!(a.g_de_elem(&e), Ok(e.clone()), "{}: element decoding", a.name());
    eq!(a.g_ser_elem(&e), e.clone(), "{}: element encoding", a.name());
    ctx.op(10);
    for l in &v {
        let f = s.mul(&s.base(), l);
        let (z, x) = a.g_add(&e, &f);
        let sum = s.sadd(k, l);
        chk!(z == (sum == s.zero()), "{}: identity test of {}G + {}G", a.name(), hexs(k), hexs(l));
        eq!(x, s.mul(&s.base(), &sum), "{}: {}G + {}G", a.name(), hexs(k), hexs(l));
        let (z, y) = a.g_mul(&f, k);
        chk!(!z, "{}: identity test of a product", a.name());
        eq!(y, s.mul(&s.base(), &s.smul(k, l)), "{}: {} * {}G", a.name(), hexs(k), hexs(l));
        let (z, d) = a.g_ssub(k, l);
        chk!(z == (k == l), "{}: zero test of {} - {}", a.name(), hexs(k), hexs(l));
        eq!(d, s.ssub(k, l), "{}: {} - {}", a.name(), hexs(k), hexs(l));
        ctx.op(3);
    }
    ctx.state(&(a.name(), k));
    Ok(())
}
