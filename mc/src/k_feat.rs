//! Feature sets (C21): the probe crate is built against /repo once per feature set; every
//! build runs the same matrix of operations, transcripts are compared pairwise, and every
//! build continues the runs of every other build from their serialized objects.
use std::collections::{BTreeMap, BTreeSet};
use std::process::Command;
use std::sync::{Mutex, OnceLock};

use crate::engine::*;
use crate::{chk, fail};

pub struct Built {
    pub set: String,
    pub bin: String,
    pub file: String,
    pub lines: BTreeMap<String, String>,
    /// why there is no transcript
    pub broken: Option<String>,
}
static BUILT: OnceLock<Vec<Built>> = OnceLock::new();

/// all effectively different feature sets: alloc < std, ristretto255 < ristretto255-ciphersuite
fn sets() -> Vec<String> {
    let mut v = vec![];
    for danger in ["", "danger"] {
        for serde in ["", "serde"] {
            for al in ["", "alloc", "std"] {
                for ri in ["", "ristretto255", "ristretto255-ciphersuite"] {
                    let f: Vec<&str> = [al, danger, serde, ri].into_iter().filter(|x| !x.is_empty()).collect();
                    v.push(f.join(","));
                }
            }
        }
    }
    v
}

fn build_one(dir: &str, slot: usize, set: &str, big: bool) -> Result<String, String> {
    let target = format!("{dir}/target/t{slot}");
    let f = if big { format!("{set},big") } else { set.to_string() };
    let o = Command::new("cargo")
        .args(["build", "--offline", "--quiet", "--manifest-path", &format!("{dir}/Cargo.toml"), "--target-dir", &target, "--features", f.trim_start_matches(',')])
        .output()
        .map_err(|e| format!("cargo: {e}"))?;
    if !o.status.success() {
        let t = String::from_utf8_lossy(&o.stderr);
        let e: Vec<&str> = t.lines().filter(|l| l.starts_with("error")).take(3).collect();
        return Err(format!("does not build: {}", e.join("; ")));
    }
    let bin = format!("{dir}/target/bins/{}", if set.is_empty() { "none" } else { set });
    std::fs::create_dir_all(format!("{dir}/target/bins")).map_err(|e| e.to_string())?;
    let _ = std::fs::remove_file(&bin);
    std::fs::copy(format!("{target}/debug/probe"), &bin).map_err(|e| e.to_string())?;
    Ok(bin)
}

/// Builds and runs all probes. Err = nothing can be said (harness problem).
pub fn prepare(tier: Tier) -> Result<(), String> {
    let big = tier == Tier::Thorough;
    let dir = format!("{}/probe", crate::verif());
    let all = sets();
    const SLOTS: usize = 4;
    // the full set first: it compiles all dependencies, then the other slots copy them
    let full = all.last().unwrap().clone();
    build_one(&dir, 0, &full, big).map_err(|e| format!("probe with all features {e}"))?;
    for s in 1..SLOTS {
        let t = format!("{dir}/target/t{s}");
        if !std::path::Path::new(&t).exists() {
            let ok = Command::new("cp").args(["-a", &format!("{dir}/target/t0"), &t]).status().map(|s| s.success()).unwrap_or(false);
            if !ok {
                return Err("cannot copy the probe's build folder".into());
            }
        }
    }
    let next = Mutex::new(0usize);
    let out: Mutex<Vec<Option<Built>>> = Mutex::new(all.iter().map(|_| None).collect());
    std::thread::scope(|sc| {
        for slot in 0..SLOTS {
            let (next, out, all, dir) = (&next, &out, &all, &dir);
            sc.spawn(move || loop {
                let i = {
                    let mut n = next.lock().unwrap();
                    *n += 1;
                    *n - 1
                };
                if i >= all.len() {
                    return;
                }
                let mut b = Built { set: all[i].clone(), bin: String::new(), file: String::new(), lines: BTreeMap::new(), broken: None };
                match build_one(dir, slot, &all[i], big) {
                    Err(e) => b.broken = Some(e),
                    Ok(bin) => {
                        b.file = format!("{bin}.txt");
                        let o = Command::new(&bin).args(["emit", &b.file]).output();
                        match o {
                            Ok(o) if o.status.success() => {
                                let t = std::fs::read_to_string(&b.file).unwrap_or_default();
                                b.lines = t.lines().filter_map(|l| l.split_once('\t')).map(|(a, b)| (a.to_string(), b.to_string())).collect();
                            }
                            Ok(o) => b.broken = Some(format!("run ends with {:?}", o.status)),
                            Err(e) => b.broken = Some(format!("cannot run: {e}")),
                        }
                        b.bin = bin;
                    }
                }
                out.lock().unwrap()[i] = Some(b);
            });
        }
    });
    let v: Vec<Built> = out.into_inner().unwrap().into_iter().map(|b| b.unwrap()).collect();
    if v.iter().all(|b| b.broken.is_some()) {
        return Err(format!("no probe works: {}", v[0].broken.as_ref().unwrap()));
    }
    let _ = BUILT.set(v);
    Ok(())
}

fn name(b: &Built) -> &str {
    if b.set.is_empty() {
        "no features"
    } else {
        &b.set
    }
}

/// every build works, and every pair of builds observes the same
pub fn compare(ctx: &mut Ctx) -> Res {
    let v = BUILT.get().expect("harness: probes not prepared");
    let i = ctx.choose("build", v.len());
    let b = &v[i];
    if let Some(e) = &b.broken {
        fail!("features [{}]: {e}; other feature sets work", name(b));
    }
    let j = ctx.choose("other", v.len());
    let c = &v[j];
    if c.broken.is_some() {
        return Ok(());
    }
    let mut common = 0;
    for (k, x) in &b.lines {
        if let Some(y) = c.lines.get(k) {
            chk!(x == y, "{k}: with features [{}] {}, with features [{}] {}", name(b), cut(x), name(c), cut(y));
            common += 1;
        }
    }
    chk!(common > 0, "harness: no common observation");
    ctx.op(common);
    if i == j {
        for (k, x) in &b.lines {
            ctx.state(&(k, x));
        }
    }
    ctx.outcome("equal");
    ctx.note(|| format!("[{}] and [{}]: {common} observations equal", name(b), name(c)));
    Ok(())
}
fn cut(s: &str) -> String {
    s.chars().take(200).collect()
}

fn continued(bin: &str, file: &str) -> Result<(u64, BTreeSet<String>), Viol> {
    let o = Command::new(bin).args(["restore", file]).output().map_err(|e| Viol(format!("harness: {e}")))?;
    chk!(o.status.success(), "restoring ends with {:?}", o.status);
    let t = String::from_utf8_lossy(&o.stdout).to_string();
    let n = t.lines().find_map(|l| l.strip_prefix("CONTINUED ")).and_then(|x| x.parse().ok()).unwrap_or(0);
    Ok((n, t.lines().filter_map(|l| l.strip_prefix("BAD ")).map(|x| x.to_string()).collect()))
}

/// every build continues the runs of every other build
pub fn restore(ctx: &mut Ctx) -> Res {
    let v = BUILT.get().expect("harness: probes not prepared");
    let i = ctx.choose("written-by", v.len());
    let j = ctx.choose("restored-by", v.len());
    let (b, c) = (&v[i], &v[j]);
    if b.broken.is_some() || c.broken.is_some() {
        return Ok(());
    }
    let (n, bad) = continued(&c.bin, &b.file)?;
    if !bad.is_empty() {
        // what the writing build itself cannot restore is not a question of features
        let (_, own) = continued(&b.bin, &b.file)?;
        if let Some(x) = bad.difference(&own).next() {
            fail!("written with features [{}], restored with features [{}]: {}", name(b), name(c), x);
        }
    }
    ctx.op(n);
    ctx.state(&(i, j));
    ctx.outcome("continued");
    ctx.note(|| format!("[{}] continued by [{}]: {n} runs", name(b), name(c)));
    Ok(())
}
