//! vmc: model checker for the voprf crate. See /verif/DESIGN.md.
#![allow(deprecated, dead_code, clippy::type_complexity, clippy::needless_range_loop, clippy::too_many_arguments)]
mod api;
mod engine;
mod h;
mod k_batch;
mod k_bind;
mod k_core;
mod k_feat;
mod k_group;
mod k_hist;
mod k_hostile;
mod k_keys;
mod k_net;
mod k_persist;
mod k_secret;
mod k_sound;
mod props;
mod spec;
mod suites;
mod toy;

use std::io::Write;
use std::time::Instant;

use engine::{explore, replay, Found, Kernel, Tier};
use serde_json::{json, Value};

fn verif() -> String {
    std::env::var("VMC_HOME").unwrap_or_else(|_| "/verif".into())
}

#[global_allocator]
static ALLOC: engine::Limited = engine::Limited;
static CUR: std::sync::Mutex<(String, &'static str)> = std::sync::Mutex::new((String::new(), "quick"));

fn write_replay(prop: &str, tier: &str, kernel: &str, msg: &str, choices: &[(String, u32, u32)], reproduced: bool, trace: &[String]) -> String {
    let dir = format!("{}/replays", verif());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}-{kernel}.json");
    let v = json!({
        "property": prop, "tier": tier, "kernel": kernel, "violation": msg,
        "choices": choices.iter().map(|c| c.2).collect::<Vec<_>>(),
        "labels": choices.iter().map(|c| format!("{}={}/{}", c.0, c.2, c.1)).collect::<Vec<_>>(),
        "reproduced_from_a_fresh_start": reproduced,
        "trace": trace,
        "how_to_replay": format!("/verif/check.sh --replay {path}"),
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

/// Called by the watchdog or the allocator: the execution cannot be completed.
pub fn give_up(kernel: &str, msg: &str, choices: &[(String, u32, u32)]) -> ! {
    let (prop, tier) = CUR.lock().unwrap().clone();
    let path = write_replay(&prop, tier, kernel, msg, choices, true, &[]);
    println!("kernel {kernel}: {msg}");
    println!("VIOLATION property={prop} replay={path}");
    let _ = std::io::stdout().flush();
    std::process::exit(1);
}

fn find_kernel(name: &str) -> Option<Kernel> {
    props::all().into_iter().flat_map(|p| p.kernels).find(|k| k.name == name)
}

fn main() {
    engine::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(|s| s.as_str()) {
        Some("list") => {
            for p in props::all() {
                println!("{} {}", p.id, p.kernels.iter().map(|k| k.name).collect::<Vec<_>>().join(" "));
            }
        }
        Some("replay") => do_replay(&args[1]),
        Some("check") => {
            match std::env::var("VMC_CHILD") {
                Err(_) => supervise(&args[1], &args),
                Ok(f) => *engine::TRAILS.lock().unwrap() = std::fs::File::create(f).ok().map(|f| &*Box::leak(Box::new(f))),
            }
            let tier = match args.get(2).map(|s| s.as_str()) {
                Some("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            check(&args[1], tier, args.get(3).map(|s| s.as_str()));
        }
        _ => {
            eprintln!("usage: vmc list | check <property> [quick|thorough] [kernel] | replay <file>");
            std::process::exit(2);
        }
    }
}

fn do_replay(file: &str) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("read")).expect("json");
    let k = find_kernel(v["kernel"].as_str().unwrap()).expect("unknown kernel");
    let tier = if v["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let nums: Vec<u32> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
    if v["property"] == "C21" {
        k_feat::prepare(tier).expect("probes");
    }
    let (r, tr) = replay(&k, tier, &nums);
    for l in tr {
        println!("  {l}");
    }
    match r {
        Ok(c) => println!("no violation on this execution: {c}"),
        Err(m) => {
            println!("{m}");
            println!("VIOLATION property={} replay={file}", v["property"].as_str().unwrap());
            std::process::exit(1);
        }
    }
}

/// Runs the exploration in a child process, so that a stack overflow or an abort inside the
/// code under check is reported with the execution that caused it.
fn supervise(id: &str, args: &[String]) -> ! {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().expect("exe");
    let file = std::env::temp_dir().join(format!("vmc-{}", std::process::id()));
    let st = std::process::Command::new(&exe).args(args).env("VMC_CHILD", &file).status().expect("child");
    let rec = std::fs::read(&file).unwrap_or_default();
    let kernel = std::fs::read_to_string(format!("{}.k", file.display())).unwrap_or_default();
    let _ = std::fs::remove_file(&file);
    let _ = std::fs::remove_file(format!("{}.k", file.display()));
    if let Some(c) = st.code() {
        std::process::exit(c);
    }
    let sig = st.signal().unwrap_or(0);
    eprintln!("the exploration died with signal {sig} in kernel {kernel}");
    let tier = if args.get(2).map(|s| s == "thorough").unwrap_or(false) { "thorough" } else { "quick" };
    for slot in rec.chunks(engine::TRAIL_SLOT) {
        let w: Vec<u32> = slot.chunks_exact(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
        if w.is_empty() || w[0] == 0 || w[0] as usize > w.len() {
            continue;
        }
        let ch: Vec<(String, u32, u32)> = w[1..w[0] as usize].iter().map(|c| (String::new(), 0, *c)).collect();
        let msg = format!("the process is killed by signal {sig} (stack overflow or abort)");
        let path = write_replay(id, tier, kernel.trim(), &msg, &ch, true, &[]);
        let r = std::process::Command::new(&exe).args(["replay", &path]).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status();
        if r.map(|r| r.code().is_none()).unwrap_or(false) {
            println!("kernel {}: {msg}", kernel.trim());
            println!("VIOLATION property={id} replay={path}");
            std::process::exit(1);
        }
        let _ = std::fs::remove_file(&path);
    }
    std::process::exit(2);
}

fn check(id: &str, tier: Tier, only: Option<&str>) {
    let t0 = Instant::now();
    let ts = if tier == Tier::Quick { "quick" } else { "thorough" };
    let Some(p) = props::all().into_iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    *CUR.lock().unwrap() = (id.to_string(), ts);
    let threads = std::env::var("VMC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let mut ker = vec![];
    let mut samples = vec![];
    let (mut st, mut ops, mut ex) = (0, 0, 0);
    let mut viol: Option<(String, Found)> = None;
    if id == "C21" {
        if let Err(e) = k_feat::prepare(tier) {
            eprintln!("harness error: {e}");
            std::process::exit(2);
        }
    }
    for k in &p.kernels {
        if only.map(|o| o != k.name).unwrap_or(false) {
            continue;
        }
        if let Ok(f) = std::env::var("VMC_CHILD") {
            let _ = std::fs::write(format!("{f}.k"), k.name);
            if let Some(f) = *engine::TRAILS.lock().unwrap() {
                let _ = f.set_len(0);
            }
        }
        match explore(k, tier, threads) {
            Err(e) => {
                eprintln!("harness error: {e}");
                std::process::exit(2);
            }
            Ok(r) => {
                println!(
                    "{id} {}: executions={} transitions={} states={} outcomes={} depth={} {:.2}s",
                    k.name, r.executions, r.ops, r.states, r.outcomes.len(), r.max_depth, r.secs
                );
                st += r.states;
                ops += r.ops;
                ex += r.executions;
                samples.extend(r.samples.iter().map(|s| s.chars().take(1200).collect::<String>()));
                let mut oc: Vec<_> = r.outcomes.iter().map(|(a, b)| (a.clone(), *b)).collect();
                let distinct = oc.len();
                oc.sort_by(|a, b| b.1.cmp(&a.1).then(a.0.cmp(&b.0)));
                oc.truncate(24);
                ker.push(json!({"kernel": k.name, "enumerates": k.what, "executions": r.executions, "transitions": r.ops,
                    "states": r.states, "distinct_outcomes": distinct, "outcomes": oc.iter().map(|(a, b)| json!([a, b])).collect::<Vec<_>>(),
                    "max_choice_depth": r.max_depth, "wall_s": r.secs, "choice_space_exhausted": r.viol.is_none()}));
                if let Some(f) = r.viol {
                    viol = Some((k.name.to_string(), f));
                    break;
                }
            }
        }
    }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let ev = json!({
        "property": id, "tier": ts, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": st, "transitions": ops, "traces_validated_against_impl": ex,
            "samples": samples, "exhaustive": viol.is_none(), "kernels": ker,
            "explanation": "Every choice sequence of every kernel was executed against the real crate; a state is a distinct \
                canonical observation of the running protocol (party states and messages as bytes), a transition is one call \
                into the implementation, and every explored trace runs the implementation in lockstep with the reference model.",
        },
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": viol.is_some() as u32,
    });
    let dir = format!("{}/evidence", verif());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{id}.json"), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    if let Some((k, f)) = viol {
        let path = write_replay(id, ts, &k, &f.msg, &f.choices, f.reproduced, &f.trace);
        println!("{}", f.msg);
        println!("  choices: {}", f.choices.iter().map(|c| format!("{}={}/{}", c.0, c.2, c.1)).collect::<Vec<_>>().join(" "));
        println!("VIOLATION property={id} replay={path}");
        std::process::exit(1);
    }
    println!("OK property={id} tier={ts} states={st} transitions={ops} executions={ex} {:.1}s", t0.elapsed().as_secs_f64());
}
