mod api;
mod fw;
mod gen;
mod mem;
mod props;
mod q;
mod rng;
mod vio;
mod world;

use fw::{Case, Ran, Tier};

#[global_allocator]
static HEAP: mem::Counting = mem::Counting;
use std::io::Write;
use std::os::unix::fs::FileExt;

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    fw::install_hook();
    let cmd = a.get(1).map(String::as_str).unwrap_or("");
    let prop = arg(&a, "--prop").unwrap_or_default();
    let seed: u64 = arg(&a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = if arg(&a, "--tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let Some(f) = props::lookup(&prop) else {
        eprintln!("unknown property {prop:?}");
        std::process::exit(2);
    };
    match cmd {
        "one" => {
            let index: u64 = arg(&a, "--index").unwrap().parse().unwrap();
            let mut c = Case::new(&prop, seed, index, tier);
            let v = judge(f, &mut c);
            println!("case {index}: {}", c.desc);
            match v {
                Verdict::Held => println!("HELD"),
                Verdict::Violated(v) => {
                    println!("VIOLATED key={} {}", v.key, v.msg);
                    std::process::exit(1);
                }
                Verdict::HarnessError(m) => {
                    println!("HARNESS-ERROR {m}");
                    std::process::exit(2);
                }
            }
        }
        "shard" => shard(&a, &prop, f, seed, tier),
        _ => {
            eprintln!("usage: mon one|shard --prop ID ...");
            std::process::exit(2);
        }
    }
}

enum Verdict {
    Held,
    Violated(fw::Viol),
    HarnessError(String),
}

fn judge(f: props::PropFn, c: &mut Case) -> Verdict {
    match fw::guard(|| f(c)) {
        Ran::Ok(Ok(())) => Verdict::Held,
        Ran::Ok(Err(v)) => Verdict::Violated(v),
        Ran::Panic(loc, msg) => {
            // relative paths are this crate's own sources
            if loc.starts_with("src/") || loc.contains("/verif/harness/") {
                // indexing by or into an answer whose shape contradicts the file
                if msg.starts_with("index out of bounds") || msg.contains("out of range for slice") || msg.contains("but ends at") || msg.contains("slice index starts at") {
                    return Verdict::Violated(fw::Viol { key: "malformed-answer".into(), msg: format!("the code under test returned something of impossible shape (monitor at {loc}: {msg})") });
                }
                Verdict::HarnessError(format!("{loc}: {msg}"))
            } else {
                Verdict::Violated(fw::Viol {
                    key: format!("panic@{}", fw::loc_file(&loc)),
                    msg: format!("the code under test panicked on a valid request at {loc}: {msg}"),
                })
            }
        }
    }
}

fn shard(a: &[String], prop: &str, f: props::PropFn, seed: u64, tier: Tier) {
    let start: u64 = arg(a, "--start").unwrap().parse().unwrap();
    let step: u64 = arg(a, "--step").unwrap().parse().unwrap();
    let end: u64 = arg(a, "--end").unwrap().parse().unwrap();
    let budget: f64 = arg(a, "--budget").unwrap().parse().unwrap();
    let out = arg(a, "--out").unwrap();
    let progress = std::fs::File::create(format!("{out}.progress")).unwrap();
    let t0 = std::time::Instant::now();
    let mut counters = std::collections::BTreeMap::<String, u64>::new();
    let mut sigs: Vec<u64> = vec![];
    let mut samples: Vec<String> = vec![];
    let mut viols: Vec<serde_json::Value> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut evals = 0u64;
    let mut i = start;
    let mut last_dump = std::time::Instant::now();
    let dump = |i: u64, evals: u64, counters: &std::collections::BTreeMap<String, u64>, sigs: &[u64], samples: &[String], viols: &[serde_json::Value], errors: &[String], done: bool| {
        let j = serde_json::json!({
            "next": i, "evals": evals, "counters": counters, "sigs": sigs, "samples": samples,
            "violations": viols, "errors": errors, "done": done,
        });
        let tmp = format!("{out}.tmp");
        std::fs::File::create(&tmp).unwrap().write_all(j.to_string().as_bytes()).unwrap();
        std::fs::rename(&tmp, &out).unwrap();
    };
    while i < end && t0.elapsed().as_secs_f64() < budget {
        progress.write_at(&i.to_le_bytes(), 0).unwrap();
        let mut c = Case::new(prop, seed, i, tier);
        let v = judge(f, &mut c);
        evals += 1;
        for (k, n) in &c.counters {
            *counters.entry(k.clone()).or_insert(0) += n;
        }
        if c.nontrivial {
            sigs.push(c.sig);
            if samples.len() < 3 && !c.desc.is_empty() {
                samples.push(format!("case {}: {}", i, c.desc));
            }
        }
        match v {
            Verdict::Held => {}
            Verdict::Violated(v) => {
                if !viols.iter().any(|x| x["key"] == v.key.as_str()) {
                    viols.push(serde_json::json!({"key": v.key, "msg": v.msg, "index": i, "desc": c.desc}));
                }
                if viols.len() >= 8 {
                    i += step;
                    break;
                }
            }
            Verdict::HarnessError(m) => {
                errors.push(format!("case {i}: {m}"));
                if errors.len() > 5 {
                    break;
                }
            }
        }
        i += step;
        if last_dump.elapsed().as_millis() > 300 {
            dump(i, evals, &counters, &sigs, &samples, &viols, &errors, false);
            last_dump = std::time::Instant::now();
        }
    }
    dump(i, evals, &counters, &sigs, &samples, &viols, &errors, true);
}
