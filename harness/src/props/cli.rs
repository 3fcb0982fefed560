//! The command line programs, run as processes in a scratch directory of their own.
use crate::api::*;
use crate::fw::*;
use crate::gen::*;
use crate::world::*;
use crate::{ensure, viol};
use ebi::decoder::query::{Predicate, RangeValue};
use roaring::RoaringBitmap;
use serde_json::Value;
use std::collections::BTreeMap;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(c: &Case) -> Scratch {
        let base = std::env::var("MON_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
        let p = base.join(format!("cli-{}-{}", std::process::id(), c.index));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub struct Out {
    pub ok: bool,
    pub stdout: String,
    pub stderr: String,
}

/// Run one program; a panic, a crash or a run without end is a violation of whatever is being asked of it.
pub fn run(c: &mut Case, dir: &Path, prog: &str, args: &[&str], fsize: Option<u64>) -> Result<Out, Viol> {
    run_in(c, dir, prog, args, fsize, None)
}

pub fn run_in(c: &mut Case, dir: &Path, prog: &str, args: &[&str], fsize: Option<u64>, stdin: Option<&str>) -> Result<Out, Viol> {
    let bins = std::env::var("MON_CLI").unwrap_or_else(|_| "/verif/target/cli/debug".into());
    let mut cmd = Command::new(Path::new(&bins).join(prog));
    cmd.args(args).current_dir(dir).env_clear().env("PATH", "/nonexistent").env("RUST_BACKTRACE", "0").env("TMPDIR", dir);
    cmd.stdout(Stdio::piped()).stderr(Stdio::piped()).stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() });
    unsafe {
        cmd.pre_exec(move || {
            let l = libc::rlimit { rlim_cur: 90, rlim_max: 95 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            if let Some(f) = fsize {
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                let l = libc::rlimit { rlim_cur: f, rlim_max: f };
                libc::setrlimit(libc::RLIMIT_FSIZE, &l);
            }
            Ok(())
        });
    }
    let mut ch = cmd.spawn().unwrap_or_else(|e| panic!("cannot start {prog}: {e}"));
    let o = if let Some(s) = stdin {
        let mut w = ch.stdin.take().unwrap();
        let s = s.to_string();
        let t = std::thread::spawn(move || {
            use std::io::Write;
            let _ = w.write_all(s.as_bytes());
        });
        let o = ch.wait_with_output().unwrap();
        let _ = t.join();
        o
    } else {
        ch.wait_with_output().unwrap()
    };
    c.count("programs run", 1);
    let stdout = String::from_utf8_lossy(&o.stdout).into_owned();
    let stderr = String::from_utf8_lossy(&o.stderr).into_owned();
    let shown = format!("{prog} {}", args.join(" ")).replace(dir.to_str().unwrap_or("?"), ".");
    if let Some(s) = o.status.signal() {
        let k = if s == libc::SIGXCPU || s == libc::SIGKILL { "no-termination" } else { "crash" };
        return Err(viol!(k, "{shown}: killed by signal {s}; {}", tail(&stderr)));
    }
    ensure!(o.status.code() != Some(101), "panic", "{shown}: panicked: {}", tail(&stderr));
    Ok(Out { ok: o.status.success(), stdout, stderr })
}

fn tail(s: &str) -> String {
    let t: String = s.chars().filter(|c| *c == '\n' || !c.is_control()).collect();
    let i = t.find("panicked at").unwrap_or_else(|| t.len().saturating_sub(400));
    let mut i = i;
    while !t.is_char_boundary(i) {
        i -= 1;
    }
    t[i..].chars().take(400).collect::<String>().replace('\n', " | ")
}

fn json(p: &Path) -> Result<Value, String> {
    let b = std::fs::read(p).map_err(|e| format!("{}: {e}", p.file_name().unwrap_or_default().to_string_lossy()))?;
    serde_json::from_slice(&b).map_err(|e| format!("{} is not JSON: {e}", p.file_name().unwrap_or_default().to_string_lossy()))
}

fn le(v: &[f64]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_le_bytes()).collect()
}

// ---------------------------------------------------------------- C25

/// decimal places of a number as written
fn places(s: &str) -> u64 {
    let (m, e) = match s.find(['e', 'E']) {
        Some(i) => (&s[..i], s[i + 1..].parse::<i64>().unwrap()),
        None => (s, 0),
    };
    let f = m.find('.').map_or(0, |d| m.len() - d - 1) as i64;
    (f - e).max(0) as u64
}

fn gen_number(c: &mut Case, k: u64) -> String {
    let r = &mut c.rng;
    let sign = if r.chance(1, 3) { "-" } else if r.chance(1, 40) { "+" } else { "" };
    let int = r.below(r.clone().pick(&[2u64, 100, 100000]));
    match r.below(24) {
        0 => format!("{sign}{int}"),
        1 => {
            let e = if r.chance(1, 8) { r.pick(&[-323i64, -310, -300, -40, 22, 60, 100]) + r.range(0, 9) } else { r.range(-9, 4) };
            let ec = if r.chance(1, 3) { 'E' } else { 'e' };
            let p = if e >= 0 && r.chance(1, 2) { "+" } else { "" };
            let e = match e {
                e if e < 0 && r.chance(1, 3) => format!("-0{}", -e),
                e if e >= 0 && r.chance(1, 3) => format!("0{e}"),
                e => e.to_string(),
            };
            if r.chance(1, 2) {
                format!("{sign}{}.{}{ec}{p}{e}", r.below(10), r.below(1000))
            } else {
                format!("{sign}{}{ec}{p}{e}", r.below(100))
            }
        }
        2 => format!("{sign}{int}."),
        3 => format!("{sign}.{}", r.below(1000)),
        4 | 5 => {
            let w = r.below(k + 1) as usize;
            let v = r.below(10u64.pow(w as u32));
            if w == 0 { format!("{sign}{int}") } else { format!("{sign}{int}.{v:0w$}") }
        }
        _ => {
            let w = k as usize;
            let v = r.below(10u64.pow(w as u32));
            if w == 0 { format!("{sign}{int}") } else { format!("{sign}{int}.{v:0w$}") }
        }
    }
}

struct Table {
    name: String,
    stem: String,
    text: String,
    nums: Vec<String>,
    vals: Vec<f64>,
    good: bool,
}

fn gen_table(c: &mut Case, i: usize) -> Table {
    let stem = match c.rng.below(4) {
        0 => format!("data{i}"),
        1 => format!("da.ta{i}"),
        2 => format!("Set_{i}-x"),
        _ => format!("{i}"),
    };
    // a file name without extension has no dot
    let name = match c.rng.below(4) {
        0 if !stem.contains('.') => stem.clone(),
        1 => format!("{stem}.txt"),
        _ => format!("{stem}.csv"),
    };
    let n = match c.rng.below(8) {
        0 => 0,
        1 => 1,
        2 => 90 + c.rng.usize(30),
        3 => 1000 + c.rng.usize(1500),
        _ => 1 + c.rng.usize(60),
    };
    let k = c.rng.below(8);
    let odd = c.rng.chance(1, 3);
    let per = 1 + c.rng.usize(12);
    let eol = c.rng.pick(&["\n", "\n", "\r\n"]);
    let mut nums: Vec<String> = Vec::new();
    let mut text = String::new();
    let deep = c.rng.chance(1, 3);
    for j in 0..n {
        let s = if odd {
            gen_number(c, k)
        } else if deep && c.rng.chance(1, 100) {
            // a few numbers with many more places
            let w = 8 + c.rng.usize(14);
            format!("0.{:0w$}", c.rng.below(99_999_999) + 1)
        } else if !nums.is_empty() && c.rng.chance(1, 6) {
            nums[nums.len() - 1].clone()
        } else {
            format!("{}", grid_value(c.rng.range(-50000, 50000), k.min(4) as u32))
        };
        if c.rng.chance(1, 30) {
            text.push(',');
        }
        if c.rng.chance(1, 10) {
            text.push(' ');
        }
        if odd && c.rng.chance(1, 30) {
            text.push('\t');
        }
        text.push_str(&s);
        if odd && c.rng.chance(1, 15) {
            text.push(' ');
        }
        nums.push(s);
        let last = j + 1 == n;
        if (j + 1) % per == 0 || last {
            if c.rng.chance(1, 20) {
                text.push(',');
            }
            if !last || c.rng.chance(2, 3) {
                text.push_str(eol);
            }
            if !last && c.rng.chance(1, 30) {
                text.push_str(eol);
            }
        } else {
            text.push(',');
        }
    }
    let good = !c.rng.chance(1, 6);
    if !good {
        let bad = c.rng.pick(&["abc", "1.2.3", "0x10", "--1", "1,,x"]);
        if c.rng.chance(1, 2) || text.is_empty() {
            text.push_str(&format!("{eol}{bad}{eol}"));
        } else {
            text = format!("{bad}{eol}{text}");
        }
    }
    let vals = nums.iter().map(|s| s.parse().unwrap()).collect();
    Table { name, stem, text, nums, vals, good }
}

fn near(a: f64, b: f64, scale: f64) -> bool {
    a == b || (a - b).abs() <= 1e-9 * (scale.abs() + b.abs()) + 1e-300
}

fn stats_of(nums: &[String], v: &[f64]) -> BTreeMap<&'static str, f64> {
    let mut m = BTreeMap::new();
    let n = v.len() as f64;
    let mut put = |k: [&'static str; 4], x: &[f64]| {
        let mean = x.iter().sum::<f64>() / n;
        let var = x.iter().map(|a| (a - mean) * (a - mean)).sum::<f64>() / n;
        m.insert(k[0], if x.is_empty() { 0.0 } else { x.iter().cloned().fold(f64::MIN, f64::max) });
        m.insert(k[1], if x.is_empty() { 0.0 } else { x.iter().cloned().fold(f64::MAX, f64::min) });
        m.insert(k[2], if x.is_empty() { 0.0 } else { mean });
        m.insert(k[3], if x.is_empty() { 0.0 } else { var.sqrt() });
    };
    let p: Vec<f64> = nums.iter().map(|s| places(s) as f64).collect();
    put(["decimal_precision_max", "decimal_precision_min", "decimal_precision_avg", "decimal_precision_std"], &p);
    put(["value_max", "value_min", "value_avg", "value_std"], v);
    let e: Vec<f64> = v.iter().map(|x| ((x.to_bits() >> 52) & 0x7ff) as f64 - 1023.0).collect();
    put(["exponent_max", "exponent_min", "exponent_avg", "exponent_std"], &e);
    let (mut l, mut t) = (0u64, 0u64);
    for w in v.windows(2) {
        let x = w[0].to_bits() ^ w[1].to_bits();
        l += x.leading_zeros() as u64;
        t += x.trailing_zeros() as u64;
    }
    let pairs = v.len().saturating_sub(1);
    m.insert("xor_leading_zeros_avg", if pairs == 0 { 64.0 } else { l as f64 / pairs as f64 });
    m.insert("xor_trailing_zeros_avg", if pairs == 0 { 64.0 } else { t as f64 / pairs as f64 });
    let d: std::collections::HashSet<u64> = v.iter().map(|x| x.to_bits()).collect();
    m.insert("non_unique_value_ratio", if v.is_empty() { 0.0 } else { (v.len() - d.len()) as f64 / n });
    m.insert("num_values", n);
    m
}

const CONFIG_NAMES: [(&str, Codec); 13] = [
    ("uncompressed", Codec::Uncompressed),
    ("chimp128", Codec::Chimp128),
    ("chimp", Codec::Chimp),
    ("elf_on_chimp", Codec::ElfOnChimp),
    ("elf", Codec::Elf),
    ("gorilla", Codec::Gorilla),
    ("rle", Codec::Rle),
    ("zstd", Codec::Zstd),
    ("gzip", Codec::Gzip),
    ("snappy", Codec::Snappy),
    ("ffi_alp", Codec::Alp),
    ("delta_sprintz", Codec::Sprintz),
    ("buff", Codec::Buff),
];

fn names_in(p: &Path) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(p).map(|d| d.filter_map(|e| Some(e.ok()?.file_name().to_string_lossy().into_owned())).collect()).unwrap_or_default();
    v.sort();
    v
}

/// The thirteen configurations for data whose scale needs `k` places.
fn judge_configs(dir: &Path, k: u64, what: &str) -> CaseResult {
    let mut want: Vec<String> = CONFIG_NAMES.iter().filter(|(_, c)| !c.scaled() || k <= 19).map(|(n, _)| format!("{n}.json")).collect();
    want.sort();
    let got = names_in(dir);
    ensure!(got == want, "config-set", "{what}: configurations written: {got:?}, expected {want:?}");
    for (n, codec) in CONFIG_NAMES {
        if codec.scaled() && k > 19 {
            continue;
        }
        let v = json(&dir.join(format!("{n}.json"))).map_err(|e| viol!("config", "{what}: {e}"))?;
        let w = serde_json::to_value(config(codec, k.min(19) as u32)).unwrap();
        ensure!(v["compressor_config"] == w, "config", "{what}: {n}.json holds {}, expected {w} ({k} places)", v["compressor_config"]);
        let o = serde_json::to_value(ebi::encoder::ChunkOption::RecordCount(128 * 1024 * 1024 / 8)).unwrap();
        ensure!(v["chunk_option"] == o, "config-chunk", "{what}: {n}.json has chunk option {}, expected {o}", v["chunk_option"]);
    }
    Ok(())
}

fn pred_json(name: &str, sorted: &[f64]) -> (String, f64) {
    let n = sorted.len();
    let (form, i) = match name {
        "greater_10th_percentile" => ("gt", n * 10 / 100),
        "greater_50th_percentile" => ("gt", n / 2),
        "greater_90th_percentile" => ("gt", n * 90 / 100),
        "eq" => ("eq", n / 2),
        _ => ("ne", n / 2),
    };
    (form.into(), sorted[i])
}

const FILTERS: [&str; 5] = ["greater_10th_percentile", "greater_50th_percentile", "greater_90th_percentile", "eq", "ne"];

fn judge_filters(dir: &Path, vals: &[f64], what: &str) -> CaseResult {
    let mut want: Vec<String> = FILTERS.iter().map(|n| format!("{n}.json")).collect();
    want.sort();
    let got = names_in(dir);
    ensure!(got == want, "filter-set", "{what}: filter configurations {got:?}, expected {want:?}");
    let mut sorted = vals.to_vec();
    sorted.sort_by(|a, b| a.partial_cmp(b).unwrap());
    for n in FILTERS {
        let v = json(&dir.join(format!("{n}.json"))).map_err(|e| viol!("filter-config", "{what}: {e}"))?;
        ensure!(v["chunk_id"].is_null() && v["bitmask"].is_null(), "filter-config", "{what}: {n}.json restricts the records: {v}");
        let p: Predicate = serde_json::from_value(v["predicate"].clone()).map_err(|e| viol!("filter-config", "{what}: {n}.json: {e}"))?;
        let (form, x) = pred_json(n, &sorted);
        let ok = match (&p, form.as_str()) {
            (Predicate::Eq(y), "eq") => *y == x,
            (Predicate::Ne(y), "ne") => *y == x,
            (Predicate::Range(r), "gt") => matches!(r.start(), RangeValue::Exclusive(y) if y == x) && matches!(r.end(), RangeValue::None),
            _ => false,
        };
        ensure!(ok, "filter-config", "{what}: {n}.json asks for {p:?}, the percentile is {x:e} of {} records", vals.len());
    }
    Ok(())
}

/// C25: csv2bin, collect-stats and the two configuration generators.
pub fn c25(c: &mut Case) -> CaseResult {
    let s = Scratch::new(c);
    let data = s.0.join("data");
    std::fs::create_dir(&data).unwrap();
    if c.index % 997 == 5 {
        return many_zeros(c, &s, &data);
    }
    let nt = 1 + c.rng.usize(4);
    let tables: Vec<Table> = (0..nt).map(|i| gen_table(c, i)).collect();
    for t in &tables {
        std::fs::write(data.join(&t.name), &t.text).unwrap();
        c.note(format!("{} ({} numbers, good {}) {:?}", t.name, t.vals.len(), t.good, t.text.chars().take(60).collect::<String>()));
        c.sign(crate::rng::hash_bytes(t.text.as_bytes()));
    }
    let glob = if c.rng.chance(1, 2) { "data/*".to_string() } else { format!("{}/*", data.display()) };
    let bin = data.join("binary");
    // a second conversion replaces the first
    if c.rng.chance(1, 4) {
        std::fs::create_dir(&bin).unwrap();
        for t in &tables {
            std::fs::write(bin.join(format!("{}.bin", t.stem)), le(&[1.0; 40])).unwrap();
        }
    }
    let limit = c.rng.chance(1, 4).then(|| c.rng.below(c.rng.clone().pick(&[9u64, 300, 9000])));
    run(c, &s.0, "csv2bin", &[&glob], limit)?;
    let mut expect_bins: Vec<String> = vec![];
    for t in &tables {
        let p = bin.join(format!("{}.bin", t.stem));
        let want = le(&t.vals);
        if !t.good {
            ensure!(!p.exists(), "bad-input-kept", "csv2bin: {} does not parse but {} was left behind", t.name, p.file_name().unwrap().to_string_lossy());
            c.count("unparsable files", 1);
            continue;
        }
        match std::fs::read(&p) {
            Ok(b) => {
                ensure!(
                    b == want,
                    if limit.is_some() { "incomplete-output" } else { "csv2bin" },
                    "csv2bin: {} ({} numbers) became {} bytes{}; write limit {limit:?}",
                    t.name, t.vals.len(), b.len(),
                    first_diff(&to_f64(&b), &t.vals).map(|d| format!(": {d}")).unwrap_or_default()
                );
                expect_bins.push(format!("{}.bin", t.stem));
                c.count("files converted", 1);
                c.count("numbers converted", t.vals.len() as u64);
            }
            Err(e) => {
                ensure!(limit.is_some_and(|l| l < want.len() as u64), "csv2bin", "csv2bin: {} was not converted: {e}", t.name);
                c.count("conversions refused for lack of space", 1);
            }
        }
    }
    expect_bins.sort();
    let got = names_in(&bin);
    ensure!(got == expect_bins, "csv2bin", "csv2bin left {got:?} in binary/, expected {expect_bins:?}");
    for t in &tables {
        ensure!(std::fs::read_to_string(data.join(&t.name)).ok().as_deref() == Some(&t.text), "input-changed", "csv2bin changed its input {}", t.name);
    }

    match c.rng.below(3) {
        0 => {
            run(c, &s.0, "collect-stats", &[&glob], None)?;
            let v = json(&s.0.join("stats.json")).map_err(|e| viol!("stats", "collect-stats: {e}"))?;
            let have: Vec<String> = v.as_object().map(|o| o.keys().cloned().collect()).unwrap_or_default();
            let mut want: Vec<String> = tables.iter().filter(|t| t.good).map(|t| t.stem.clone()).collect();
            want.sort();
            let mut have2 = have.clone();
            have2.sort();
            ensure!(have2 == want, "stats", "collect-stats reported on {have2:?}, expected {want:?}");
            for t in tables.iter().filter(|t| t.good) {
                let mag = t.vals.iter().fold(1.0f64, |a, b| a.max(b.abs()));
                for (k, w) in stats_of(&t.nums, &t.vals) {
                    let g = v[&t.stem][k].as_f64();
                    let scale = if k.starts_with("value_") { mag } else { 1.0 };
                    let ok = if ["value_max", "value_min"].contains(&k) { g.is_some_and(|g| (g - w).abs() <= 1e-14 * w.abs() + 1e-321) } else { g.is_some_and(|g| near(g, w, scale)) };
                    ensure!(ok, format!("stats:{k}"), "collect-stats: {} of {} is {}, expected {w} ({} numbers)", k, t.name, v[&t.stem][k], t.vals.len());
                    c.count("statistics compared", 1);
                }
                c.nontrivial |= t.vals.len() > 1;
            }
        }
        1 => {
            let exact = c.rng.chance(1, 2);
            let one = c.rng.chance(1, 3).then(|| c.rng.usize(nt));
            let arg = one.map_or(glob.clone(), |i| format!("{}", data.join(&tables[i].name).display()));
            let od = s.0.join("configs");
            let ods = od.to_string_lossy().into_owned();
            let mut a = vec!["-i", arg.as_str(), "create-default-compressor-config"];
            if one.is_some() {
                a.extend(["-o", ods.as_str()]);
            }
            if exact {
                a.push("--exact-precision");
            }
            run(c, &s.0, "experimenter", &a, None)?;
            for (i, t) in tables.iter().enumerate() {
                if one.is_some_and(|o| o != i) || !t.good {
                    continue;
                }
                let dir = if one.is_some() { od.clone() } else { s.0.join("compressor_configs").join(&t.stem) };
                if t.nums.is_empty() {
                    ensure!(!dir.exists(), "config", "configurations were made for {}, which holds no number", t.name);
                    continue;
                }
                let mut p: Vec<u64> = t.nums.iter().map(|x| places(x)).collect();
                p.sort();
                p.reverse();
                // the largest number of places that at least 1 % of the numbers have
                let k = if exact { p[0] } else { *p.iter().filter(|x| p.iter().filter(|y| y >= x).count() as f64 / p.len() as f64 >= 0.01).max().unwrap() };
                c.count(if k < p[0] { "scales that leave out a few numbers" } else { "scales that fit all numbers" }, 1);
                judge_configs(&dir, k, &format!("{} (exact {exact}, places up to {})", t.name, p[0]))?;
                c.count("configuration sets compared", 1);
                c.nontrivial |= t.nums.len() > 1;
            }
        }
        _ => {
            let pat = format!("{}/binary/*.bin", data.display());
            // a file that cannot be used does not stop the others
            let extra = c.rng.below(3);
            let _ = std::fs::create_dir_all(&bin);
            let bad: Option<Vec<f64>> = match extra {
                0 => Some(vec![]),
                1 => Some(vec![1.0, f64::NAN, 2.0]),
                _ => None,
            };
            if let Some(b) = &bad {
                std::fs::write(bin.join("00bad.bin"), le(b)).unwrap();
                c.count("unusable files", 1);
            }
            let one = (bad.is_none() && expect_bins.len() == 1 && c.rng.chance(1, 2)).then(|| s.0.join("fc"));
            let ods = one.as_ref().map(|p| p.to_string_lossy().into_owned()).unwrap_or_default();
            let mut a = vec!["-i", pat.as_str(), "create-filter-config"];
            if one.is_some() {
                a.extend(["-o", ods.as_str()]);
            }
            run(c, &s.0, "experimenter", &a, None)?;
            if bad.is_some() {
                let d = data.join("filter_config").join("00bad");
                ensure!(names_in(&d).is_empty(), "filter-config", "filters were made for records {bad:?}");
            }
            for t in tables.iter().filter(|t| expect_bins.contains(&format!("{}.bin", t.stem))) {
                let dir = one.clone().unwrap_or_else(|| data.join("filter_config").join(&t.stem));
                if t.vals.is_empty() {
                    ensure!(names_in(&dir).is_empty(), "filter-config", "filters were made for {}, which holds no record", t.stem);
                    continue;
                }
                judge_filters(&dir, &t.vals, &t.name)?;
                c.count("filter sets compared", 1);
                c.nontrivial |= t.vals.len() > 1;
            }
        }
    }
    Ok(())
}

/// Enough zeros for sums of exponents to leave 32 bits.
fn many_zeros(c: &mut Case, s: &Scratch, data: &Path) -> CaseResult {
    let n = 2_100_000 + c.rng.usize(100_000);
    let mut text = String::with_capacity(n * 2 + 10);
    for i in 0..n {
        text.push_str(if i % 1000 == 999 { "0\n" } else { "0," });
    }
    text.push('0');
    std::fs::write(data.join("zeros.csv"), text).unwrap();
    c.note(format!("{} zeros", n + 1));
    run(c, &s.0, "collect-stats", &["data/*"], None)?;
    let v = json(&s.0.join("stats.json")).map_err(|e| viol!("stats", "collect-stats: {e}"))?;
    let v = &v["zeros"];
    ensure!(
        v["num_values"] == Value::from(n + 1) && v["exponent_avg"].as_f64() == Some(-1023.0) && v["exponent_std"].as_f64() == Some(0.0) && v["value_avg"].as_f64() == Some(0.0),
        "stats:many",
        "collect-stats on {} zeros: {v}", n + 1
    );
    c.count("large files", 1);
    Ok(())
}

// ---------------------------------------------------------------- C26

/// A point that any JSON reader gets right.
fn simple(x: f64) -> bool {
    x.is_finite() && format!("{:e}", x.abs()).split('e').next().unwrap().replace('.', "").len() <= 15 && (x == 0.0 || (1e-7..1e17).contains(&x.abs()))
}

fn simple_pred(p: &Predicate) -> bool {
    match p {
        Predicate::Eq(x) | Predicate::Ne(x) => simple(*x),
        Predicate::Range(r) => [r.start(), r.end()].iter().all(|e| match e {
            RangeValue::Inclusive(x) | RangeValue::Exclusive(x) => simple(*x),
            RangeValue::None => true,
        }),
    }
}

fn gen_simple_pred(c: &mut Case, w: &World) -> Predicate {
    for _ in 0..50 {
        let p = world_pred(c, w);
        let decided = w.grid.is_none() || (0..w.n()).all(|i| w.expect(&p, i) != Tri::Open);
        if simple_pred(&p) && decided {
            return p;
        }
    }
    Predicate::Ne(0.0)
}

struct Book {
    /// every result file seen so far, with its content
    files: BTreeMap<PathBuf, Vec<u8>>,
}
impl Book {
    /// Results of an earlier day: `count` of them, perhaps with one removed since.
    fn seed(&mut self, dir: &Path, count: usize, gap: Option<usize>) {
        std::fs::create_dir_all(dir).unwrap();
        for i in (0..count).filter(|i| Some(*i) != gap) {
            let p = dir.join(format!("{i:03}.json"));
            let b = format!("{{\"kept\": {i}}}").into_bytes();
            std::fs::write(&p, &b).unwrap();
            self.files.insert(p, b);
        }
    }
    /// Exactly one new file `dir/NNN.json` (the next number); nothing that was there before changed.
    fn next(&mut self, dir: &Path, what: &str) -> Result<Value, Viol> {
        for (p, b) in &self.files {
            let now = std::fs::read(p).ok();
            ensure!(now.as_ref() == Some(b), "result-overwritten", "{what}: the earlier result {} was changed or removed", p.file_name().unwrap().to_string_lossy());
        }
        let had: Vec<String> = self.files.keys().filter(|p| p.parent() == Some(dir)).map(|p| p.file_name().unwrap().to_string_lossy().into_owned()).collect();
        let names = names_in(dir);
        ensure!(names.len() == had.len() + 1, "result-missing", "{what}: {} result files in {}, expected {}: {names:?}", names.len(), dir.file_name().unwrap().to_string_lossy(), had.len() + 1);
        // the first free number; where an earlier result was removed, the one after the last will do as well
        let n = if names.contains(&format!("{:03}.json", first_free(&had))) { first_free(&had) } else { after_last(&had) };
        let p = dir.join(format!("{n:03}.json"));
        let b = std::fs::read(&p).map_err(|e| viol!("result-missing", "{what}: {n:03}.json: {e}"))?;
        let v = serde_json::from_slice(&b).map_err(|e| viol!("result-json", "{what}: {n:03}.json: {e}"))?;
        self.files.insert(p, b);
        Ok(v)
    }
}

fn first_free(had: &[String]) -> usize {
    (0..).find(|i| !had.iter().any(|h| h.trim_end_matches(".json") == format!("{i:03}"))).unwrap()
}

fn after_last(had: &[String]) -> usize {
    had.iter().filter_map(|h| h.trim_end_matches(".json").parse::<usize>().ok()).max().map_or(0, |x| x + 1)
}

fn times_ok(v: &Value, wall: u128, what: &str) -> CaseResult {
    let e = v["elapsed_time_nanos"].as_u64();
    ensure!(e.is_some_and(|e| (e as u128) <= wall), "times", "{what}: elapsed_time_nanos {} although the whole program took {wall} ns", v["elapsed_time_nanos"]);
    let t = v["execution_times"].as_object().cloned().unwrap_or_default();
    ensure!(!t.is_empty(), "times", "{what}: no execution times: {}", v["execution_times"]);
    let mut sum = 0u128;
    for x in t.values() {
        sum += x.as_u64().unwrap_or(0) as u128;
    }
    ensure!(sum <= e.unwrap() as u128, "times", "{what}: segments of {sum} ns in {} ns", e.unwrap());
    Ok(())
}

fn stats_ok(v: &Value, n: usize, file: &[u8], what: &str) -> CaseResult {
    let d = open(file).map_err(|e| viol!("encoded", "{what}: the encoded file does not open: {e}"))?;
    let chunks: u64 = d.total_chunk_size();
    let f = d.chunk_footers();
    let first = f.iter().next().map_or(0, |x| x.physical_offset());
    let raw = n as f64 * 8.0;
    ensure!(v["uncompressed_size"].as_u64() == Some(n as u64 * 8), "statistics", "{what}: uncompressed_size {}, {n} records", v["uncompressed_size"]);
    ensure!(v["compressed_size"].as_u64() == Some(file.len() as u64), "statistics", "{what}: compressed_size {}, the file has {} bytes", v["compressed_size"], file.len());
    ensure!(v["compressed_size_chunk_only"].as_u64() == Some(chunks) && chunks + first <= file.len() as u64, "statistics", "{what}: compressed_size_chunk_only {}, chunks have {chunks} bytes", v["compressed_size_chunk_only"]);
    if n > 0 {
        for (k, num) in [("compression_ratio", file.len() as f64), ("compression_ratio_chunk_only", chunks as f64)] {
            ensure!(v[k].as_f64().is_some_and(|g| near(g, num / raw, 0.0)), "statistics", "{what}: {k} {}, expected {}", v[k], num / raw);
        }
    }
    ensure!(v["compression_elapsed_time_nano_secs"].as_u64() == Some(d.footer().compression_elapsed_time_nano_secs() as u64), "statistics", "{what}: compression_elapsed_time_nano_secs {} differs from the file", v["compression_elapsed_time_nano_secs"]);
    Ok(())
}

/// Does this encoded file hold what the world holds?
fn judge_ebi(w: &World, file: &[u8], what: &str) -> CaseResult {
    let mut d = open(file).map_err(|e| viol!("encoded", "{what}: the encoded file does not open: {e}"))?;
    let got = materialize(&mut d, None, None).map_err(|e| viol!("encoded", "{what}: {e}"))?;
    if let Some(x) = first_diff(&got, &w.model) {
        return Err(viol!("encoded", "{what}: the encoded file reads back differently: {x}"));
    }
    let b = bounds(&d);
    ensure!(b == w.bounds, "encoded", "{what}: chunks {:?}, expected {:?}", &b[..b.len().min(9)], &w.bounds[..w.bounds.len().min(9)]);
    Ok(())
}

/// C26: the commands of the experiment driver.
pub fn c26(c: &mut Case) -> CaseResult {
    if (c.index / 8) % 8 == 7 {
        return all_command(c);
    }
    if (c.index / 8) % 8 == 3 && c.index % 8 < 3 {
        return several(c);
    }
    let s = Scratch::new(c);
    let bin = s.0.join("data").join("binary");
    std::fs::create_dir_all(&bin).unwrap();
    let codec = ALL[c.rng.usize(ALL.len())];
    let n = gen_len(&mut c.rng, 400);
    let o = gen_chunk(&mut c.rng, n);
    let w = world_of(c, codec, n, Data::Dyadic, o)?;
    let cfg = open(&w.bytes).map(|d| *d.footer().compressor_config()).map_err(|e| viol!("open-failed", "{e}"))?;
    let cfg_json = serde_json::json!({"chunk_option": w.option, "compressor_config": cfg});
    let stem = c.rng.pick(&["abc", "a.b", "X-1"]);
    let raw = bin.join(format!("{stem}.bin"));
    let ebi = bin.join(format!("{stem}.ebi"));
    std::fs::write(&raw, le(&w.orig)).unwrap();
    std::fs::write(s.0.join("compress.json"), cfg_json.to_string()).unwrap();
    let mut book = Book { files: BTreeMap::new() };
    let results = s.0.join("data").join("result").join(stem);
    if c.rng.chance(1, 3) {
        for sub in ["compress", "filter", "filter_materialize", "materialize", "max", "sum"] {
            let count = c.rng.pick(&[1usize, 2, 5, 12, 99, 100, 101]);
            let gap = c.rng.chance(1, 3).then(|| c.rng.usize(count));
            book.seed(&results.join(sub), count, gap);
            c.count("earlier results present", count as u64);
        }
    }
    if c.rng.chance(1, 3) {
        // a longer file from an earlier run
        std::fs::write(&ebi, vec![0xa5u8; w.bytes.len() + 1 + c.rng.usize(5000)]).unwrap();
        c.count("longer files in the way", 1);
    }
    let steps = 3 + c.rng.usize(5);
    let mut have_ebi: Option<Vec<u8>> = None;
    for step in 0..steps {
        let mem = c.rng.chance(1, 2);
        let k = if step == 0 { 0 } else { c.rng.below(9) };
        let rel = c.rng.chance(1, 4);
        let sel_needed = k != 0;
        let chunk = if sel_needed { gen_chunk_sel(c, &w) } else { None };
        let mask = if sel_needed { gen_mask(&mut c.rng, w.n(), &w.bounds).0 } else { None };
        let mask = mask.filter(|m| m.len() < 3000);
        let sel = w.selected(mask.as_ref(), chunk);
        let mut mlist: Option<Vec<u32>> = mask.as_ref().map(|m| m.iter().collect());
        if let Some(l) = mlist.as_mut().filter(|l| l.len() > 1) {
            // the list in the configuration is a set, in any order
            if c.rng.chance(1, 3) {
                for i in (1..l.len()).rev() {
                    l.swap(i, c.rng.usize(i + 1));
                }
                c.count("selections out of order", 1);
            }
            if c.rng.chance(1, 6) {
                let again = l[c.rng.usize(l.len())];
                l.push(again);
            }
        }
        let (cmd, sub, mut cj) = match k {
            0 => ("compress", "compress", cfg_json.clone()),
            1 | 2 => ("filter", "filter", serde_json::json!({})),
            3 | 4 => ("filter-materialize", "filter_materialize", serde_json::json!({})),
            5 | 6 => ("materialize", "materialize", serde_json::json!({})),
            7 => ("max", "max", serde_json::json!({})),
            _ => ("sum", "sum", serde_json::json!({})),
        };
        let mut pred = None;
        if k != 0 {
            cj["chunk_id"] = serde_json::to_value(chunk).unwrap();
            cj["bitmask"] = serde_json::to_value(&mlist).unwrap();
            if k <= 4 {
                let p = gen_simple_pred(c, &w);
                cj["predicate"] = serde_json::to_value(p).unwrap();
                pred = Some(p);
            }
        }
        std::fs::write(s.0.join("config.json"), cj.to_string()).unwrap();
        let input = if k == 0 { &raw } else { &ebi };
        let input = if rel { format!("data/binary/{}", input.file_name().unwrap().to_string_lossy()) } else { input.display().to_string() };
        let mut a = vec!["-i", input.as_str(), cmd, "-c", "config.json"];
        if mem {
            a.extend(["--in-memory", "true"]);
        } else if c.rng.chance(1, 3) {
            a.extend(["--in-memory", "false"]);
        }
        let what = format!("{}: experimenter {cmd} in_memory {mem} {:?} {} chunk {chunk:?}", w.what, pred, show_mask(mask.as_ref()));
        c.count(&format!("command {cmd}"), 1);
        if !mem && (3..=6).contains(&k) && c.rng.chance(1, 3) {
            let p = bin.join(format!("{stem}.{}", if k <= 4 { "filter_materialized" } else { "materialized" }));
            std::fs::write(&p, vec![0x5au8; w.n() * 8 + 8 + c.rng.usize(3000)]).unwrap();
            c.count("longer files in the way", 1);
        }
        // no room for the results?
        let limit = (step > 0 && c.rng.chance(1, 10)).then(|| c.rng.below(2000));
        let t0 = std::time::Instant::now();
        let out = run(c, &s.0, "experimenter", &a, limit)?;
        let wall = t0.elapsed().as_nanos();
        if let Some(l) = limit {
            // whatever was reported as done has to be complete
            let dir = results.join(sub);
            let reported = out.ok && out.stdout.contains("Finished");
            let had: Vec<String> = book.files.keys().filter(|p| p.parent() == Some(&dir)).map(|p| p.file_name().unwrap().to_string_lossy().into_owned()).collect();
            let known = first_free(&had);
            let whole = [known, after_last(&had)].iter().any(|k| json(&dir.join(format!("{k:03}.json"))).is_ok_and(|v| !v["result_string"].is_null()));
            let printed = out.stderr.contains("result_string");
            ensure!(!reported || whole || printed, "lost-result", "{what}: reported as finished, but the result is neither in {known:03}.json nor printed (write limit {l} bytes)");
            if k == 0 && reported && whole {
                judge_ebi(&w, &std::fs::read(&ebi).unwrap_or_default(), &what)?;
            }
            c.count("runs without room", 1);
            c.nontrivial |= n > 0;
            return Ok(());
        }
        let v = book.next(&results.join(sub), &what)?;
        ensure!(out.ok, "exit", "{what}: exit status {}", tail(&out.stderr));
        ensure!(v["in_memory"] == Value::from(mem), "report", "{what}: in_memory {}", v["in_memory"]);
        ensure!(v["input_filename"].as_str() == Some(input.as_str()), "report", "{what}: input_filename {}", v["input_filename"]);
        ensure!(v["config_path"].as_str() == Some("config.json"), "report", "{what}: config_path {}", v["config_path"]);
        ensure!(v["compression_config"] == cfg_json, "report", "{what}: compression_config {}, expected {cfg_json}", v["compression_config"]);
        times_ok(&v, wall, &what)?;
        let text = v["result_string"].as_str().unwrap_or("").to_string();
        if k == 0 {
            let file = std::fs::read(&ebi).map_err(|e| viol!("encoded", "{what}: {e}"))?;
            judge_ebi(&w, &file, &what)?;
            stats_ok(&v["command_specific"], n, &file, &what)?;
            ensure!(text.ends_with(&format!(" {n}")), "report", "{what}: {text:?} for {n} records");
            have_ebi = Some(file);
        } else {
            let named = |v: &Value| v.as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect::<std::collections::BTreeSet<_>>());
            ensure!(named(&v["command_specific"]["bitmask"]) == named(&cj["bitmask"]) && v["command_specific"]["chunk_id"] == cj["chunk_id"], "report", "{what}: the report names another selection");
            if let Some(p) = pred {
                let q: Result<Predicate, _> = serde_json::from_value(v["command_specific"]["predicate"].clone());
                ensure!(q.is_ok_and(|q| q == p), "report", "{what}: the report names the predicate {}", v["command_specific"]["predicate"]);
            }
            let hits: Vec<usize> = match &pred {
                Some(p) => sel.iter().cloned().filter(|&i| w.expect(p, i) == Tri::Yes).collect(),
                None => sel.clone(),
            };
            let want: Vec<f64> = hits.iter().map(|&i| w.model[i]).collect();
            match cmd {
                "filter" => {
                    let b = RoaringBitmap::from_iter(hits.iter().map(|&i| i as u32));
                    ensure!(text == format!("{b:?}"), "answer", "{what}: reported {text}, expected {b:?}");
                }
                "max" => {
                    let g: f64 = text.parse().map_err(|_| viol!("answer", "{what}: reported {text:?}"))?;
                    super::query::judge_minmax(&w, &sel, g, false, &what)?;
                }
                "sum" => {
                    let g: f64 = text.parse().map_err(|_| viol!("answer", "{what}: reported {text:?}"))?;
                    super::query::judge_sum(&w, &sel, g, &what)?;
                }
                _ => {
                    if mem {
                        ensure!(text.ends_with(&format!(" {}", want.len() * 8)), "answer", "{what}: reported {text}, expected {} bytes", want.len() * 8);
                    } else {
                        let p = bin.join(format!("{stem}.{}", if k <= 4 { "filter_materialized" } else { "materialized" }));
                        let b = std::fs::read(&p).map_err(|e| viol!("answer", "{what}: {e}"))?;
                        if let Some(x) = first_diff(&to_f64(&b), &want) {
                            return Err(viol!("answer", "{what}: the output file: {x}"));
                        }
                        ensure!(b.len() == want.len() * 8, "answer", "{what}: the output file has {} bytes", b.len());
                        ensure!(text.contains(&format!("len: {},", b.len())), "answer", "{what}: {} bytes written, reported {text}", b.len());
                        let _ = std::fs::remove_file(&p);
                    }
                }
            }
            c.count("records in answers", hits.len() as u64);
            c.nontrivial |= !hits.is_empty();
            ensure!(std::fs::read(&ebi).ok() == have_ebi, "input-changed", "{what}: the encoded file was changed");
        }
        ensure!(std::fs::read(&raw).ok() == Some(le(&w.orig)), "input-changed", "{what}: the records were changed");
        c.count("results checked", 1);
    }
    // nothing else appeared
    let mut left = names_in(&bin);
    left.retain(|f| *f != format!("{stem}.bin") && *f != format!("{stem}.ebi"));
    ensure!(left.is_empty(), "stray-files", "{}: files left in the data directory: {left:?}", w.what);
    Ok(())
}

/// One command over several files, some of which it can do nothing with.
fn several(c: &mut Case) -> CaseResult {
    let s = Scratch::new(c);
    let bin = s.0.join("data").join("binary");
    std::fs::create_dir_all(&bin).unwrap();
    let nf = 2 + c.rng.usize(3);
    let odd = c.rng.chance(2, 3).then(|| c.rng.usize(nf));
    let dir = c.rng.chance(1, 3).then(|| c.rng.usize(nf));
    let mut book = Book { files: BTreeMap::new() };
    let mut worlds = vec![];
    for i in 0..nf {
        let stem = format!("f{i}");
        if Some(i) == dir {
            std::fs::create_dir(bin.join(format!("{stem}.ebi"))).unwrap();
            continue;
        }
        if Some(i) == odd {
            // not a file of ours
            let len = c.rng.usize(400);
            std::fs::write(bin.join(format!("{stem}.ebi")), vec![0x11u8; len]).unwrap();
            continue;
        }
        let codec = ALL[c.rng.usize(ALL.len())];
        let n = gen_len(&mut c.rng, 200);
        let o = gen_chunk(&mut c.rng, n);
        let w = world_of(c, codec, n, Data::Dyadic, o)?;
        std::fs::write(bin.join(format!("{stem}.ebi")), &w.bytes).unwrap();
        if c.rng.chance(1, 3) {
            let count = 1 + c.rng.usize(4);
            book.seed(&s.0.join("data").join("result").join(&stem).join("sum"), count, None);
        }
        worlds.push((stem, w));
    }
    std::fs::write(s.0.join("config.json"), r#"{"chunk_id": null, "bitmask": null}"#).unwrap();
    let mem = c.rng.chance(1, 2);
    let mut a = vec!["-i", "data/binary/*.ebi", "sum", "-c", "config.json"];
    if mem {
        a.extend(["--in-memory", "true"]);
    }
    let t0 = std::time::Instant::now();
    let out = run(c, &s.0, "experimenter", &a, None)?;
    let wall = t0.elapsed().as_nanos();
    for (stem, w) in &worlds {
        let what = format!("{}: {stem}.ebi of {nf} files (unusable: {odd:?}, a directory: {dir:?}), experimenter sum in_memory {mem}, {}", w.what, tail(&out.stderr));
        let v = book.next(&s.0.join("data").join("result").join(stem).join("sum"), &what)?;
        ensure!(v["input_filename"].as_str() == Some(&format!("data/binary/{stem}.ebi")), "report", "{what}: input_filename {}", v["input_filename"]);
        let cfg = open(&w.bytes).map(|d| *d.footer().compressor_config()).map_err(|e| viol!("open-failed", "{e}"))?;
        ensure!(v["compression_config"] == serde_json::json!({"chunk_option": w.option, "compressor_config": cfg}), "report", "{what}: compression_config {}", v["compression_config"]);
        times_ok(&v, wall, &what)?;
        let g: f64 = v["result_string"].as_str().unwrap_or("").parse().map_err(|_| viol!("answer", "{what}: reported {}", v["result_string"]))?;
        super::query::judge_sum(w, &w.selected(None, None), g, &what)?;
        ensure!(std::fs::read(bin.join(format!("{stem}.ebi"))).ok().as_ref() == Some(&w.bytes), "input-changed", "{what}: the encoded file was changed");
        c.count("results checked", 1);
        c.nontrivial |= w.n() > 0;
    }
    let got = names_in(&s.0.join("data").join("result"));
    let want: Vec<String> = worlds.iter().map(|x| x.0.clone()).collect();
    ensure!(got == want, "result-extra", "results for {got:?}, expected {want:?} (unusable: {odd:?}, a directory: {dir:?})");
    c.count("commands over several files", 1);
    Ok(())
}

/// `experimenter all` as in the README: conversion, configurations, every codec, every query.
fn all_command(c: &mut Case) -> CaseResult {
    let s = Scratch::new(c);
    let data = s.0.join("data");
    for d in ["data", "save", "cc", "data/fc"] {
        std::fs::create_dir(s.0.join(d)).unwrap();
    }
    let nd = 1 + c.rng.usize(2);
    let mut sets: Vec<(String, Vec<f64>, u32)> = vec![];
    for i in 0..nd {
        let n = 1 + c.rng.usize(300);
        let k = if c.rng.chance(1, 3) { c.rng.pick(&[8u32, 11, 12, 13, 15, 18]) } else { c.rng.below(5) as u32 };
        let mut text = String::new();
        let mut vals = vec![];
        let lim = c.rng.pick(&[20i64, 3000, 900_000, 900_000_000_000]);
        for _ in 0..n {
            let x = c.rng.range(-lim, lim);
            let t = if k == 0 {
                format!("{x}")
            } else {
                let a = x.unsigned_abs();
                let m = 10u64.pow(k);
                format!("{}{}.{:0w$}", if x < 0 { "-" } else { "" }, a / m, a % m, w = k as usize)
            };
            vals.push(t.parse().unwrap());
            text.push_str(&t);
            text.push(if c.rng.chance(1, 5) { '\n' } else { ',' });
        }
        let name = format!("set{i}");
        std::fs::write(data.join(format!("{name}.csv")), &text).unwrap();
        c.sign(crate::rng::hash_bytes(text.as_bytes()));
        c.note(format!("{name}: {n} numbers with {k} places"));
        sets.push((name, vals, k));
    }
    run(c, &s.0, "csv2bin", &["data/*"], None)?;
    let runs = c.rng.pick(&[1usize, 1, 2, 2, 3, 5]);
    let rs = runs.to_string();
    let mem = c.rng.chance(1, 2);
    let mut a = vec!["all", "-c", "cc", "--exact-precision", "-f", "data/fc", "-b", "data/binary", "--create-config", "--n", rs.as_str(), "-s", "save"];
    if mem {
        a.push("--in-memory");
    }
    let t0 = std::time::Instant::now();
    let out = run(c, &s.0, "experimenter", &a, None)?;
    let wall = t0.elapsed().as_nanos();
    ensure!(out.ok, "exit", "experimenter all failed: {}", tail(&out.stderr));
    let mut book = Book { files: BTreeMap::new() };
    let dir = data.join("result").join("all");
    let v = book.next(&dir, "experimenter all")?;
    judge_all(c, &v, &sets, runs, mem, wall)?;
    c.count("complete experiments", 1);
    c.nontrivial = true;
    if c.rng.chance(1, 3) {
        // measure one data set or one codec again
        let first = dir.join("000.json");
        let fs = first.to_string_lossy().into_owned();
        let by_set = c.rng.below(3);
        let pd: Vec<&str> = if by_set == 0 { vec![] } else { sets.iter().map(|s| s.0.as_str()).filter(|_| c.rng.chance(1, 2)).collect() };
        let pc: Vec<&str> = if by_set == 1 && !pd.is_empty() { vec![] } else { (0..1 + c.rng.usize(3)).map(|_| c.rng.pick(&CONFIG_NAMES).0).collect() };
        let r2 = 1 + c.rng.usize(3);
        let r2s = r2.to_string();
        let _ = std::fs::remove_dir_all(s.0.join("save"));
        std::fs::create_dir(s.0.join("save")).unwrap();
        let mut a = vec!["-i", fs.as_str(), "all-patch", "-c", "cc", "-f", "data/fc", "-b", "data/binary", "--n", r2s.as_str(), "-s", "save"];
        let mem = c.rng.chance(1, 3);
        if mem {
            a.push("--in-memory");
        }
        for p in &pd {
            a.extend(["--pd", p]);
        }
        for p in &pc {
            a.extend(["--pc", p]);
        }
        let t0 = std::time::Instant::now();
        let out = run(c, &s.0, "experimenter", &a, None)?;
        let wall = t0.elapsed().as_nanos();
        ensure!(out.ok, "exit", "experimenter all-patch failed: {}", tail(&out.stderr));
        let patched = book.next(&data.join("result").join("all_patch"), "experimenter all-patch")?;
        for set in &sets {
            for (cn, codec) in CONFIG_NAMES {
                let m = format!("{:?}", codec.scheme());
                let (x, y) = (&v[&set.0][&m], &patched[&set.0][&m]);
                if !pd.contains(&set.0.as_str()) && !pc.contains(&cn) {
                    ensure!(same_json(x, y), "patch", "all-patch changed {} {m}, which was not to be measured again", set.0);
                    continue;
                }
                judge_entry(c, y, set, codec, r2, mem, wall, "all-patch")?;
                if codec != Codec::Buff || set.2 <= 12 {
                    ensure!(x["compress"][0]["datetime"] != y["compress"][0]["datetime"], "patch", "all-patch: {} {m} holds the old measurements", set.0);
                }
            }
        }
        c.count("experiments patched", 1);
    }
    Ok(())
}

/// Equal, except that reading and writing a number may move its last digit.
fn same_json(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| same_json(v, w))),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(v, w)| same_json(v, w)),
        (Value::Number(x), Value::Number(y)) if x.is_f64() && y.is_f64() => near(x.as_f64().unwrap(), y.as_f64().unwrap(), 0.0),
        _ => a == b,
    }
}

fn judge_all(c: &mut Case, v: &Value, sets: &[(String, Vec<f64>, u32)], runs: usize, mem: bool, wall: u128) -> CaseResult {
    for set in sets {
        for (_, codec) in CONFIG_NAMES {
            judge_entry(c, &v[&set.0][&format!("{:?}", codec.scheme())], set, codec, runs, mem, wall, "all")?;
        }
    }
    Ok(())
}

/// The measurements of one codec on one data set.
#[allow(clippy::too_many_arguments)]
fn judge_entry(c: &mut Case, e: &Value, (name, vals, k): &(String, Vec<f64>, u32), codec: Codec, runs: usize, mem: bool, wall: u128, cmd: &str) -> CaseResult {
    let mut sorted = vals.clone();
    sorted.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let what = format!("experimenter {cmd}: {name} ({} numbers, {k} places) with {:?}", vals.len(), codec.scheme());
    if codec == Codec::Buff && *k > 12 {
        // beyond what the codec supports: no measurement
        let some = ["compress", "materialize", "max", "sum"].iter().any(|p| e[*p].as_array().is_some_and(|a| !a.is_empty()));
        ensure!(!some, "all", "{what}: measured at a scale the codec does not support");
        c.count("codecs left out", 1);
        return Ok(());
    }
    ensure!(e.is_object(), "all", "{what}: no entry");
    for part in ["compress", "materialize", "max", "sum"] {
        let a = e[part].as_array().cloned().unwrap_or_default();
        ensure!(a.len() == runs, "all", "{what}: {} results of {part}, expected {runs}", a.len());
        for x in &a {
            times_ok(x, wall, &what)?;
            ensure!(x["in_memory"] == Value::from(mem), "all", "{what}: {part}: in_memory {}", x["in_memory"]);
            ensure!(x["compression_config"]["compressor_config"] == serde_json::to_value(config(codec, *k)).unwrap(), "all", "{what}: {part}: measured with {}", x["compression_config"]);
            let t = x["result_string"].as_str().unwrap_or("");
            let tol = if codec == Codec::Buff { crate::props::roundtrip::tol(codec, *k) } else { 1e-9 };
            match part {
                "compress" => {
                    ensure!(x["command_specific"]["uncompressed_size"].as_u64() == Some(vals.len() as u64 * 8), "all", "{what}: uncompressed_size {}", x["command_specific"]["uncompressed_size"]);
                }
                "materialize" => {
                    let b = vals.len() * 8;
                    ensure!(t.ends_with(&format!(" {b}")) || t.contains(&format!("len: {b},")), "all", "{what}: materialize reported {t}");
                }
                "max" => {
                    let g: f64 = t.parse().unwrap_or(f64::NAN);
                    ensure!((g - sorted[sorted.len() - 1]).abs() <= tol, "all", "{what}: max {t}, expected {}", sorted[sorted.len() - 1]);
                }
                _ => {
                    let g: f64 = t.parse().unwrap_or(f64::NAN);
                    let want: f64 = vals.iter().sum();
                    let mag: f64 = vals.iter().map(|x| x.abs()).sum();
                    ensure!((g - want).abs() <= tol * vals.len() as f64 + mag * 1e-11, "all", "{what}: sum {t}, expected {want}");
                }
            }
        }
    }
    let f = e["filters"].as_object().cloned().unwrap_or_default();
    ensure!(f.len() == 5, "all", "{what}: {} filters", f.len());
    for name in FILTERS {
        let (form, x) = pred_json(name, &sorted);
        let hit: Vec<u32> = (0..vals.len()).filter(|&i| match form.as_str() { "gt" => vals[i] > x, "eq" => vals[i] == x, _ => vals[i] != x }).map(|i| i as u32).collect();
        let b = RoaringBitmap::from_iter(hit.iter().cloned());
        for part in ["filter", "filter_materialize"] {
            let a = f[name][part].as_array().cloned().unwrap_or_default();
            ensure!(a.len() == runs, "all", "{what}: {} results of {name} {part}", a.len());
            for y in &a {
                let t = y["result_string"].as_str().unwrap_or("");
                if part == "filter" {
                    ensure!(t == format!("{b:?}"), "all", "{what}: {name}: {t}, expected {b:?}");
                } else {
                    ensure!(t.ends_with(&format!(" {}", hit.len() * 8)) || t.contains(&format!("len: {},", hit.len() * 8)), "all", "{what}: {name}: filter_materialize reported {t}, expected {} records", hit.len());
                }
            }
        }
    }
    c.count("measurements checked", runs as u64 * 14);
    Ok(())
}

// ---------------------------------------------------------------- C27

/// What a file of this codec gives back for these records.
fn stored(codec: Codec, k: u32, vals: &[f64]) -> Result<(Vec<f64>, usize), Viol> {
    let b = encode(vals, ebi::encoder::ChunkOption::RecordCount(128 * 1024 * 1024 / 8), config(codec, k)).map_err(|e| viol!("encode-failed", "{codec:?}: {e}"))?;
    let mut d = open(&b).map_err(|e| viol!("open-failed", "{codec:?}: {e}"))?;
    Ok((materialize(&mut d, None, None).map_err(|e| viol!("materialize-failed", "{codec:?}: {e}"))?, b.len()))
}

fn sizes_ok(v: &Value, codec: Codec, n: usize, len: usize, what: &str) -> CaseResult {
    // the programs may be linked with another deflate implementation than the monitor
    let slack = if codec == Codec::Gzip { 64 + len as u64 / 3 } else { 0 };
    ensure!(v["uncompressed_size"].as_u64() == Some(n as u64 * 8), "statistics", "{what}: uncompressed_size {}, {n} records", v["uncompressed_size"]);
    let got = v["compressed_size"].as_u64().unwrap_or(0);
    ensure!(got.abs_diff(len as u64) <= slack, "statistics", "{what}: compressed_size {}, the encoding has {len} bytes", v["compressed_size"]);
    let ch = v["compressed_size_chunk_only"].as_u64().unwrap_or(u64::MAX);
    ensure!(ch < got, "statistics", "{what}: compressed_size_chunk_only {ch} of {len}");
    for (k, num) in [("compression_ratio", got as f64), ("compression_ratio_chunk_only", ch as f64)] {
        ensure!(v[k].as_f64().is_some_and(|g| near(g, num / (n as f64 * 8.0), 0.0)), "statistics", "{what}: {k} {}", v[k]);
    }
    Ok(())
}

/// C27: the experiment reports (TPC-H, 1-NN, embeddings) state what the data says.
pub fn c27(c: &mut Case) -> CaseResult {
    match c.index % 3 {
        0 => tpch(c),
        1 => ucr(c),
        _ => embedding(c),
    }
}

/// Directories of earlier runs, perhaps with one removed since.
fn earlier_runs(c: &mut Case, base: &Path) -> Vec<String> {
    let k = c.rng.pick(&[0usize, 0, 1, 2, 3, 11]);
    let gap = if k > 0 && c.rng.chance(1, 3) { c.rng.usize(k) } else { k };
    let names: Vec<String> = (0..k).filter(|i| *i != gap).map(|i| format!("{i:03}")).collect();
    for n in &names {
        std::fs::create_dir_all(base.join(n)).unwrap();
        std::fs::write(base.join(n).join("kept"), n).unwrap();
    }
    names
}

/// Exactly one directory is new, the next one, and those of earlier runs are as they were.
fn next_run(base: &Path, had: &mut Vec<String>, what: &str) -> Result<PathBuf, Viol> {
    let got = names_in(base);
    let new: Vec<&String> = got.iter().filter(|g| !had.contains(g)).collect();
    let fits = |n: &String| *n == format!("{:03}", first_free(had)) || *n == format!("{:03}", after_last(had));
    ensure!(new.len() == 1 && got.len() == had.len() + 1 && fits(new[0]), "report-missing", "{what}: run directories {got:?} after {had:?}");
    for n in had.iter() {
        let d = base.join(n);
        if d.join("kept").exists() || names_in(&d).is_empty() {
            ensure!(names_in(&d) == ["kept"] && std::fs::read(d.join("kept")).ok() == Some(n.clone().into_bytes()), "earlier-run", "{what}: the earlier run {n} was changed: {:?}", names_in(&d));
        }
    }
    let p = base.join(new[0]);
    had.push(new[0].clone());
    Ok(p)
}

fn scalar(v: &Value) -> f64 {
    v["Scalar"].as_f64().or(v["Integer"].as_f64()).unwrap_or(f64::NAN)
}

fn tpch(c: &mut Case) -> CaseResult {
    let s = Scratch::new(c);
    for d in ["in", "out"] {
        std::fs::create_dir(s.0.join(d)).unwrap();
    }
    let mut cols: BTreeMap<(&str, &str), Vec<i64>> = BTreeMap::new();
    for f in ["h01", "h06"] {
        let n = match c.rng.below(4) {
            0 => 1 + c.rng.usize(5),
            1 => 1000 + c.rng.usize(1200),
            _ => 1 + c.rng.usize(300),
        };
        let mut names = vec!["l_quantity", "l_extendedprice", "l_discount"];
        if f == "h01" {
            names.push("l_tax");
        }
        // the order in the table is of no importance
        for i in (1..names.len()).rev() {
            let j = c.rng.usize(i + 1);
            names.swap(i, j);
        }
        let narrow = c.rng.chance(1, 2);
        let dear = if c.rng.chance(1, 3) { 1_000_000_000_000 } else { 10_000_000 };
        let mut text = String::new();
        if f == "h01" && c.rng.chance(2, 3) {
            text.push_str(&format!("l_returnflag s{}\n", " A".repeat(n)));
        }
        for name in names {
            let mut col = vec![];
            for _ in 0..n {
                col.push(match name {
                    "l_quantity" => if narrow { c.rng.range(2390, 2410) } else { c.rng.range(1, 50) * 100 },
                    "l_extendedprice" => c.rng.range(90_000, dear),
                    "l_discount" => c.rng.range(if narrow { 4 } else { 0 }, if narrow { 8 } else { 10 }),
                    _ => c.rng.range(0, 8),
                });
            }
            // the same numbers with another number of places
            let (scale, zeros) = match c.rng.below(6) {
                0 if col.iter().all(|x| x % 100 == 0) => (0, None),
                1 => (4, Some("00")),
                _ => (2, Some("")),
            };
            text.push_str(&format!("{name} {scale}{}\n", col.iter().map(|x| zeros.map_or_else(|| format!(" {}", x / 100), |z| format!(" {x}{z}"))).collect::<String>()));
            c.count(&format!("columns of scale {scale}"), 1);
            cols.insert((f, name), col);
        }
        c.sign(crate::rng::hash_bytes(text.as_bytes()));
        let groups = c.rng.pick(&["100000", "64", "700"]);
        let o = run_in(c, &s.0, "mkparquet", &[&format!("in/{f}.parquet"), groups], None, Some(&text))?;
        assert!(o.ok, "mkparquet failed: {}", o.stderr);
        c.note(format!("{f}: {n} rows"));
    }
    let times = 1 + c.rng.usize(2);
    let base = s.0.join("out/result/tpch");
    let mut had = earlier_runs(c, &base);
    for _ in 0..times {
        let t0 = std::time::Instant::now();
        let o = run(c, &s.0, "experimenter", &["tpch", "-i", "in", "-o", "out"], None)?;
        let wall = t0.elapsed().as_nanos() as u64;
        ensure!(o.ok, "exit", "experimenter tpch failed: {}", tail(&o.stderr));
        let dir = next_run(&base, &mut had, "experimenter tpch")?;
        let mut batches = None;
        let mut spent = 0u64;
        for (file, table) in [("tpch_01", "h01"), ("tpch_01_simplified", "h01"), ("tpch_06", "h06")] {
            let v = json(&dir.join(format!("{file}.json"))).map_err(|e| viol!("report-missing", "experimenter tpch: {e}"))?;
            let runs = v.as_array().cloned().unwrap_or_default();
            ensure!(!runs.is_empty(), "report-missing", "{file}.json holds no run");
            let b = *batches.get_or_insert(runs.len());
            ensure!(b == runs.len(), "report", "{file}.json holds {} runs, the others {b}", runs.len());
            let n = cols[&(table, "l_quantity")].len();
            let names: Vec<&str> = cols.keys().filter(|k| k.0 == table).map(|k| k.1).collect();
            for codec in ALL {
                let m = format!("{:?}", codec.scheme());
                let what = format!("{file} with {m} ({n} rows)");
                let mut st = BTreeMap::new();
                for name in &names {
                    let vals: Vec<f64> = cols[&(table, *name)].iter().map(|x| *x as f64 / 100.0).collect();
                    st.insert(*name, stored(codec, 2, &vals)?);
                }
                let col = |k: &str| &st[k].0;
                let (q, p, d) = (col("l_quantity"), col("l_extendedprice"), col("l_discount"));
                let sum = |f: &dyn Fn(usize) -> f64| (0..n).map(f).sum::<f64>();
                let (sq, sp, sd) = (sum(&|i| q[i]), sum(&|i| p[i]), sum(&|i| d[i]));
                let nf = n as f64;
                let mut names_want: Vec<&str> = vec![];
                let want: Vec<f64> = match file {
                    "tpch_01" => {
                        let t = col("l_tax");
                        names_want.extend(["SUM(l_quantity)", "SUM(l_extendedprice)", "AVG(l_quantity)", "AVG(l_extendedprice)", "AVG(l_discount)"]);
                        vec![sq, sp, sum(&|i| p[i] * (1.0 - d[i])), sum(&|i| p[i] * (1.0 - d[i]) * (1.0 + t[i])), sq / nf, sp / nf, sd / nf, nf]
                    }
                    "tpch_01_simplified" => {
                        names_want.extend(["SUM(l_quantity)", "SUM(l_extendedprice)", "AVG(l_quantity)", "AVG(l_extendedprice)", "AVG(l_discount)"]);
                        vec![sq, sp, sq / nf, sp / nf, sd / nf, nf]
                    }
                    _ => {
                        let (qi, di) = (&cols[&(table, "l_quantity")], &cols[&(table, "l_discount")]);
                        vec![(0..n).filter(|&i| (5..=7).contains(&di[i]) && qi[i] < 2400).map(|i| p[i] * d[i]).sum()]
                    }
                };
                for r in &runs {
                    let e = &r[&m];
                    ensure!(e.is_object(), "report", "{what}: no entry");
                    let got: Vec<f64> = e["result"].as_array().cloned().unwrap_or_default().iter().map(scalar).collect();
                    ensure!(
                        got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| (g - w).abs() <= 1e-9 * w.abs() + 1e-9),
                        if file == "tpch_06" { "tpch-06" } else { "tpch-01" },
                        "{what}: reported {got:?}, expected {want:?}"
                    );
                    let all_names: Vec<&str> = e["query_names"].as_array().map(|a| a.iter().filter_map(|x| x.as_str()).collect()).unwrap_or_default();
                    let flat = all_names.join("\n");
                    let mut at = 0;
                    for w in &names_want {
                        let i = flat[at..].find(w);
                        ensure!(i.is_some(), "tpch-names", "{what}: the queries are reported as {all_names:?}, expected {names_want:?} in this order");
                        at += i.unwrap() + w.len();
                    }
                    let steps = e["queries_elapsed_time"].as_array().map_or(0, |a| a.len());
                    ensure!(steps == all_names.len() && steps > 0, "tpch-names", "{what}: {steps} times for the queries {all_names:?}");
                    spent = spent.saturating_add(e["query_elapsed_time"].as_u64().unwrap_or(0));
                    for name in &names {
                        sizes_ok(&e["compression"][*name], codec, n, st[name].1, &format!("{what}: column {name}"))?;
                    }
                    let parts: u64 = e["queries_elapsed_time"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).sum()).unwrap_or(u64::MAX);
                    ensure!(e["query_elapsed_time"].as_u64() == Some(parts), "tpch-times", "{what}: query_elapsed_time {} is not the total {parts}", e["query_elapsed_time"]);
                    c.count("aggregates compared", want.len() as u64);
                }
            }
        }
        ensure!(spent <= wall, "tpch-times", "experimenter tpch: {spent} ns of queries in {wall} ns");
    }
    c.count("tpch reports", times as u64);
    c.nontrivial = true;
    Ok(())
}

fn round_to(x: f64, k: u32) -> f64 {
    let m = 10f64.powi(k as i32);
    (x * m).round() / m
}

fn ucr(c: &mut Case) -> CaseResult {
    let s = Scratch::new(c);
    let root = s.0.join("UCR");
    std::fs::create_dir(&root).unwrap();
    struct Set {
        name: String,
        k: u32,
        train: Vec<(i64, Vec<f64>)>,
        test: Vec<(i64, Vec<f64>)>,
    }
    let mut sets = vec![];
    for i in 0..1 + c.rng.usize(2) {
        let k = c.rng.pick(&[0u32, 1, 2, 3, 5, 7, 10, 11]);
        let len = 1 + c.rng.usize(40);
        let (nt, ne) = (2 + c.rng.usize(12), 2 + c.rng.usize(6));
        let classes = 1 + c.rng.range(1, 4);
        let name = format!("Set{i}");
        let adjusted = c.rng.chance(1, 4);
        let dir = if adjusted { root.join("Missing_value_and_variable_length_datasets_adjusted").join(&name) } else { root.join(&name) };
        std::fs::create_dir_all(&dir).unwrap();
        let lim = 9 * 10i64.pow(k.min(11));
        let make = |c: &mut Case, rows: usize, part: &str| {
            let mut out: Vec<(i64, Vec<f64>)> = vec![];
            let mut text = String::new();
            let mut first = String::new();
            for r in 0..rows {
                let label = c.rng.range(-1, classes - 1);
                let mut line = format!("{label}");
                let mut v = vec![];
                for _ in 0..len {
                    let x = c.rng.range(-lim, lim);
                    let a = x.unsigned_abs();
                    let m = 10u64.pow(k);
                    let t = if c.rng.chance(1, 60) {
                        "NaN".to_string()
                    } else if k == 0 {
                        format!("{x}")
                    } else {
                        format!("{}{}.{:0w$}", if x < 0 { "-" } else { "" }, a / m, a % m, w = k as usize)
                    };
                    let f: f64 = t.parse().unwrap();
                    v.push(if f.is_nan() { 0.0 } else { f });
                    line.push('\t');
                    line.push_str(&t);
                }
                // the first line twice: whether it is read does not matter then
                if r == 0 {
                    first = format!("{line}\n");
                }
                text.push_str(&line);
                text.push('\n');
                out.push((label, v));
            }
            std::fs::write(dir.join(format!("{name}_{part}.tsv")), format!("{first}{text}")).unwrap();
            c.sign(crate::rng::hash_bytes(text.as_bytes()));
            out
        };
        let train = make(c, nt, "TRAIN");
        let test = make(c, ne, "TEST");
        c.note(format!("{name}: {nt} x {len} records with {k} places, {ne} tests"));
        sets.push(Set { name, k, train, test });
    }
    let rs = root.to_string_lossy().into_owned();
    let os = s.0.to_string_lossy().into_owned();
    let base = s.0.join("result/ucr2018");
    let mut had = earlier_runs(c, &base);
    let o = run(c, &s.0, "experimenter", &["-i", &rs, "ucr2018", "-o", &os], None)?;
    ensure!(o.ok, "exit", "experimenter ucr2018 failed: {}", tail(&o.stderr));
    let dir = next_run(&base, &mut had, "experimenter ucr2018")?;
    let mut reports: Vec<(Codec, Option<u32>)> = ALL.iter().map(|c| (*c, None)).collect();
    reports.extend([1, 3, 5, 8].iter().map(|p| (Codec::Buff, Some(*p))));
    for (codec, prec) in reports {
        let m = format!("{:?}", codec.scheme());
        let f = prec.map_or(format!("{m}.json"), |p| format!("{m}_{p}.json"));
        let v = json(&dir.join(&f)).map_err(|e| viol!("report-missing", "experimenter ucr2018: {e}"))?;
        for st in &sets {
            let e = &v["results"][&st.name];
            let what = format!("ucr2018 {f} {} ({} places)", st.name, st.k);
            ensure!(e.is_object(), "report", "{what}: no entry");
            // what the training file gives back, with and without the repeated first line
            let rounded: Vec<f64> = st.train.iter().flat_map(|(_, v)| v.iter().map(|x| round_to(*x, st.k))).collect();
            let len = st.train[0].1.len();
            let mut both = rounded[..len].to_vec();
            both.extend_from_slice(&rounded);
            let (short, l1) = stored(codec, st.k, &rounded)?;
            let (long, l2) = stored(codec, st.k, &both)?;
            let stat = &e["compression_statistics"];
            let whole = stat["uncompressed_size"].as_u64() == Some(both.len() as u64 * 8);
            let (model, l) = if whole { (&long, l2) } else { (&short, l1) };
            sizes_ok(stat, codec, model.len(), l, &what)?;
            let first: Vec<f64> = model.iter().take(5).cloned().collect();
            let full = prec.is_none_or(|p| p >= st.k);
            for t in e["decompression_result"]["result_string"].as_array().cloned().unwrap_or_default() {
                let g: Vec<f64> = t.as_str().unwrap_or("").trim_matches(['[', ']']).split(", ").filter_map(|x| x.parse().ok()).collect();
                let tol = if full { 0.0 } else { 10f64.powi(-(prec.unwrap() as i32)) };
                ensure!(g.len() == first.len() && g.iter().zip(&first).all(|(a, b)| (a - b).abs() <= tol), "ucr-values", "{what}: read back {g:?}, expected {first:?} (within {tol})");
                c.count("read-backs compared", 1);
            }
            // every measurement that is announced
            let cn = e["config"]["n"].as_u64().unwrap_or(0) as usize;
            let dn = e["decompression_result"]["n"].as_u64().unwrap_or(0) as usize;
            let len_of = |v: &Value| v.as_array().map_or(0, |a| a.len());
            for part in ["elapsed_time_nanos", "execution_times", "result_string"] {
                let g = len_of(&e["decompression_result"][part]);
                ensure!(dn > 0 && g == dn, "ucr-measurements", "{what}: decompression_result: {g} {part} of {dn} runs");
            }
            for part in ["elapsed_time_nanos", "execution_times"] {
                let a = e[part].as_array().cloned().unwrap_or_default();
                ensure!(a.len() == st.test.len() || a.len() == st.test.len() + 1, "ucr-measurements", "{what}: {part} for {} tests, expected {}", a.len(), st.test.len());
                ensure!(cn > 0 && a.iter().all(|x| len_of(x) == cn), "ucr-measurements", "{what}: {part}: not {cn} runs per test");
            }
            let acc = e["accuracy"].as_f64().unwrap_or(-1.0);
            ensure!((0.0..=1.0).contains(&acc), "ucr-accuracy", "{what}: accuracy {}", e["accuracy"]);
            ensure!(e["config"]["precision"].as_i64() == Some(prec.map_or(-1, |p| p as i64)), "report", "{what}: config {}", e["config"]);
            if full {
                // the classes the nearest neighbours allow
                let (mut lo, mut hi) = (0u32, 0u32);
                let (mut lo0, mut hi0) = (0u32, 0u32);
                for (ti, (label, tv)) in st.test.iter().enumerate() {
                    let ds: Vec<f64> = short.chunks(len).map(|r| r.iter().zip(tv).map(|(a, b)| (a - round_to(*b, st.k)).powi(2)).sum::<f64>()).collect();
                    let best = ds.iter().cloned().fold(f64::INFINITY, f64::min);
                    let near: Vec<usize> = (0..ds.len()).filter(|&i| ds[i] <= best * (1.0 + 1e-9)).collect();
                    let ok = near.iter().filter(|&&i| st.train[i].0 == *label).count();
                    lo += (ok == near.len()) as u32;
                    hi += (ok > 0) as u32;
                    if ti == 0 {
                        lo0 = lo;
                        hi0 = hi;
                    }
                }
                let n = st.test.len() as f64;
                let fits = |lo: u32, hi: u32, n: f64| acc >= lo as f64 / n - 1e-12 && acc <= hi as f64 / n + 1e-12;
                ensure!(
                    fits(lo, hi, n) || fits(lo + lo0, hi + hi0, n + 1.0),
                    "ucr-accuracy",
                    "{what}: accuracy {acc}, expected {lo}..{hi} of {n} tests (or {}..{} of {})", lo + lo0, hi + hi0, n + 1.0
                );
                c.count("accuracies compared", 1);
                c.count("accuracies between 0 and 1", (acc > 0.0 && acc < 1.0) as u64);
            }
        }
    }
    c.count("1-NN reports", 1);
    c.nontrivial = true;
    Ok(())
}

fn embedding(c: &mut Case) -> CaseResult {
    let s = Scratch::new(c);
    let root = s.0.join("emb");
    std::fs::create_dir(&root).unwrap();
    let mut prec = serde_json::Map::new();
    let mut sets: Vec<(String, Vec<f64>, u32, u64)> = vec![];
    for i in 0..1 + c.rng.usize(2) {
        let k = c.rng.below(8) as u32;
        let n = 1 + c.rng.usize(500);
        let lim = c.rng.pick(&[30i64, 40_000, 5_000_000]);
        let vals: Vec<f64> = (0..n).map(|_| grid_value(c.rng.range(-lim, lim), k)).collect();
        let name = format!("emb{i}");
        std::fs::write(root.join(format!("{name}.bin")), le(&vals)).unwrap();
        // a claimed precision too deep for the fixed-point codecs leaves them out
        let claim = if c.rng.chance(1, 4) { c.rng.pick(&[13u64, 17, 19, 25]) } else { k as u64 };
        prec.insert(name.clone(), Value::from(claim as f64 + c.rng.pick(&[0.0, 0.4, -0.3])));
        c.note(format!("{name}: {n} records with {k} places, {claim} claimed"));
        c.sign(crate::rng::hash_bytes(&le(&vals)));
        sets.push((name, vals, k, claim));
    }
    std::fs::write(root.join("precision_data.json"), Value::Object(prec).to_string()).unwrap();
    let rs = root.to_string_lossy().into_owned();
    let os = s.0.to_string_lossy().into_owned();
    let base = s.0.join("result/embedding");
    let mut had = earlier_runs(c, &base);
    for t in 0..2 {
        if t > 0 && c.rng.chance(2, 3) {
            break;
        }
        let o = run(c, &s.0, "experimenter", &["-i", &rs, "embedding", "-o", &os], None)?;
        ensure!(o.ok, "exit", "experimenter embedding failed: {}", tail(&o.stderr));
        let dir = next_run(&base, &mut had, "experimenter embedding")?;
        let v = json(&dir.join("embedding_result.json")).map_err(|e| viol!("report-missing", "experimenter embedding: {e}"))?;
        for (name, vals, k, claim) in &sets {
            for codec in ALL {
                let m = format!("{:?}", codec.scheme());
                let e = &v[name][&m];
                let what = format!("embedding {name} with {m} ({} records, {k} places, {claim} claimed)", vals.len());
                if codec.scaled() && *claim > 12 {
                    ensure!(e.is_null(), "report", "{what}: measured at a scale the codec does not support");
                    continue;
                }
                ensure!(e.is_object(), "report", "{what}: no entry");
                let (model, len) = stored(codec, *k, vals)?;
                let n = e["n"].as_u64().unwrap_or(0) as usize;
                ensure!(n > 0 && e["precision"].as_u64() == Some(*claim), "report", "{what}: n {} precision {}", e["n"], e["precision"]);
                for part in ["compression_elapsed_time_nanos", "decompression_elapsed_time_nanos", "compression_segmented_execution_times", "decompression_segmented_execution_times", "compression_statistics", "decompression_result_string", "compression_result_string"] {
                    ensure!(e[part].as_array().map(|a| a.len()) == Some(n), "report", "{what}: {part} does not hold {n} measurements");
                }
                let head: Vec<u8> = le(&model[..1.min(model.len())])[..5].to_vec();
                for i in 0..n {
                    sizes_ok(&e["compression_statistics"][i], codec, vals.len(), len, &what)?;
                    ensure!(e["decompression_result_string"][i].as_str() == Some(format!("{head:?}").as_str()), "embedding-values", "{what}: read back {}, expected {head:?}", e["decompression_result_string"][i]);
                    c.count("read-backs compared", 1);
                }
            }
        }
    }
    c.count("embedding reports", 1);
    c.nontrivial = true;
    Ok(())
}
