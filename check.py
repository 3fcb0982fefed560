#!/usr/bin/env python3
"""Driver for the runtime monitors.

check.py build            build every monitor binary from /repo's working tree
check.py run ID           run the monitors of one property (VERIF_SEED, VERIF_TIER)
check.py replay FILE      re-execute the case of a replay file

Exit 0: held on everything observed. Exit 1 + VIOLATION line: broken. Exit 2: the check itself failed (inconclusive).
"""
import json, os, re, signal, subprocess, sys, time, shutil, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
TARGET = os.path.join(HERE, "target")
HARNESS = os.path.join(HERE, "harness")
TOOLCHAIN = "1.87.0"
NIGHTLY = "nightly"
NPROC = max(2, min(8, os.cpu_count() or 2))
sys.path.insert(0, HERE)
from spec import PLAN  # noqa: E402


def env(extra=None):
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e["CARGO_TARGET_DIR"] = TARGET
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(extra or {})
    return e


def die(msg):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(2)


def build(variant):
    """Build one monitor variant; returns the command prefix that runs it."""
    t0 = time.time()
    if variant in ("checked", "release"):
        cmd = ["cargo", "+" + TOOLCHAIN, "build", "--offline", "--locked", "--profile", variant]
        e = env()
        exe = os.path.join(TARGET, variant, "mon")
    elif variant == "asan":
        cmd = ["cargo", "+" + NIGHTLY, "build", "--offline", "--locked", "--profile", "checked",
               "--target", "x86_64-unknown-linux-gnu"]
        td = os.path.join(TARGET, "asan")
        e = env({"RUSTFLAGS": "-Zsanitizer=address", "CARGO_TARGET_DIR": td})
        exe = os.path.join(td, "x86_64-unknown-linux-gnu", "checked", "mon")
    else:
        die("unknown variant " + variant)
    p = subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stdout.write(p.stdout[-6000:])
        die("build of variant %s failed" % variant)
    print("built %s in %.1fs" % (variant, time.time() - t0), flush=True)
    return exe


def build_programs():
    """Build the command line programs (experimenter, tools) from /repo's working tree."""
    t0 = time.time()
    td = os.path.join(TARGET, "cli")
    p = subprocess.run(["cargo", "+" + TOOLCHAIN, "build", "--offline", "--locked"], cwd=os.path.join(HERE, "cli"),
                       env=env({"CARGO_TARGET_DIR": td}), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stdout.write(p.stdout[-6000:])
        die("build of the command line programs failed")
    print("built the programs in %.1fs" % (time.time() - t0), flush=True)
    os.environ["MON_CLI"] = os.path.join(td, "debug")


def load_known():
    known = {}
    try:
        for line in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                known.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    except FileNotFoundError:
        pass
    return known


ASAN_OPTIONS = "detect_leaks=0:allocator_may_return_null=1:abort_on_error=1:halt_on_error=1:max_allocation_size_mb=1500:hard_rss_limit_mb=3500"


class Shard:
    def __init__(self, exe, variant, prop, seed, tier, start, step, end, budget, work, tag):
        self.a = (exe, variant, prop, seed, tier, start, step, end, budget, work, tag)
        self.exe, self.variant, self.step, self.end = exe, variant, step, end
        self.deadline = time.time() + budget
        self.out = os.path.join(work, "out-%s.json" % tag)
        self.base = None
        self.results = []
        self.crashes = []
        self.restarts = 0
        self.spawn(start)

    def spawn(self, start):
        exe, variant, prop, seed, tier, _, step, end, budget, work, tag = self.a
        self.err = open(os.path.join(work, "err-%s.txt" % tag), "wb")
        self.cur_start = start
        for f in (self.out, self.out + ".progress"):
            if os.path.exists(f):
                os.unlink(f)
        left = max(0.5, self.deadline - time.time())
        self.p = subprocess.Popen(
            ["prlimit", "--core=0"] + ([] if variant == "asan" else ["--as=%d" % (PLAN[prop].get("mem", 12 << 30))]) +
            [exe, "shard", "--prop", prop, "--seed", str(seed), "--tier", tier, "--start", str(start), "--step", str(step),
             "--end", str(end), "--budget", "%.2f" % left, "--out", self.out],
            stdout=subprocess.DEVNULL, stderr=self.err, env=env({"ASAN_OPTIONS": ASAN_OPTIONS}))
        self.last_index, self.last_cpu = None, 0.0

    def resume(self, idx):
        """Go on behind a case that is not judged."""
        self.restarts += 1
        if idx + self.step < self.end and time.time() < self.deadline and self.restarts < 5000:
            self.spawn(idx + self.step)
            return True
        return False

    def index(self):
        try:
            b = open(self.out + ".progress", "rb").read(8)
            return int.from_bytes(b, "little") if len(b) == 8 else None
        except OSError:
            return None

    def cpu(self):
        try:
            f = open("/proc/%d/stat" % self.p.pid).read().rsplit(")", 1)[1].split()
            return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
        except Exception:
            return self.last_cpu

    def collect(self):
        try:
            self.results.append(json.load(open(self.out)))
        except Exception:
            pass

    def stderr_tail(self):
        self.err.close()
        return open(self.err.name, "rb").read()[-20000:].decode("utf8", "replace")


def confirm(exe, prop, seed, tier, index, cpu_limit):
    """Re-run one suspicious case alone. Returns (kind, text): held / violated / signal / cpu / harness."""
    p = subprocess.run(["prlimit", "--core=0", "--cpu=%d" % cpu_limit, exe, "one", "--prop", prop, "--seed", str(seed), "--tier", tier,
                        "--index", str(index)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env({"ASAN_OPTIONS": ASAN_OPTIONS}))
    out = p.stdout.decode("utf8", "replace")
    errt = p.stderr.decode("utf8", "replace")[-20000:]
    if p.returncode < 0:
        s = -p.returncode
        if s in (signal.SIGXCPU, signal.SIGKILL):
            return "cpu", errt
        return "signal %d" % s, errt
    return {0: "held", 1: "violated"}.get(p.returncode, "harness"), out + errt


def run(prop):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    plan = PLAN[prop]
    conf = plan[tier]
    known = load_known().get(prop, {})
    ev_path = os.path.join(HERE, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    if os.path.exists(ev_path):
        os.unlink(ev_path)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="mon-%s-" % prop, dir=TARGET if os.path.isdir(TARGET) else HERE)
    viols, notes, inconclusive = [], [], []
    total = {"evals": 0, "counters": {}, "samples": [], "errors": []}
    sigs = set()
    per_variant = {}

    def bump(k):
        total["counters"][k] = total["counters"].get(k, 0) + 1

    try:
        variants = conf["variants"]
        exes = {v: build(v) for v, _, _ in variants}
        if plan.get("programs"):
            build_programs()
        os.environ["MON_SCRATCH"] = work
        # split the processors among the variants, case indices are disjoint per variant
        shards = []
        share = max(1, NPROC // len(variants))
        base = 0
        for v, cases, budget in variants:
            for s in range(share):
                shards.append(Shard(exes[v], v, prop, seed, tier, base + s, share, base + cases, budget, work, "%s-%d" % (v, s)))
            base += cases
        live = list(shards)
        allow_alloc = plan.get("alloc_abort_ok", False)
        while live:
            time.sleep(0.05)
            for s in list(live):
                rc = s.p.poll()
                idx = s.index()
                if rc is None:
                    cpu = s.cpu()
                    if idx != s.last_index:
                        s.last_index, s.last_cpu = idx, cpu
                    elif cpu - s.last_cpu > plan.get("case_cpu", 30):
                        s.p.kill()
                        s.p.wait()
                        s.collect()
                        if plan.get("hang_ok") and idx is not None:
                            bump("cases cut off after %d s of CPU time" % plan.get("case_cpu", 30))
                            if not s.resume(idx):
                                live.remove(s)
                            continue
                        s.crashes.append(("stuck", idx, ""))
                        live.remove(s)
                    continue
                s.collect()
                if rc == 0:
                    live.remove(s)
                    continue
                txt = s.stderr_tail()
                benign = allow_alloc and ("memory allocation of" in txt or "AddressSanitizer: allocation-size-too-big" in txt or
                                          "AddressSanitizer: out of memory" in txt or "hard rss limit exhausted" in txt or "AddressSanitizer: calloc-overflow" in txt or "AddressSanitizer failed to allocate" in txt) \
                    and "buffer-overflow" not in txt and "use-after-free" not in txt
                if benign and idx is not None:
                    bump("cases ended by a refused huge allocation")
                    if not s.resume(idx):
                        live.remove(s)
                    continue
                s.crashes.append(("died rc=%s" % rc, idx, txt))
                live.remove(s)
        hang_confirmed = False
        for s in shards:
            pv = per_variant.setdefault(s.variant, 0)
            for r in s.results:
                total["evals"] += r["evals"]
                per_variant[s.variant] += r["evals"]
                for k, n in r["counters"].items():
                    total["counters"][k] = total["counters"].get(k, 0) + n
                sigs.update(r["sigs"])
                if len(total["samples"]) < 12:
                    total["samples"] += ["[%s] %s" % (s.variant, x) for x in r["samples"][:2]]
                total["errors"] += r["errors"]
                for v in r["violations"]:
                    viols.append(dict(v, variant=s.variant))
            for kind, idx, txt in s.crashes:
                if idx is None:
                    inconclusive.append("%s shard: %s before any case\n%s" % (s.variant, kind, txt[-1500:]))
                    continue
                if kind == "stuck" and hang_confirmed:
                    continue
                ck, ctxt = confirm(s.exe, prop, seed, tier, idx, 60)
                if plan.get("hang_ok") and ck == "cpu":
                    notes.append("case %d ran out of its CPU allowance on hostile input (not judged)" % idx)
                elif ck == "violated":
                    m = re.search(r"VIOLATED key=(\S+) (.*)", ctxt)
                    viols.append({"key": m.group(1) if m else "confirmed", "msg": m.group(2) if m else ctxt[-400:], "index": idx, "desc": "", "variant": s.variant})
                elif ck == "cpu":
                    hang_confirmed = True
                    viols.append({"key": "no-termination", "msg": "the case consumed more than 60 s of CPU time without finishing", "index": idx, "desc": "", "variant": s.variant})
                elif ck.startswith("signal"):
                    san = re.search(r"(ERROR: AddressSanitizer: \S+.*)", ctxt)
                    fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) (/\S*/ebi/src/\S+)", ctxt)
                    viols.append({"key": "crash", "msg": "the process was killed (%s)%s%s" % (ck, "; " + san.group(1)[:200] if san else "; " + ctxt[-300:].replace("\n", " | "), "; at " + " <- ".join(x[1] for x in fr[:3]) if fr else ""),
                                  "index": idx, "desc": "", "variant": s.variant})
                else:
                    inconclusive.append("case %d %s, but alone it %s\n%s" % (idx, kind, ck, txt[-1500:]))
        if total["errors"]:
            inconclusive += ["harness error: " + e for e in total["errors"][:5]]
        for extra in plan.get("extra", []):
            r = extra(tier, seed, env, HERE, TARGET)
            total["evals"] += r.get("evals", 0)
            for k, n in r.get("counters", {}).items():
                total["counters"][k] = total["counters"].get(k, 0) + n
            sigs.update(r.get("sigs", []))
            total["samples"] += r.get("samples", [])
            viols += r.get("violations", [])
            inconclusive += r.get("inconclusive", [])
        # too little observed is not a pass
        for k, least in plan.get("must_observe", {}).items():
            if total["counters"].get(k, 0) < least:
                inconclusive.append("monitor observed only %d x %r (needs %d)" % (total["counters"].get(k, 0), k, least))
        if len(sigs) < plan.get("min_distinct", 50):
            inconclusive.append("only %d distinct non-trivial cases" % len(sigs))
    finally:
        shutil.rmtree(work, ignore_errors=True)

    reported = []
    seen_known = set()
    for v in viols:
        if v["key"] in known:
            if v["key"] not in seen_known:
                seen_known.add(v["key"])
                print("KNOWN-FINDING: property=%s %s" % (prop, known[v["key"]]), flush=True)
            continue
        if any(r["key"] == v["key"] for r in reported):
            continue
        reported.append(v)
    for v in reported[:6]:
        path = os.path.join(HERE, "replays", "%s-%s-%s.json" % (prop, v["variant"], v.get("index", "x")))
        json.dump(dict(v, property=prop, seed=seed, tier=tier), open(path, "w"), indent=1)
        print("  %s: %s" % (v["key"], v["msg"][:900]), flush=True)
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": plan["level"],
        "coverage": {
            "evaluations": total["evals"],
            "distinct_nontrivial": len(sigs),
            "rule": plan["rule"],
            "samples": total["samples"][:6],
            "observed": dict(sorted(total["counters"].items())),
            "executions_per_build": per_variant,
            "notes": notes[:10],
        },
        "assumptions": plan.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(reported),
    }
    json.dump(ev, open(ev_path, "w"), indent=1)
    if reported:
        sys.exit(1)
    if inconclusive:
        for m in inconclusive[:6]:
            print("INCONCLUSIVE: " + m, flush=True)
        sys.exit(2)
    print("%s held on %d executions (%d distinct non-trivial), %.1fs" % (prop, total["evals"], len(sigs), time.time() - t0), flush=True)


def replay(path):
    r = json.load(open(path))
    if r.get("index") is None:
        die("this replay file names no case: " + r["msg"])
    exe = build(r["variant"])
    if PLAN[r["property"]].get("programs"):
        build_programs()
    k, t = confirm(exe, r["property"], r["seed"], r["tier"], r["index"], 300)
    print(k)
    print(t)
    sys.exit(0 if k == "held" else 1)


def main():
    if len(sys.argv) < 2:
        die("usage")
    os.makedirs(TARGET, exist_ok=True)
    if sys.argv[1] == "build":
        for v in ("checked", "release", "asan"):
            build(v)
        build_programs()
    elif sys.argv[1] == "run":
        run(sys.argv[2])
    elif sys.argv[1] == "replay":
        replay(sys.argv[2])
    else:
        die("usage")


main()
