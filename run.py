#!/usr/bin/env python3
"""Check driver:  run.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE]

Compiles the property's monitor harness from /repo's working tree, runs its seeded workloads in
parallel shards under the configured instrumentation, turns oracle rejections, sanitizer reports,
aborts and confirmed hangs into violation keys, matches those with known-findings.txt, rewrites
evidence/<PROPERTY>.json.  Exit 0 held, 1 violated (VIOLATION line), 2 error / inconclusive.
"""
import argparse, fnmatch, json, os, re, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

BASE = ["-std=c++17", "-stdlib=libc++", "-include", os.path.join(VERIF, "support/scalar_prefix.h"),
        "-I" + REPO, "-I" + os.path.join(VERIF, "harness"), "-msse4.1", "-mavx2", "-w", "-pthread"]
SAN = {
    "asan": ["-O1", "-gline-tables-only", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=all", "-D_LIBCPP_HARDENING_MODE=_LIBCPP_HARDENING_MODE_EXTENSIVE"],
    "asanx": ["-O1", "-gline-tables-only", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow",
              "-fno-sanitize-recover=all", "-D_LIBCPP_HARDENING_MODE=_LIBCPP_HARDENING_MODE_EXTENSIVE"],
    "tsan": ["-O1", "-gline-tables-only", "-fno-omit-frame-pointer", "-fsanitize=thread"],
    "plain": ["-O2", "-gline-tables-only"],
    "zero": ["-O1", "-ftrivial-auto-var-init=zero"],
    "pattern": ["-O1", "-ftrivial-auto-var-init=pattern"],
    "valgrind": ["-O1", "-g"],
}
ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:"
                    "check_initialization_order=1:hard_rss_limit_mb=3500:allocator_may_return_null=0:alloc_dealloc_mismatch=0:max_malloc_fill_size=4096:malloc_context_size=12",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:report_signal_unsafe=0:history_size=4",
}
SYM = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18") or "/usr/lib/llvm-18/bin/llvm-symbolizer"
CXX = shutil.which("clang++-18") or shutil.which("clang++")


class Err(Exception):
    pass


def compile_harness(src, san, outdir, extra=()):
    out = os.path.join(outdir, f"{os.path.splitext(os.path.basename(src))[0]}.{san}")
    cmd = [CXX] + BASE + SAN[san] + list(extra) + [os.path.join(VERIF, "harness", src), "-o", out]
    p = subprocess.run(cmd + ["-DSTATISTICS"], capture_output=True, text=True)
    if p.returncode:   # the library's own statistics counters are evidence only: do without them if they are gone
        p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise Err("harness does not compile against the current tree:\n" + p.stderr[-4000:])
    return out


def read_state(path):
    try:
        b = open(path, "rb").read()
        suite = b[:64].split(b"\0")[0].decode()
        index, ev, events, done = struct.unpack_from("<QQQQ", b, 64)
        return suite, index, ev, events, done
    except Exception:
        return "", 0, 0, 0, 0


FUNC = re.compile(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?:\d+|\(/)")


def crash_key(stderr, rc):
    kind = None
    m = re.search(r"AddressSanitizer: ([A-Za-z0-9_-]+)", stderr)
    if m:
        kind = "asan-" + m.group(1)
    m = re.search(r"runtime error: ([^\n]+)", stderr)
    if m:
        t = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m.group(1))
        kind = "ubsan-" + re.sub(r"[^A-Za-z]+", "-", t)[:50].strip("-")
    m = re.search(r"Assertion [`'](.+?)' failed", stderr)
    if m:
        kind = "assert-" + re.sub(r"[^A-Za-z0-9]+", "-", m.group(1))[:50].strip("-")
    m = re.search(r"libc\+\+ Hardening assertion (.+?) failed|assertion (.+?) failed: (.+)", stderr)
    if m and not kind:
        kind = "libcxx-hardening"
    m = re.search(r"ThreadSanitizer: ([a-z -]+)", stderr)
    if m:
        kind = "tsan-" + m.group(1).strip().replace(" ", "-")
    if rc == 78 and "== " in stderr:  # memcheck
        kind = "memcheck-" + re.sub(r"[^A-Za-z]+", "-", re.sub(r"\d+", "", (re.search(r"==\d+== (\S.*)", stderr) or [0, "error"])[1]))[:50].strip("-")
        for f in re.finditer(r"==\d+==\s+(?:at|by) 0x[0-9A-F]+: (.+) \((\S+):\d+\)", stderr):
            if os.path.exists(os.path.join(REPO, "cmmcore", f.group(2))):
                return "crash:" + kind + "@" + bare(f.group(1))
        return "crash:" + kind
    if kind in (None, "asan-ABRT", "asan-FPE", "asan-ILL", "asan-TRAP"):
        kind = kind or ("signal%d" % -rc if rc < 0 else "exit%d" % rc)
        if "terminate called" in stderr or "terminating" in stderr:
            kind = "terminate"
    fn = ""
    for f in FUNC.finditer(stderr):
        name, loc = f.group(1), f.group(2)
        if "/cmmcore/" in loc and "harness" not in loc:
            fn = bare(name)
            break
    return "crash:" + kind + (("@" + fn) if fn else "")


def bare(name):
    """Function name without template arguments, parameters, return type and scope."""
    prev = None
    while prev != name:
        prev, name = name, re.sub(r"<[^<>]*>|\([^()]*\)|\[[^\[\]]*\]", "", name)
    return (name.replace(" const", "").split() or ["?"])[-1].split("::")[-1]


def load_known(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+)\s+(.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


class Runner:
    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.viol, self.samples, self.counts = [], [], {}
        self.evals = self.events = 0
        self.hashes = set()
        self.suites, self.clauses = {}, {}
        self.notes = []
        self.errors = []
        self.stats = {}
        self.known = {k for k, _ in load_known(prop)}
        self.deadline = time.time() + (600 if tier == "quick" else 12 * 3600)

    def env(self, extra=None):
        e = dict(os.environ)
        e.update(ENV)
        e["ASAN_SYMBOLIZER_PATH"] = SYM
        e["TSAN_OPTIONS"] += ":external_symbolizer_path=" + SYM
        e["UBSAN_OPTIONS"] += ":external_symbolizer_path=" + SYM
        e["LC_ALL"] = "C.UTF-8"
        e.update(extra or {})
        return e

    def shard(self, exe, tag, k, n, cfg):
        base = os.path.join(self.work, f"{tag}.{k}")
        out, state = base + ".jsonl", base + ".state"
        start, restarts = [], 0
        cpu = cfg.get("cpu", 40)
        tot_ev = tot_events = 0
        args0 = [exe, "--seed", str(self.seed), "--out", out, "--shard", str(k), "--nshards", str(n), "--state", state,
                 "--cpu", str(cpu)] + (["--thorough"] if self.tier == "thorough" else []) + cfg.get("args", [])
        perkey = {}
        while True:
            if os.path.exists(state):
                os.unlink(state)
            sd = os.path.join(self.work, f"scratch.{tag}.{k}")
            os.makedirs(sd, exist_ok=True)
            errp = base + ".err"
            with open(errp, "wb") as ef:
                rc = self.execute(cfg.get("wrap", []) + args0 + start, ef, sd, self.env(cfg.get("env")))
            if cfg["san"] == "tsan" and rc != 0:
                with open(errp, "rb") as f:
                    self.tsan(f.read(4 << 20).decode("utf-8", "replace"), base, *read_state(state)[:2])
            if rc == "timeout":
                suite, index, ev, events, done = read_state(state)
                tot_ev += ev
                tot_events += events
                (self.notes if self.viol else self.errors).append(f"shard {tag}.{k} stopped by the wall-clock limit at {suite}:{index}")
                break
            suite, index, ev, events, done = read_state(state)
            tot_ev += ev
            tot_events += events
            if rc == 0 and done:
                break
            with open(errp, "rb") as f:
                f.seek(max(0, os.path.getsize(errp) - 60000))
                err = f.read().decode("utf-8", "replace")
            if rc == 98 or not suite:
                self.errors.append(f"harness error rc={rc}: {err[-1500:]}")
                return
            if rc == 66 and done:      # workload finished, tsan reports collected above
                break
            if rc == 97:
                conf = self.confirm_hang(exe, suite, index, cpu * 2, cfg)
                if conf == "hang":
                    self.violate(dict(suite=suite, index=index, key=f"{suite}/hang", msg=f"case did not finish within {cpu*2:.0f}s of CPU time", input="", build=tag))
                elif conf == "timeout":
                    (self.notes if self.viol else self.errors).append(f"shard {tag}.{k}: a slow case could not be confirmed in time at {suite}:{index}")
                    break
                elif conf:
                    self.violate(dict(suite=suite, index=index, key=f"{suite}/{conf}", msg="crash on re-run", input="", build=tag))
            else:
                key = f"{suite}/" + (crash_key(err, rc) if rc != "memory" else "memory-limit")
                perkey[key] = perkey.get(key, 0) + 1
                m = re.search(r"(==\d+==ERROR.*|.*runtime error:.*|.*Assertion.*|.*ssertion.*failed.*)", err)
                self.violate(dict(suite=suite, index=index, key=key, msg=(m.group(0)[:400] if m else f"rc={rc}"), input=err[-3000:], build=tag))
            tot_ev += 1
            restarts += 1
            if restarts > (12 if self.tier == "quick" else 40):
                self.notes.append(f"shard {tag}.{k}: stopped after {restarts} aborts at {suite}:{index}")
                break
            start = ["--start", suite, str(index + 1)]
        self.evals += tot_ev
        self.events += tot_events
        if os.path.exists(out):
            for line in open(out, errors="replace"):
                try:
                    j = json.loads(line)
                except Exception:
                    continue
                if j["t"] == "v":
                    j["build"] = tag
                    self.viol.append(j)
                elif j["t"] == "s":
                    self.samples.append({"suite": j["suite"], "index": j["index"], "input": j["input"]})
                elif j["t"] == "c":
                    self.counts[j["key"]] = self.counts.get(j["key"], 0) + j["n"]
                elif j["t"] == "st":
                    self.stats[j["key"]] = self.stats.get(j["key"], 0) + j["n"]
                elif j["t"] in ("su", "cl"):
                    k = re.sub(r"\d+", "N", j["key"]) if j["t"] == "cl" else j["key"]
                    t = self.suites if j["t"] == "su" else self.clauses
                    t[k] = t.get(k, 0) + j["n"]
        if os.path.exists(out + ".hash"):
            b = open(out + ".hash", "rb").read()
            self.hashes.update(struct.unpack(f"<{len(b)//8}Q", b[:len(b) // 8 * 8]))

    def tsan(self, err, base, suite, index):
        seen = set()
        for blk in err.split("WARNING: ThreadSanitizer:")[1:]:
            if re.search(r"Location is global 'std::(__1::)?(cerr|cout|clog|wcerr|wcout|wclog)'", blk):
                continue  # the standard stream objects may be used concurrently [iostream.objects.overview]; libc++ is not instrumented
            fns = []
            for f in FUNC.finditer(blk):
                if "/cmmcore/" in f.group(2) and "harness" not in f.group(2):
                    fns.append(bare(f.group(1)))
            kind = blk.strip().split("(")[0].strip().replace(" ", "-")
            key = f"tsan:{kind}@{fns[0] if fns else '?'}"
            if key in seen:
                continue
            seen.add(key)
            self.violate(dict(suite="tsan", index=index, key=key, msg=blk.strip()[:1500], input="", build="tsan"))

    def confirm_hang(self, exe, suite, index, cpu, cfg):
        sd = tempfile.mkdtemp(prefix="rerun.", dir=self.work)
        with open(os.path.join(sd, "err"), "w+b") as ef:
            rc = self.execute(cfg.get("wrap", []) + [exe, "--seed", str(self.seed), "--only", suite, str(index), "--out", os.path.join(sd, "rerun.jsonl"),
                              "--cpu", str(cpu)] + (["--thorough"] if self.tier == "thorough" else []) + cfg.get("args", []), ef, sd, self.env(cfg.get("env")))
            ef.seek(max(0, ef.seek(0, 2) - 60000))
            err = ef.read().decode("utf-8", "replace")
        if rc == 97:
            return "hang"
        if rc == 0 or rc == 66:   # finished (66: with race reports, which the shard reports itself)
            return None
        if rc == "timeout":
            return rc
        return "memory-limit" if rc == "memory" else crash_key(err, rc)

    def violate(self, v):
        self.viol.append(v)
        if self.tier == "quick" and v["key"] not in self.known:   # the verdict stands: bound the time spent collecting more
            self.deadline = min(self.deadline, time.time() + 90)

    def execute(self, cmd, ef, cwd, env, rss_limit=3 << 30):
        """Runs cmd; exit code, or "timeout" (wall-clock limit), or "memory" (resident set beyond the limit)."""
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, cwd=cwd, env=env)
        page, wait = os.sysconf("SC_PAGESIZE"), 0.02
        try:
            while True:
                try:
                    return p.wait(wait)
                except subprocess.TimeoutExpired:
                    wait = min(0.25, wait * 1.5)
                try:
                    rss = int(open(f"/proc/{p.pid}/statm").read().split()[1]) * page
                except (OSError, IndexError, ValueError):
                    continue
                if rss > rss_limit:
                    return "memory"
                if time.time() > self.deadline:
                    return "timeout"
        finally:
            if p.poll() is None:
                p.kill()
                p.wait()

    def run_build(self, b):
        exe = compile_harness(b["src"], b["san"], self.work, b.get("flags", ()))
        n = b.get("shards", 8)
        with ThreadPoolExecutor(n) as ex:
            list(ex.map(lambda k: self.shard(exe, b["tag"], k, n, b), range(n)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    prop, t0 = a.prop, time.time()
    cfg = CHECKS[prop]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=f"vp-{prop}-")
    try:
        if a.replay:
            j = json.load(open(a.replay))
            return cfg["replayer"](cfg, j, work, sys.modules[__name__]) if "replayer" in cfg else replay(cfg, j, work)
        r = Runner(prop, a.tier, a.seed, work)
        if "runner" in cfg:
            cfg["runner"](r, cfg, sys.modules[__name__])
        else:
            for b in cfg["builds"]:
                r.run_build(dict(b, tag=b.get("tag", b["san"])))
        return report(r, cfg, t0)
    except Err as e:
        print("ERROR", e)
        return 2
    finally:
        if a.keep:
            print("work dir", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def report(r, cfg, t0):
    known = load_known(r.prop)
    hit, fresh = set(), []
    for v in r.viol:
        for k, what in known:
            if fnmatch.fnmatchcase(v["key"], k):
                hit.add((k, what))
                break
        else:
            fresh.append(v)
    for k, what in known:
        if (k, what) in hit:
            print(f"KNOWN-FINDING: property={r.prop} {what} [{k}]")
        else:
            print(f"note: known finding not observed in this run: {k}")
    ev = {
        "property": r.prop, "tier": r.tier, "seed": r.seed, "level": "exploration",
        "coverage": {
            "evaluations": r.evals, "distinct_nontrivial": len(r.hashes), "rule": cfg["rule"],
            "samples": r.samples[:8], "oracle_comparisons": r.events,
            "violation_keys": sorted({v["key"] for v in r.viol})[:50], "notes": r.notes[:20],
        },
        "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
    }
    if r.suites:
        ev["coverage"]["cases_per_suite"] = r.suites
    if r.clauses:
        ev["coverage"]["clause_evaluations"] = dict(sorted(r.clauses.items(), key=lambda e: -e[1])[:120])
    if r.stats:
        ev["coverage"]["observed"] = r.stats
    ev["coverage"].update(getattr(r, "extra", {}))
    path = os.path.join(VERIF, "evidence", r.prop + ".json")
    json.dump(ev, open(path, "w"), indent=1)
    print(f"{r.prop} tier={r.tier} seed={r.seed}: {r.evals} cases, {len(r.hashes)} distinct non-trivial, {r.events} oracle comparisons, "
          f"{len(r.viol)} reports ({len(fresh)} not known), {ev['wall_s']} s")
    if fresh:
        keys = {}
        for v in fresh:
            keys.setdefault(v["key"], v)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        first = None
        for n, (k, v) in enumerate(sorted(keys.items())):
            rp = os.path.join(VERIF, "replays", f"{r.prop}-{n}.json")
            json.dump(dict(property=r.prop, seed=r.seed, tier=r.tier, suite=v["suite"], index=v["index"], key=k, msg=v["msg"], input=v.get("input", ""),
                           build=v.get("build", ""), count=r.counts.get(k)), open(rp, "w"), indent=1)
            print(f"  {k} case {v['suite']}:{v['index']}: {v['msg'][:300]}")
            first = first or rp
            if n >= 30:
                break
        print(f"VIOLATION property={r.prop} replay={first}")
        return 1
    if r.errors:
        print("ERROR", "; ".join(r.errors)[:3000])
        return 2
    if r.evals == 0 or r.events == 0 or len(r.hashes) == 0:
        print("ERROR: the monitor observed nothing")
        return 2
    return 0


def replay(cfg, j, work):
    builds = cfg.get("builds") or cfg.get("replay_builds")
    b = next((x for x in builds if x.get("tag", x["san"]) == j.get("build")), builds[0])
    exe = compile_harness(b["src"], b["san"], work, b.get("flags", ()))
    r = Runner(j["property"], j["tier"], j["seed"], work)
    out = os.path.join(work, "replay.jsonl")
    p = subprocess.run(b.get("wrap", []) + [exe, "--seed", str(j["seed"]), "--only", j["suite"], str(j["index"]), "--out", out, "--cpu", "120"]
                       + (["--thorough"] if j["tier"] == "thorough" else []) + b.get("args", []), env=r.env(b.get("env")), cwd=work)
    bad = p.returncode != 0
    if os.path.exists(out):
        for line in open(out):
            if '"t":"v"' in line:
                bad = True
                print(line.strip())
    if bad:
        print(f"VIOLATION property={j['property']} replay={os.path.abspath(sys.argv[-1])}")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
