"""C42 driver: the same seeded workload in several builds and processes whose uninitialised memory, addresses and
histories differ; the digests of every call must agree, and memcheck must see no decision taken on undefined data."""
import os, re, subprocess

# zero/pattern: identical code but for the value automatic variables start with.  plainA/plainB: the same binary with
# different malloc contents, environment size and sharding (so different work precedes each call).
VARIANTS = [
    dict(tag="zero", san="zero", shards=8),
    dict(tag="pattern", san="pattern", shards=8, env={"MALLOC_PERTURB_": "165"}),
    dict(tag="plainA", san="plain", shards=8),
    dict(tag="plainB", san="plain", shards=5, env={"MALLOC_PERTURB_": "91", "PADDING": "x" * 5000}),
]
PAIRS = [("zero", "pattern"), ("plainA", "plainB")]
MEMCHECK = dict(tag="memcheck", san="valgrind", shards=8, cpu=200, wrap=["valgrind", "-q", "--leak-check=no", "--track-origins=no", "--exit-on-first-error=yes", "--error-exitcode=78", "--num-callers=30"])
COMMON = dict(src="c41_memory.cpp", flags=["-DDETERMINISM"])


def builds(tier):
    # digests are files next to --out, so every variant keeps its own
    return [dict(COMMON, **v) for v in VARIANTS] + [dict(COMMON, **MEMCHECK, args=["--scale", "0.02" if tier == "quick" else "0.05"])]


def load(work, tag, shards):
    d = {}
    for k in range(shards):
        p = os.path.join(work, f"{tag}.{k}.jsonl.dig")
        if os.path.exists(p):
            for line in open(p):
                if not line.startswith("#"):
                    f = line.split()
                    if len(f) == 5:
                        d[tuple(f[:3]) + (f[3],)] = f[4]
    return d


def compare(r, digs, a, b):
    n = 0
    for key, v in digs[a].items():
        w = digs[b].get(key)
        if w is None:
            continue
        n += 1
        if v != w:
            suite, index, serial, what = key
            r.viol.append(dict(suite=suite, index=int(index), key=f"{suite}/differs-between-{a}-and-{b}/{what}", msg=f"call {serial} of the case gives digest {v} in {a} and {w} in {b}", input="", build=f"{a}|{b}"))
    r.stats[f"digests-compared-{a}-{b}"] = n
    r.events += n
    if n == 0:
        r.errors.append(f"no digests of {a} and {b} could be compared")


def run(r, cfg, m):
    from concurrent.futures import ThreadPoolExecutor
    bs = builds(r.tier)
    exes = {}
    srcs = {b["san"]: b for b in bs}
    with ThreadPoolExecutor(4) as ex:
        for s, e in zip(srcs, ex.map(lambda s: m.compile_harness(COMMON["src"], s, r.work, COMMON["flags"]), srcs)):
            exes[s] = e
    for b in bs:
        with ThreadPoolExecutor(b["shards"]) as ex:
            list(ex.map(lambda k: r.shard(exes[b["san"]], b["tag"], k, b["shards"], b), range(b["shards"])))
    digs = {b["tag"]: load(r.work, b["tag"], b["shards"]) for b in bs}
    for a, b in PAIRS:
        compare(r, digs, a, b)


def replay(cfg, j, work, m):
    r = m.Runner(j["property"], j["tier"], j["seed"], work)
    bs = {b["tag"]: b for b in builds(j["tier"])}
    tags = j["build"].split("|")
    traces, bad = [], False
    for t in tags:
        b = bs[t]
        exe = m.compile_harness(b["src"], b["san"], work, b["flags"])
        out = os.path.join(work, t + ".replay.jsonl")
        env = dict(b.get("env") or {}, **({"C42_TRACE": "1"} if len(tags) > 1 else {}))
        p = subprocess.run(b.get("wrap", []) + [exe, "--seed", str(j["seed"]), "--only", j["suite"], str(j["index"]), "--out", out, "--cpu", "300"]
                           + (["--thorough"] if j["tier"] == "thorough" else []), env=r.env(env), cwd=work)
        bad |= p.returncode != 0
        if os.path.exists(out):
            for line in open(out):
                if '"t":"v"' in line:
                    bad = True
                    print(line.strip())
        traces.append(open(out + ".dig").read().split() if os.path.exists(out + ".dig") else [])
    if len(tags) == 2 and traces[0] != traces[1]:
        bad = True
        for i, (x, y) in enumerate(zip(*traces)):
            if x != y and not re.fullmatch(r"[0-9a-f]{16}", x):
                print(f"first differing observed value, number {i}: {x} in {tags[0]}, {y} in {tags[1]}")
                break
    if bad:
        print(f"VIOLATION property={j['property']} replay")
    return 1 if bad else 0
