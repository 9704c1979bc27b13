"""Common machinery of the checks: build, model checking, script execution,
trace validation, verdict and evidence.  See DESIGN.md."""
import json, os, re, subprocess, sys, time, random, shutil, concurrent.futures as cf

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
WORK = os.path.join(ROOT, "work")
TARGET = os.path.join(ROOT, "target")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- build
HARNESS = {"core": "conform", "tx": "conform-tx"}


def build(which):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(TARGET, which), CARGO_INCREMENTAL="0")
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    t = time.time()
    p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=os.path.join(ROOT, "harness", which),
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stdout.write(p.stdout[-6000:])
        raise ToolError("harness does not build against /repo")
    log(f"built harness/{which} in {time.time()-t:.1f}s")
    return os.path.join(TARGET, which, "debug", HARNESS[which])


# ---------------------------------------------------------------- TLC
def tlc(dirname, module, cfg_text, workers=None, heap="6g", timeout=840, extra=(), env=None, sink=None):
    """Runs TLC on work module; returns (returncode, lines not given to sink)."""
    open(os.path.join(dirname, module + ".cfg"), "w").write(cfg_text)
    meta = os.path.join(dirname, "meta_" + module)
    shutil.rmtree(meta, ignore_errors=True)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-DTLA-Library=" + SPEC,
           "-cp", JARS, "tlc2.TLC", "-deadlock", "-workers", str(workers or NCPU), "-metadir", meta,
           "-config", module + ".cfg", *extra, module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=dirname, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    import threading
    timer = threading.Timer(timeout, p.kill)
    timer.start()
    lines = []
    try:
        for ln in p.stdout:
            ln = ln.rstrip("\n")
            if sink and sink(ln):
                continue
            lines.append(ln)
    finally:
        p.wait()
        timer.cancel()
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, lines


def tlc_str(ln, mark):
    """A line printed by PrintT("@X@" \\o json): returns the json text or None."""
    if ln.startswith('"' + mark):
        s = ln[1 + len(mark):]
        if s.endswith('"'):
            s = s[:-1]
        return s.replace('\\"', '"').replace("\\\\", "\\")
    return None


def counts(lines):
    g = d = 0
    for ln in lines:
        m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct states found", ln)
        if m:
            g, d = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
    return g, d


def mc(work, suite, run, idx, timeout=840):
    """One bounded exhaustive exploration.  run: dict(module, consts{name:tla},
    inv[], prop[], view, emit, constraint).  Returns (states, transitions, scripts, coverage)."""
    mod = f"MC_{suite}_{idx}"
    d = os.path.join(work, mod)
    os.makedirs(d, exist_ok=True)
    defs = "".join(f"c_{k} == {v}\n" for k, v in run.get("consts", {}).items())
    open(os.path.join(d, mod + ".tla"), "w").write(
        f"---- MODULE {mod} ----\nEXTENDS {run['module']}\n{defs}{run.get('defs','')}\n====\n")
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
    for k in run.get("consts", {}):
        cfg += f"CONSTANT {k} <- c_{k}\n"
    for x in run.get("inv", []):
        cfg += f"INVARIANT {x}\n"
    for x in run.get("prop", []):
        cfg += f"PROPERTY {x}\n"
    if run.get("view", True):
        cfg += "VIEW View\n"
    if run.get("constraint"):
        cfg += f"CONSTRAINT {run['constraint']}\n"
    scripts = []
    if run.get("emit"):
        cfg += "ACTION_CONSTRAINT Emit\n"

    def sink(ln):
        s = tlc_str(ln, "@E@")
        if s is None:
            return False
        scripts.append(s)
        return True
    t = time.time()
    rc, lines = tlc(d, mod, cfg, workers=1 if run.get("emit") else None, timeout=timeout, sink=sink)
    g, n = counts(lines)
    if rc != 0 or n == 0:
        sys.stdout.write("\n".join(lines[-60:]) + "\n")
        raise ToolError(f"model {run['module']} run {idx}: TLC exit {rc}")
    scripts = maximal(scripts)
    log(f"model {run['module']}#{idx}: {n} states, {g} transitions, {len(scripts)} covering scripts, {time.time()-t:.1f}s")
    return n, g, scripts


def maximal(texts):
    """Parsed scripts; drops those that are a proper prefix of another."""
    out = {}
    for t in texts:
        v = json.loads(t)
        key = (json.dumps(v["cfg"], sort_keys=True),) + tuple(json.dumps(e, sort_keys=True) for e in v["ev"])
        out[key] = v
    drop = set()
    for k in out:
        for i in range(1, len(k)):
            drop.add(k[:i])
    return [out[k] for k in out if k not in drop]


# ---------------------------------------------------------------- execution
def execute(binary, suite, scripts, work, shards=NCPU, timeout=600, env=None):
    """Runs the scripts through the real code; returns the recorded traces."""
    shards = max(1, min(shards, (len(scripts) + 3) // 4))
    procs = []
    for i in range(shards):
        a, b = os.path.join(work, f"{suite}.{i}.in"), os.path.join(work, f"{suite}.{i}.out")
        with open(a, "w") as f:
            for s in scripts[i::shards]:
                f.write(json.dumps(s) + "\n")
        e = dict(os.environ, CONFORM_WORK=work)
        e.update(env or {})
        procs.append((subprocess.Popen([binary, suite, a, b], env=e, stdout=subprocess.DEVNULL,
                                       stderr=subprocess.PIPE, text=True), b, len(scripts[i::shards])))
    traces, crashed = [], []
    for p, b, n in procs:
        try:
            _, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            raise ToolError(f"suite {suite}: harness timed out")
        if p.returncode == 2:
            sys.stdout.write(err[-3000:])
            raise ToolError(f"suite {suite}: bad script")
        got = [json.loads(x) for x in open(b)] if p.returncode == 0 and os.path.exists(b) else []
        if p.returncode != 0:
            crashed.append((p.returncode, err[-2000:], len(got)))
        elif len(got) != n and not any(t["ev"] and t["ev"][-1]["obs"].get("r") == "HANG" for t in got):
            raise ToolError(f"suite {suite}: {n} scripts, {len(got)} traces")
        traces += got
    if crashed:
        for c in crashed:
            sys.stdout.write(f"harness ended with {c[0]}: {c[1]}\n")
        raise ToolError(f"suite {suite}: harness crashed")
    return traces


# ---------------------------------------------------------------- validation
TC = """---- MODULE TC ----
EXTENDS %s, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, S
Init == /\\ t \\in DOMAIN Traces /\\ i = 1 /\\ S = {InitState(Traces[t].cfg)}
SetSeq(X) == LET RECURSIVE Go(_)
                 Go(Y) == IF Y = {} THEN << >> ELSE LET y == CHOOSE y \\in Y : TRUE IN <<y>> \\o Go(Y \\ {y})
             IN Go(X)
Step(Q) == /\\ S' = {p.s : p \\in Q} /\\ i' = i + 1
           /\\ \\A x \\in S' : StateOK(x) \\/ PrintT("@X@" \\o ToJson([t |-> t, i |-> i]))
Next == /\\ i <= Len(Traces[t].ev) /\\ t' = t
        /\\ LET e == Traces[t].ev[i]
               o == Norm(e)
               P == UNION {Post(x, e) : x \\in S}
               Q == {p \\in P : p.obs = o}
               G == {p \\in Q : "kf" \\notin DOMAIN p}
           IN IF e.obs.r \\in {"PANIC", "HANG"} \\/ Q = {}
              THEN /\\ PrintT("@M@" \\o ToJson([t |-> t, i |-> i, want |-> SetSeq({p.obs : p \\in P})]))
                   /\\ i' = 1000000000 /\\ S' = {}
              ELSE IF G = {}
              THEN /\\ PrintT("@K@" \\o ToJson([t |-> t, i |-> i, kf |-> (CHOOSE p \\in Q : TRUE).kf]))
                   /\\ Step(Q)
              ELSE Step(G)
Spec == Init /\\ [][Next]_<<t, i, S>>
====
"""


def validate_one(work, tag, module, traces, workers, timeout, heap):
    d = os.path.join(work, "tc_" + tag)
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "traces.ndjson")
    with open(f, "w") as h:
        for t in traces:
            h.write(json.dumps(t) + "\n")
    open(os.path.join(d, "TC.tla"), "w").write(TC % module)
    mis, known, bad = [], [], []

    def sink(ln):
        for mark, dst in (("@M@", mis), ("@K@", known), ("@X@", bad)):
            s = tlc_str(ln, mark)
            if s is not None:
                dst.append(json.loads(s))
                return True
        return False
    rc, lines = tlc(d, "TC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", workers=workers,
                    timeout=timeout, env={"TRACES": f}, sink=sink, heap=heap)
    g, n = counts(lines)
    if rc != 0:
        sys.stdout.write("\n".join(lines[-80:]) + "\n")
        raise ToolError(f"trace validation with {module}: TLC exit {rc}")
    # Every event of every trace must have been consumed (up to a mismatch).
    stop = {m["t"]: m["i"] for m in mis}
    want = sum((stop.get(k + 1, len(t["ev"])) + 1) for k, t in enumerate(traces))
    if n != want:
        raise ToolError(f"trace validation consumed {n} states, expected {want}")
    os.remove(f)
    return mis, known, bad, n


def validate(work, suite, module, traces, timeout=840, parts=None):
    """Checks recorded traces against the specification.  Returns a list of
    mismatches [{trace, i, want}], known deviations and the number of steps."""
    total = sum(len(t["ev"]) for t in traces)
    parts = parts or max(1, min(4, total // 3000))
    chunks = [list(range(k, len(traces), parts)) for k in range(parts)]
    chunks = [c for c in chunks if c]
    t0 = time.time()
    mis, known, steps = [], [], 0
    with cf.ThreadPoolExecutor(len(chunks)) as ex:
        fs = [ex.submit(validate_one, work, f"{suite}_{k}", module, [traces[x] for x in c],
                        max(1, NCPU // len(chunks)), timeout, "5g") for k, c in enumerate(chunks)]
        for c, f in zip(chunks, fs):
            m, kn, bad, n = f.result()
            for x in m:
                mis.append({"t": c[x["t"] - 1], "i": x["i"] - 1, "want": x["want"], "kind": "observation"})
            for x in bad:
                mis.append({"t": c[x["t"] - 1], "i": x["i"] - 1, "want": [], "kind": "state invariant"})
            for x in kn:
                known.append({"t": c[x["t"] - 1], "i": x["i"] - 1, "kf": x["kf"]})
            steps += n
    log(f"validated {len(traces)} traces, {total} events against {module} in {time.time()-t0:.1f}s: {len(mis)} mismatches")
    return mis, known, steps


def corrupt(traces, rng, n=24):
    """Corrupted copies of recorded traces: the last kept event's observation
    is replaced by an impossible one (all must be rejected) or by a different
    observation recorded for the same operation (most must be)."""
    byop = {}
    for t in traces:
        for e in t["ev"]:
            byop.setdefault(e["op"], {})[json.dumps(e["obs"], sort_keys=True)] = e["obs"]
    out = []
    cand = [t for t in traces if t["ev"]]
    for k in range(n if cand else 0):
        t = rng.choice(cand)
        j = rng.randrange(len(t["ev"]))
        ev = [dict(e) for e in t["ev"][:j + 1]]
        others = [o for s, o in byop[ev[j]["op"]].items() if o != ev[j]["obs"]]
        if k < 2 or not others:
            ev[j]["obs"] = dict(ev[j]["obs"], r="CORRUPTED")
            sure = True
        else:
            ev[j]["obs"] = rng.choice(others)
            sure = False
        out.append((sure, {"cfg": t["cfg"], "ev": ev}))
    return out


# ---------------------------------------------------------------- findings
def findings():
    """known_findings.txt: `finding: property=<id> key=<key> <text>` lines."""
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", ln.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


# ---------------------------------------------------------------- TLA values
def tla(v):
    """A Python value as a TLA+ expression (set/frozenset as sets, dict as record)."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        for c, e in ("\\", "\\\\"), ('"', '\\"'), ("\n", "\\n"), ("\r", "\\r"), ("\t", "\\t"):
            v = v.replace(c, e)
        return '"' + v + '"'
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>" if v else "<< >>"
    if isinstance(v, dict):
        return "[" + ", ".join(f"{k} |-> {tla(x)}" for k, x in v.items()) + "]"
    raise TypeError(v)


def tset(vs):
    """A TLA+ set of the given values, without duplicates."""
    return "{" + ",\n ".join(dict.fromkeys(tla(v) for v in vs)) + "}"
