#!/usr/bin/env python3
"""check.py <property>: runs the implementation on the property's stimuli and has TLC decide whether what it did is a
behaviour of the specification (spec/Trace.tla).  Exit 0 / 1 with VIOLATION / 2 when the check itself failed."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, resource
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, models
from plan import Plan

VERIF = build.VERIF
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
STEP_LIMIT = 20           # seconds one stimulus may take

class ToolError(Exception): pass

# --------------------------------------------------------------------------------------------------- running the driver
def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def run_shard(binary, lines, tables):
    """results for the lines; a stimulus that kills or hangs the process gets {"x": ABORT | HANG}"""
    res = []
    while len(res) < len(lines):
        p = subprocess.Popen([binary] + (["--tables"] if tables else []), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=None if build.is_wasm(binary) else limits)
        todo = lines[len(res):]
        def feed():
            try:
                for i in range(0, len(todo), 64):
                    p.stdin.write(("\n".join(todo[i:i + 64]) + "\n").encode())
                p.stdin.close()
            except (BrokenPipeError, OSError): pass
        threading.Thread(target=feed, daemon=True).start()
        last = [time.time()]; hung = [False]
        def watch():
            while p.poll() is None:
                time.sleep(0.5)
                if time.time() - last[0] > STEP_LIMIT: hung[0] = True; p.kill(); return
        threading.Thread(target=watch, daemon=True).start()
        for raw in p.stdout:
            if not raw.endswith(b"\n"): break
            res.append(json.loads(raw)); last[0] = time.time()
        p.wait()
        if len(res) < len(lines):
            if p.returncode == 0: raise ToolError("driver stopped early")
            res.append({"r": {"x": "HANG" if hung[0] else "ABORT"}, "ft": [], "fs": []})
    return res

def run_driver(binary, stimuli, tables=False, shards=8):
    lines = [json.dumps(s, separators=(",", ":")) for s in stimuli]
    shards = max(1, min(shards, len(lines)))
    parts = [lines[i::shards] for i in range(shards)]
    with ThreadPoolExecutor(shards) as ex:
        rs = list(ex.map(lambda p: run_shard(binary, p, tables), parts))
    out = [None] * len(lines)
    for i, r in enumerate(rs): out[i::shards] = r
    return out

# --------------------------------------------------------------------------------------------------- TLC
def tlc(module, cfg, env, workers=8, timeout=800, extra=()):
    meta = tempfile.mkdtemp(prefix="tlc", dir=os.path.join(VERIF, "build"))
    try:
        cmd = ["java", "-Xss128m", "-Xmx6g", "-XX:+UseParallelGC", "-DTLA-Library=" + SPEC, "-cp", JARS, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-deadlock",
               "-workers", str(workers), "-config", cfg, *extra, module]
        e = dict(os.environ); e.update(env); e.pop("JAVA_TOOL_OPTIONS", None)
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    finally:
        shutil.rmtree(meta, ignore_errors=True)

def stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)

def tla(x):
    """TLC's JSON reader knows no null"""
    if x is None: return {"null": 1}
    if isinstance(x, dict): return {k: tla(v) for k, v in x.items()}
    if isinstance(x, list): return [tla(v) for v in x] if any(isinstance(v, (dict, list)) or v is None for v in x) else x
    return x

def judge(events, timeout=800):
    """index of a rejected event or None; number of states and transitions"""
    if not events: raise ToolError("no events")
    path = tempfile.mktemp(prefix="trace", suffix=".ndjson", dir=os.path.join(VERIF, "build"))
    with open(path, "w") as f:
        for e in events: f.write(json.dumps(tla(e), separators=(",", ":")) + "\n")
    try:
        rc, out = tlc("Trace.tla", "Trace.cfg", {"TRACE": path}, timeout=timeout)
    finally:
        os.unlink(path)
    gen, dist = stats(out)
    if rc == 0 and "No error has been found" in out: return None, gen, dist
    if "Invariant Conforms is violated" in out:
        m = re.findall(r"/\\ i = (\d+)", out) or re.findall(r"\bi = (\d+)", out)
        return int(m[-1]) - 1, gen, dist
    m = re.search(r"The behavior up to this point is:.*?State \d+:.*?/\\ i = ([1-9]\d*)", out, re.S)
    if m and not re.search(r"StackOverflow|OutOfMemory|TLC cannot handle the temporal|overflow", out):
        # the answer is not even of a form the specification can be asked about
        print("not of the specified form:", (re.search(r"Error: (?!The behavior)(.*)", out) or [""])[0][:300]); return int(m.group(1)) - 1, gen, dist
    raise ToolError("TLC failed:\n" + out[-4000:])

# --------------------------------------------------------------------------------------------------- known findings
def known(pid):
    """stimuli that are known to fail: [(canonical stimulus, stimulus, what fails)]"""
    out = []
    for line in open(os.path.join(VERIF, "known-findings.txt")):
        m = re.match(r"known: property=(\S+) (\{.*\}) (.*)", line.strip())
        if m and m.group(1) == pid:
            st = json.loads(m.group(2)); out.append((json.dumps(st, sort_keys=True), st, m.group(3)))
    return out

# --------------------------------------------------------------------------------------------------- one property
def has_kind(x, k):
    if isinstance(x, dict): return x.get("k") == k or any(has_kind(v, k) for v in x.values())
    if isinstance(x, list): return any(has_kind(v, k) for v in x)
    return False

def record(q, stimuli, configs, bins):
    """events from all configurations, equal ones merged"""
    results = {}
    order = ["std"] + [c for c in configs if c != "std"]
    for c in order: results[c] = run_driver(bins[c], stimuli, tables=(c == "std"))
    events = []; origin = []; napp = 0
    for j, st in enumerate(stimuli):
        base = results["std"][j]
        cstr = has_kind(st, "cstr")
        anyk = has_kind(st, "any") and st["op"] in ("jde", "jpre", "jcur", "jrt", "deep", "err", "far", "nest")
        seen = {}
        for c in configs:
            if st.get("only") == "nostd" and not build.is_nostd(c): continue
            r = results[c][j]["r"]
            if r is None: napp += 1; continue
            ns = int(build.is_nostd(c)) if cstr else 0
            fk = "f32" if anyk and build.is_f32(c) else "f64"
            seen.setdefault((json.dumps(r, sort_keys=True), ns, fk), []).append(c)
        for (rj, ns, fk), cs in seen.items():
            ev = dict(st); ev.pop("only", None)
            ev.setdefault("fl", 0)
            ev.update(q=q, r=json.loads(rj), ft=base["ft"], fs=base["fs"], ns=ns, fk=fk)
            events.append(ev); origin.append((j, cs))
    return events, origin, napp, results

def cfg_events(stimuli, configs, results):
    """C19: the answers of all configurations side by side"""
    events = []; origin = []
    for j, st in enumerate(stimuli):
        anyk = has_kind(st, "any") and st["op"] in ("jde", "jpre", "jcur", "jrt", "far", "nest")
        groups = {}
        for c in configs:
            if anyk and build.is_f32(c) and has_kind(results["std"][j]["r"], "f64"): continue     # floats may differ there, by design
            r = results[c][j]["r"]
            if st["op"] in ("jcur", "mcur") and r and "r" in r:       # how far a failed operation got is not compared
                r = dict(r, r=[dict(x, rem=-1) if x["e"] != "" and o["o"] in ("skip", "val") else x for x, o in zip(r["r"], st["ops"])])
            if r is not None: groups.setdefault(json.dumps(r, sort_keys=True), []).append(c)
        if len(groups) < 1: continue
        events.append(dict(q="C19", op="cfg", rs=[json.loads(g) for g in groups])); origin.append((j, groups))
    return events, origin

def finish(pid, tier, seed, t0, cov, violations):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov, wall_s=round(time.time() - t0, 2), violations=violations,
                       assumptions=["the Rust standard library's decimal/float conversions and UTF-8 checks", "serde's derive code follows the visitor protocol the driver's visitors follow",
                                    "TLC evaluates the specification correctly"]), f, indent=1)

def show(x, limit=600):
    s = json.dumps(x, separators=(",", ":")); return s if len(s) <= limit else s[:limit] + "..."

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    plan = Plan(seed, tier)
    stimuli, configs = getattr(plan, pid)()
    finds = known(pid)
    have = {json.dumps(s, sort_keys=True) for s in stimuli}
    stimuli += [st for key, st, _ in finds if key not in have]
    if tier == "thorough" and "w32" not in configs: configs = configs + ["w32"]
    bins = build.build(list(dict.fromkeys(["std"] + configs)))
    configs = [c for c in configs if c in bins]
    t1 = time.time()
    events, origin, napp, results = record(pid, stimuli, configs, bins)
    if pid == "C19":
        e2, o2 = cfg_events(stimuli, configs, results)
        events += e2; origin += o2
    t2 = time.time()
    found = set()
    for key, st, what in finds:          # a listed stimulus that crashes is a known finding; one that does not is judged like any other
        hit = [x for x in range(len(events)) if json.dumps(stimuli[origin[x][0]], sort_keys=True) == key and "x" in (events[x].get("r") or {})]
        if hit: print(f"KNOWN-FINDING: property={pid} {what}"); found.add(what)
        for x in reversed(hit): del events[x], origin[x]
    bad, gen, dist = judge(events)
    t3 = time.time()
    ops = {}
    for e in events: ops[e["op"]] = ops.get(e["op"], 0) + 1
    mid = len(events) // 2
    now = [m for m in models.HITS if m['explored_in_this_run']]
    cov = dict(states=dist + sum(m['states'] for m in now), transitions=gen + sum(m['transitions'] for m in now), models=models.HITS, traces_validated_against_impl=len(events), stimuli=len(stimuli), by_operation=ops, known_findings=sorted(found), configurations=configs,
               samples=[show({k: v for k, v in events[x].items() if k not in ("ft", "fs")}) for x in (0, mid, len(events) - 1)],
               seconds=dict(build=round(t1 - t0, 1), run=round(t2 - t1, 1), tlc=round(t3 - t2, 1)))
    if bad is not None:
        rep = os.path.join(VERIF, "build", "replay"); os.makedirs(rep, exist_ok=True)
        path = os.path.join(rep, f"{pid}.json")
        j, cs = origin[bad]
        with open(path, "w") as f: json.dump(dict(property=pid, stimulus=stimuli[j], configurations=cs, event=events[bad]), f, indent=1)
        finish(pid, tier, seed, t0, cov, 1)
        print("rejected:", show({k: v for k, v in events[bad].items() if k not in ("ft", "fs")}, 2000), "in", cs)
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    finish(pid, tier, seed, t0, cov, 0)
    print(f"{pid}: {len(events)} recorded behaviours of {len(stimuli)} stimuli conform ({dist} states; build {t1-t0:.0f}s run {t2-t1:.0f}s tlc {t3-t2:.0f}s)")
    return 0

if __name__ == "__main__":
    try: sys.exit(main())
    except Exception as e:                                       # never 0 or 1
        import traceback; traceback.print_exc(); sys.exit(2)
