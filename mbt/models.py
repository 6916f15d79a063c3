"""What TLC explores of the generating modules of the specification (spec/Gen*.tla, InPlace.tla): their laws are checked,
and every state printed becomes a stimulus.  Depends on the specification only, never on the code; kept in build/gen."""
import hashlib, json, os, re, time
import build

class ModelError(Exception): pass
HITS = []                                   # (module, scope, depth, states, transitions, printed) explored in this run

def spec_hash():
    h = hashlib.sha256()
    d = os.path.join(build.VERIF, "spec")
    for f in sorted(os.listdir(d)):
        if f.endswith((".tla", ".cfg")): h.update(f.encode()); h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()[:16]

def explore(module, scope, depth):
    from check import tlc, stats
    gen = os.path.join(build.VERIF, "build", "gen"); os.makedirs(gen, exist_ok=True)
    path = os.path.join(gen, f"{module}-{scope}-{depth}-{spec_hash()}.json")
    fresh = not os.path.exists(path)
    if fresh:
        t0 = time.time()
        rc, out = tlc(module + ".tla", module + ".cfg", {"SCOPE": scope, "DEPTH": str(depth)}, timeout=850)
        if rc != 0 or "No error has been found" not in out: raise ModelError(f"{module} {scope}: a law of the specification fails\n" + "\n".join(x for x in out.splitlines() if not x.startswith('"'))[-3000:])
        g, d = stats(out)
        lines = sorted({x for x in out.splitlines() if x.startswith('"')})
        items = [json.loads(json.loads(x)) for x in lines]
        tmp = path + f".{os.getpid()}"
        with open(tmp, "w") as f: json.dump(dict(states=d, transitions=g, seconds=round(time.time() - t0, 1), items=items), f, separators=(",", ":"))
        os.replace(tmp, path)
    m = json.load(open(path))
    HITS.append(dict(module=module, scope=scope, depth=depth, states=m["states"], transitions=m["transitions"], printed=len(m["items"]), explored_in_this_run=fresh))
    return m["items"]
