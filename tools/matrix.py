#!/usr/bin/env python3
"""Which check notices which planted bug (not a check itself).
  matrix.py dump DIR           stimuli of every plan, and digests of the answers of the unchanged tree
  matrix.py run DIR ID..       for each planted bug: the properties whose stimuli show it
Each worker runs in a mount namespace of its own with a copy of /repo (see par.py)."""
import hashlib, json, os, random, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "mbt"))
CFGS = ["std", "none-r"]; MAX = 25000
PROPS = [f"C{i:02}" for i in range(1, 25) if i != 22]
def digest(r): return hashlib.md5(json.dumps(r, sort_keys=True).encode()).digest()[:8]
def dump(d):
    import build, check
    from plan import Plan
    bins = build.build(CFGS)
    shutil.copy(bins["std"], d + "/std0")
    for p in PROPS:
        got = getattr(Plan(1, "quick"), p)()[0]
        got = [s for s in random.Random(3).sample(got, min(len(got), MAX)) if not ("only" in s or s["op"] == "deep" and s["depth"] > 1000)]
        for s in got: s["q"] = p if p != "C19" else s.get("q", p)
        json.dump(got, open(f"{d}/stim.{p}", "w"), separators=(",", ":"))
        for c in CFGS:
            with open(f"{d}/{c}.{p}", "wb") as f:
                for r in check.run_driver(bins[c], got, tables=False): f.write(digest(r["r"]))
        print(p, len(got), flush=True)
def run(d, ids, seeded):
    import build, check
    check.STEP_LIMIT = 4
    for pid in ids:
        meta = json.load(open(f"{seeded}/{pid}/meta.json")); t0 = time.time(); out = {}
        subprocess.run(["git", "-C", "/repo", "apply", f"{seeded}/{pid}/patch.diff"], check=True)
        try:
            bins = build.build(CFGS)
            for p in PROPS:
                stim = json.load(open(f"{d}/stim.{p}")); best = "-"
                for c in CFGS:
                    base = open(f"{d}/{c}.{p}", "rb").read()
                    rs = check.run_driver(bins[c], stim, tables=False, shards=2)
                    bad = [x for x in range(len(stim)) if rs[x]["r"] is not None and digest(rs[x]["r"]) != base[8 * x:8 * x + 8]]
                    if not bad: continue
                    best = f"accepted({len(bad)})"; bad = bad[:400]
                    tab = check.run_driver(d + "/std0", [stim[x] for x in bad], tables=True, shards=2); evs = []
                    for x, t in zip(bad, tab):
                        st = dict(stim[x]); st.setdefault("fl", 0)
                        st.update(r=rs[x]["r"], ft=t["ft"], fs=t["fs"], ns=int(build.is_nostd(c)) if check.has_kind(st, "cstr") else 0, fk="f64"); evs.append(st)
                    hit, _, _ = check.judge(evs)
                    if hit is not None: best = "CAUGHT"; break
                out[p] = best
        finally: subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
        print(pid, meta["property"], "caught:", " ".join(p for p in PROPS if out.get(p) == "CAUGHT"), "| accepted:", " ".join(p + out[p][8:] for p in PROPS if out.get(p, "-").startswith("acc")), f"{time.time()-t0:.0f}s", flush=True)
if __name__ == "__main__":
    if sys.argv[1] == "dump": dump(sys.argv[2])
    else: run(sys.argv[2], sys.argv[4:], sys.argv[3])
