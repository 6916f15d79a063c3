#!/usr/bin/env python3
"""Mutation testing of the checks (not a check itself).
  mutate.py list FILE..            the mutants (numbered)
  mutate.py dump DIR               the stimuli of all plans and their answers on the unchanged tree (digests)
  mutate.py run DIR N FROM TO      worker N: mutants FROM..TO; a line per mutant: killed by the tests, told apart, or neither
Each worker runs in a mount namespace of its own with a copy of /repo (see par.py)."""
import hashlib, json, os, random, re, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mbt"))
R = "/repo"
FILES = ["ser-write-json/src/base64.rs", "ser-write-json/src/de.rs", "ser-write-json/src/ser.rs", "ser-write-msgpack/src/de.rs", "ser-write-msgpack/src/ser.rs", "src/lib.rs", "src/foreign.rs"]
RULES = [(r"==", "!="), (r"!=", "=="), (r"<=", "<"), (r">=", ">"), (r" < ", " <= "), (r" > ", " >= "), (r" < ", " > "), (r"&&", "||"), (r"\|\|", "&&"), (r"\.\.=", ".."), (r"(?<=\w)\.\.(?=[\w(])", "..="), (r" \+ ", " - "), (r" - ", " + "), (r"\+=", "-="),
         (r"<<", ">>"), (r">>", "<<"), (r" & ", " | "), (r" \| ", " & "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" \* ", " + "), (r" / ", " * "), (r" % ", " / "), (r"\bis_some\b", "is_none"), (r"\bis_none\b", "is_some"), (r"\bis_ok\b", "is_err"), (r"\bis_err\b", "is_ok"),
         (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"checked_(add|sub|mul)", r"wrapping_\1"), (r"visit_borrowed_(str|bytes)", r"visit_\1"), (r"\bu16\b", "u8"), (r"\bu32\b", "u16"), (r"\bu64\b", "u32"), (r"\bi64\b", "i32"), (r"\bi16\b", "i8"), (r"\bi32\b", "i16"), (r"\bu8\b", "i8"), (r"\bf64\b", "f32"), (r"\busize\b", "u8"),
         (r"\bSome\(", "None.or("), (r"Err\((Error::\w+)\)", "Err(Error::DeserializeError)"), (r"\bbreak\b", "continue"), (r"\bif (?!let)([^{]+) \{", r"if !(\1) {"), (r"\bif (?!let)([^{]+) \{", r"if true || (\1) {"), (r"\bif (?!let)([^{]+) \{", r"if false && (\1) {"),
         (r"\+ 1\b", "+ 2"), (r"\+ 1\b", ""), (r"- 1\b", ""), (r"- 1\b", "- 2"), (r"\.rev\(\)", ""), (r"\.iter\(\)\.position", ".iter().rposition"), (r"position\(\|&b\| ", "position(|&b| b == 0 || "), (r"unwrap_or\(([^()]*)\)", "unwrap_or_default()"), (r"\?;", ".ok();"), (r"\|b'[^']+'", ""), (r"b'[^']+'\|", ""), (r"Error::(\w+)", "Error::InvalidType")]
def code(f):
    lines = open(os.path.join(R, f)).read().split("\n")
    end = next((i for i, l in enumerate(lines) if l.startswith("#[cfg(test)]") or re.match(r"#\[cfg\(all\(test", l)), len(lines))
    return lines, end
def mutants(files):
    out = []; seen = set()
    for f in files:
        lines, end = code(f); inuse = False
        for i, l in enumerate(lines[:end]):
            s = l.strip()
            if s.startswith("use "): inuse = True
            if inuse:
                if s.endswith(";"): inuse = False
                continue
            if not s or s.startswith(("//", "#", "use ", "*", "pub fn", "fn ", "impl", "pub trait", "pub struct", "struct", "type ", "where", "pub use")): continue
            body = re.sub(r"//.*|/\*.*?\*/", "", l)
            c = []
            for pat, rep in RULES:
                for m in re.finditer(pat, body):
                    n = body[:m.start()] + m.expand(rep) + body[m.end():]
                    c.append(n)
            for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|\d+)(?![\w.']|\.\d)", body):
                try: z = int(m.group(1).replace("_", ""), 0)
                except ValueError: continue
                for d in (1, -1):
                    if z + d >= 0: c.append(body[:m.start()] + (hex(z + d) if m.group(1).startswith("0x") else str(z + d)) + body[m.end():])
            if s.endswith(";") and not s.startswith(("let ", "return", "type", "const", "pub ", "}")): c.append("")
            for m in re.finditer(r"b'(\\?[^'])'", body):
                c.append(body[:m.start()] + "b'\\x01'" + body[m.end():])
            for n in c:
                if n != body and (f, i, n) not in seen: seen.add((f, i, n)); out.append((f, i, body, n))
    return out
def env(): return dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_TARGET_DIR="/repo/target", CARGO_BUILD_JOBS="2")
def cargo(args, t):
    p = subprocess.Popen(["cargo", *args], cwd=R, env=env(), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
    try: return p.wait(t)
    except subprocess.TimeoutExpired: os.killpg(p.pid, 9); p.wait(); return 99
CFGS = ["std", "none-r"]
def digest(r): return hashlib.md5(json.dumps(r, sort_keys=True).encode()).digest()[:8]
def dump(d):
    import build, check
    from plan import Plan
    seen = set(); stim = []
    for i in range(1, 22):
        if i == 19: continue
        p = f"C{i:02}"; plan = Plan(1, "quick")
        got = getattr(plan, p)()[0]
        for s in random.Random(3).sample(got, min(len(got), 25000)):
            if "only" in s or s["op"] == "deep" and s["depth"] > 1000: continue
            k = p + json.dumps(s, sort_keys=True)
            if k not in seen: seen.add(k); stim.append(dict(s, q=p))
    random.Random(5).shuffle(stim)
    bins = build.build(CFGS)
    with open(d + "/stim", "w") as f:
        for s in stim: f.write(json.dumps(s, separators=(",", ":")) + "\n")
    for c in CFGS:
        with open(d + "/" + c, "wb") as f:
            for r in check.run_driver(bins[c], stim, tables=False): f.write(digest(r["r"]))
    print(len(stim), "stimuli")
def run(d, lo, hi, keep=None):
    import build, check
    stim = [json.loads(l) for l in open(d + "/stim")]
    base = {c: open(d + "/" + c, "rb").read() for c in CFGS}
    std0 = f"{d}/std0.{lo}"; __import__("shutil").copy(build.build(["std"])["std"], std0)          # the unchanged tree's, for the tables
    ms = mutants(FILES)
    order = list(range(len(ms))); random.Random(7).shuffle(order)
    for at in (keep or order[lo:hi]):
        f, i, old, new = ms[at]
        path = os.path.join(R, f); src = open(path).read(); lines = src.split("\n"); assert re.sub(r"//.*|/\*.*?\*/", "", lines[i]) == old
        lines[i] = new; t0 = time.time()
        def say(x): print(f"{at} {f}:{i+1} [{old.strip()}] -> [{new.strip()}] {x} {time.time()-t0:.0f}s", flush=True)
        try:
            open(path, "w").write("\n".join(lines))
            if cargo(["build", "--offline"], 120): say("does not compile"); continue
            if cargo(["test", "--offline"], 150): say("killed"); continue
            if cargo(["test", "--offline", "--no-default-features"], 150): say("killed no-std"); continue
            if cargo(["test", "--offline", "-r"], 150): say("killed release"); continue
            verdict = "NOT TOLD APART"; differ = 0; hit = None
            cuts = [0, 300, 2000, *range(10000, len(stim), 25000), len(stim)]
            check.STEP_LIMIT = 4
            for c in CFGS:
                bins = build.build([c])
                for b, b2 in zip(cuts, cuts[1:]):
                    part = stim[b:b2]; evs = []
                    rs = check.run_driver(bins[c], part, tables=False, shards=2)
                    bad = [x for x in range(len(part)) if rs[x]["r"] is not None and digest(rs[x]["r"]) != base[c][8 * (b + x):8 * (b + x) + 8]]
                    if not bad: continue
                    differ += len(bad); bad = bad[:60]
                    tab = check.run_driver(std0, [part[x] for x in bad], tables=True, shards=1)
                    for x, t in zip(bad, tab):
                        st = dict(part[x]); st.setdefault("fl", 0)
                        st.update(r=rs[x]["r"], ft=t["ft"], fs=t["fs"], ns=int(build.is_nostd(c)) if check.has_kind(st, "cstr") else 0, fk="f64"); evs.append(st)
                    hit, _, _ = check.judge(evs)
                    if hit is not None: verdict = f"detected {evs[hit]['q']} after {b} {c}"; break
                    if differ > 3000: verdict = f"DIFFERENT, ACCEPTED {json.dumps(evs[0])[:500]}"; break
                if hit is not None or differ > 3000: break
            else:
                if differ: verdict = "DIFFERENT, ACCEPTED"
            say(verdict)
        except Exception as e: import traceback; say("ERROR " + traceback.format_exc()[-900:])
        finally: open(path, "w").write(src)
if __name__ == "__main__":
    if sys.argv[1] == "list":
        for n, m in enumerate(mutants(sys.argv[2:] or FILES)): print(n, f"{m[0]}:{m[1]+1} [{m[2].strip()}] -> [{m[3].strip()}]")
    elif sys.argv[1] == "dump": dump(sys.argv[2])
    elif sys.argv[1] == "run": run(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]))
    elif sys.argv[1] == "try":          # mutate.py try Cnn N..: the check on single mutants (in /repo: only where that is a private copy)
        ms = mutants(FILES)
        for at in map(int, sys.argv[3:]):
            f, i, old, new = ms[at]; path = os.path.join(R, f); src = open(path).read(); lines = src.split("\n"); lines[i] = new
            try:
                open(path, "w").write("\n".join(lines))
                p = subprocess.run(["python3", "/verif/mbt/check.py", sys.argv[2]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                print(at, f"{f}:{i+1} [{old.strip()}] -> [{new.strip()}]", p.returncode, p.stdout.strip().split("\n")[-1][:200], flush=True)
            finally: open(path, "w").write(src)
    else: run(sys.argv[2], 0, 0, [int(x) for x in sys.argv[3:]])
