"""Builds the driver against /repo's working tree, one binary per feature configuration, cached by content."""
import hashlib, json, os, re, shutil, subprocess, sys, tarfile, threading, fcntl, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
# name: (features, release)
CONFIGS = {
    "std": ("std", False), "std-r": ("std", True),
    "alloc": ("alloc", False), "alloc-r": ("alloc", True),
    "none": ("", False), "none-r": ("", True),
    "f32": ("std,f32", False), "f32-r": ("std,f32", True), "f32-none": ("f32", False),
}
# a 32-bit target, as most of the users' are: WebAssembly, run by node
WASM = {"w32": ("std", False), "w32-r": ("std", True), "w32-none": ("", False), "w32-none-r": ("", True)}
def is_nostd(cfg): return cfg.split("-")[0] == "none" or cfg == "f32-none" or cfg.startswith("w32-none")
def is_wasm(path): return os.path.basename(path).startswith("w32")
def is_f32(cfg): return cfg.startswith("f32")

def source_files():
    out = []
    for root, base in ((REPO, ["Cargo.toml", "src", "ser-write-json/src", "ser-write-json/Cargo.toml", "ser-write-msgpack/src",
                               "ser-write-msgpack/Cargo.toml"]),
                       (os.path.join(VERIF, "harness"), ["Cargo.toml", "Cargo.lock", "src"])):
        for b in base:
            p = os.path.join(root, b)
            if os.path.isdir(p):
                for d, _, fs in os.walk(p):
                    out += [os.path.join(d, f) for f in fs]
            elif os.path.exists(p):
                out.append(p)
    return sorted(out)

def tree_hash():
    h = hashlib.sha256()
    for f in source_files():
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()[:20]

def env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0",
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    e.pop("RUSTFLAGS", None)
    return e

def vendor():
    """a directory with the crates the standard library and the driver are built from"""
    out = os.path.join(BUILD, "vend"); os.makedirs(out, exist_ok=True)
    sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=dict(env(), RUSTUP_TOOLCHAIN="nightly-x86_64-unknown-linux-gnu"), stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
    for d in glob.glob(os.path.join(sysroot, "lib/rustlib/src/rust/library/vendor/*")):
        to = os.path.join(out, os.path.basename(d))
        if not os.path.lexists(to): os.symlink(d, to)
    home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
    lock = open(os.path.join(VERIF, "harness", "Cargo.lock")).read()
    for n, v, c in re.findall(r'\[\[package\]\]\nname = "([^"]+)"\nversion = "([^"]+)"\nsource = "registry[^"]*"\nchecksum = "([0-9a-f]+)"', lock):
        to = os.path.join(out, f"{n}-{v}")
        if os.path.lexists(to): continue
        for x in (".tmp", ".tmp.d"): shutil.rmtree(to + x, ignore_errors=True)
        src = glob.glob(os.path.join(home, "registry", "src", "*", f"{n}-{v}"))
        if src: shutil.copytree(src[0], to + ".tmp")
        else:
            crate = glob.glob(os.path.join(home, "registry", "cache", "*", f"{n}-{v}.crate"))[0]
            with tarfile.open(crate) as t: t.extractall(to + ".tmp.d")
            os.rename(os.path.join(to + ".tmp.d", f"{n}-{v}"), to + ".tmp"); shutil.rmtree(to + ".tmp.d")
        with open(os.path.join(to + ".tmp", ".cargo-checksum.json"), "w") as f: json.dump({"files": {}, "package": c}, f)
        os.rename(to + ".tmp", to)
    return out

def build(configs):
    """returns {config: path of the driver}; raises when the tree does not compile"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        h = tree_hash()
        bins = os.path.join(BUILD, "bin", h)
        os.makedirs(bins, exist_ok=True)
        for old in glob.glob(os.path.join(BUILD, "bin", "*")):      # a few trees at most
            if old != bins and len(os.listdir(os.path.join(BUILD, "bin"))) > 4:
                shutil.rmtree(old, ignore_errors=True)
        todo = [c for c in configs if c in CONFIGS and not os.path.exists(os.path.join(bins, c))]
        errors = []
        def chain(rel):
            tgt = os.path.join(BUILD, "target-" + ("r" if rel else "d"))
            stamp = os.path.join(tgt, "tree")
            if not os.path.exists(stamp) or open(stamp).read() != h:
                # cargo goes by file times; these crates are always rebuilt for a new content
                for pat in ("ser-write*", "driver*"):
                    for d in glob.glob(os.path.join(tgt, "*", ".fingerprint", pat)):
                        shutil.rmtree(d, ignore_errors=True)
                os.makedirs(tgt, exist_ok=True)
                open(stamp, "w").write(h)
            for c in todo:
                feats, r = CONFIGS[c]
                if r != rel: continue
                e = env(); e["CARGO_TARGET_DIR"] = tgt
                cmd = ["cargo", "build", "--offline", "--locked", "--quiet", "--features", feats] + (["--release"] if r else [])
                p = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=e, stdin=subprocess.DEVNULL,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode != 0:
                    errors.append(f"{c}: {p.stdout[-3000:]}")
                    return
                if tree_hash() != h:
                    errors.append("the sources changed while they were built")
                    return
                tmp = os.path.join(bins, c + ".tmp")
                shutil.copy2(os.path.join(tgt, "release" if r else "debug", "driver"), tmp)
                os.rename(tmp, os.path.join(bins, c))
        def wasm():
            todo = [c for c in configs if c in WASM and not os.path.exists(os.path.join(bins, c))]
            if not todo: return
            try: vend = vendor()
            except Exception as x: print("no 32-bit build:", x); return
            if not shutil.which("node"): print("no 32-bit build: no node"); return
            for c in todo:
                feats, r = WASM[c]
                e = env(); e.update(CARGO_TARGET_DIR=os.path.join(BUILD, "target-w"), RUSTUP_TOOLCHAIN="nightly-x86_64-unknown-linux-gnu",
                                    RUSTFLAGS="-C panic=abort -C link-arg=--export=room -C link-arg=--export=step -C link-arg=--export=done -C link-arg=-zstack-size=8388608")
                for pat in ("ser-write*", "driver*"):
                    for d in glob.glob(os.path.join(BUILD, "target-w", "*", "*", ".fingerprint", pat)): shutil.rmtree(d, ignore_errors=True)
                cmd = ["cargo", "build", "--offline", "--quiet", "--locked", "-Zbuild-std=std,panic_abort", "--target", "wasm32-unknown-unknown", "--features", feats,
                       "--config", 'source.crates-io.replace-with="vend"', "--config", f'source.vend.directory="{vend}"'] + (["--release"] if r else [])
                p = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode != 0: print(f"{c} could not be built: {p.stdout[-600:]}"); return
                if tree_hash() != h: errors.append("the sources changed while they were built"); return
                mod = os.path.join(bins, "module-" + c)
                shutil.copy2(os.path.join(BUILD, "target-w", "wasm32-unknown-unknown", "release" if r else "debug", "driver.wasm"), mod)
                tmp = os.path.join(bins, c + ".tmp")
                with open(tmp, "w") as f: f.write(f'#!/bin/sh\nexec node --stack-size=3900 {os.path.join(VERIF, "mbt", "wasm.js")} {mod} "$@"\n')
                os.chmod(tmp, 0o755); os.rename(tmp, os.path.join(bins, c))
        ts = [threading.Thread(target=chain, args=(r,)) for r in (False, True)] + [threading.Thread(target=wasm)]
        for t in ts: t.start()
        for t in ts: t.join()
        if errors:
            raise RuntimeError("build failed: " + "\n".join(errors))
        # (the 32-bit builds are left out where they cannot be made; that the tree compiles is seen from the others)
        return {c: os.path.join(bins, c) for c in configs if c in CONFIGS or os.path.exists(os.path.join(bins, c))}

if __name__ == "__main__":
    print(build(sys.argv[1:] or list(CONFIGS)))
