#!/usr/bin/env python3
"""plant.py make ID.. | try ID.. : turns the entries of plants.py into seeded/<id>/ and confirms them.
make: patch against /repo's HEAD, build, stable tests, demonstration with and without (all in /repo, undone afterwards).
try ID[:Cnn] ..: runs the property's check (or the one named) on the changed tree."""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = os.path.join(V, "seeded"); R = "/repo"
RUN = '''import os, subprocess, sys, tempfile, shutil
here = os.path.dirname(os.path.abspath(__file__)); repo = os.getcwd()
FEATURES, RELEASE = %r, %r
std = ["std"] if "std" in FEATURES else []
def dep(path, extra): return '{ path = "%%s/%%s", default-features = false, features = %%s }' %% (repo, path, str(std + extra).replace("'", '"'))
with tempfile.TemporaryDirectory(prefix="demo") as t:
    os.mkdir(t + "/src"); shutil.copy(here + "/main.rs", t + "/src/main.rs"); shutil.copy(here + "/lock", t + "/Cargo.lock")
    open(t + "/Cargo.toml", "w").write("""[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
ser-write = %%s
ser-write-json = %%s
ser-write-msgpack = %%s
serde = { version = "1", default-features = false, features = ["derive", "alloc"] }
serde_bytes = { version = "0.11", default-features = false, features = ["alloc"] }
arrayvec = { version = "0.7", default-features = false }
tinyvec = { version = "1.9", default-features = false, features = ["alloc"] }
""" %% (dep(".", ["arrayvec", "heapless", "tinyvec"]), dep("ser-write-json", ["de-any-f32"] if "de-any-f32" in FEATURES else []), dep("ser-write-msgpack", [])))
    e = dict(os.environ, CARGO_TARGET_DIR=t + "/target", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    sys.exit(1 if subprocess.run(["cargo", "run", "-q", "--offline"] + (["--release"] if RELEASE else []), cwd=t, env=e, timeout=280).returncode else 0)
'''
PRELUDE = '''#![allow(unused_imports, dead_code)]
use serde::{Serialize, Deserialize, Serializer, Deserializer, de::DeserializeOwned, ser::*};
use std::collections::*;
use ser_write::{SerWrite, SliceWriter, SerError};
use ser_write_json as json; use ser_write_msgpack as mp;
/// a growing sink that needs no feature of the crate
#[derive(Default)] struct Sink(Vec<u8>);
impl SerWrite for Sink { type Error = SerError; fn write(&mut self, b: &[u8]) -> Result<(), SerError> { self.0.extend_from_slice(b); Ok(()) } }
fn j<T: Serialize + ?Sized>(v: &T) -> Result<String, ()> { let mut s = Sink::default(); json::ser::to_writer(&mut s, v).map_err(|_| ())?; Ok(String::from_utf8(s.0).unwrap()) }
fn m<T: Serialize + ?Sized>(v: &T) -> Result<Vec<u8>, ()> { let mut s = Sink::default(); mp::ser::to_writer_compact(&mut s, v).map_err(|_| ())?; Ok(s.0) }
fn mi<T: Serialize + ?Sized>(v: &T) -> Result<Vec<u8>, ()> { let mut s = Sink::default(); mp::ser::to_writer(&mut s, v).map_err(|_| ())?; Ok(s.0) }
fn mn<T: Serialize + ?Sized>(v: &T) -> Result<Vec<u8>, ()> { let mut s = Sink::default(); mp::ser::to_writer_named(&mut s, v).map_err(|_| ())?; Ok(s.0) }
fn jd<T: DeserializeOwned>(s: &str) -> Result<T, json::de::Error> { let mut b = s.as_bytes().to_vec(); json::de::from_mut_slice(&mut b) }
fn md<T: DeserializeOwned>(b: &[u8]) -> Result<T, mp::de::Error> { mp::de::from_slice(b).map(|(v, _)| v) }
fn main() {
%s
}
%s
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def undo(): subprocess.run(["git", "-C", R, "checkout", "--", "."], check=True)
def clean():
    if sh(["git", "-C", R, "status", "--porcelain"]).stdout.strip(): sys.exit("/repo is not clean")
def demo(d): return sh(["bash", os.path.join(d, "demo.sh")], cwd=R, timeout=300)
def make(p):
    d = os.path.join(S, p["id"]); os.makedirs(d, exist_ok=True); clean()
    open(os.path.join(d, "main.rs"), "w").write(PRELUDE % (p["demo"].strip("\n"), p.get("items", "").strip("\n")))
    open(os.path.join(d, "run.py"), "w").write(RUN % (p.get("features", "std"), p.get("release", False)))
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/run.py"\n')
    shutil.copy(os.path.join(V, "tools", "demo.lock"), os.path.join(d, "lock"))
    json.dump(dict(property=p["property"], needs=p["needs"], what_it_breaks=p["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    r = demo(d)
    if r.returncode: return "demo fails on the unchanged tree:\n" + r.stdout[-3000:]
    try:
        for f, old, new in p["edits"]:
            path = os.path.join(R, f); s = open(path).read(); at = p.get("nth", 0)
            n = s.count(old)
            if n == 0: return f"text not found in {f}: {old[:60]}"
            if n > 1 and "nth" not in p: return f"{n} places in {f}: {old[:60]}"
            i = -1
            for _ in range(at + 1): i = s.index(old, i + 1)
            open(path, "w").write(s[:i] + new + s[i + len(old):])
        open(os.path.join(d, "patch.diff"), "w").write(sh(["git", "-C", R, "diff"]).stdout)
        b = sh("bash /opt/vp/build.sh")
        if b.returncode: return "does not build:\n" + "\n".join(l for l in b.stdout.splitlines() if "error" in l)[:1500] + b.stdout[-1500:]
        out = f"/tmp/plant.{os.getpid()}.json"; sh("bash /opt/vp/test.sh " + out)
        got = set(json.load(open(out))["passed"]); base = json.load(open("/opt/vp/BASELINE.json"))
        ids = base["passed"] if isinstance(base, dict) and "passed" in base else base
        if isinstance(ids, dict): ids = next(v for v in ids.values() if isinstance(v, list))
        lost = [i for i in ids if i not in got]
        if lost: return f"tests notice: {lost[:4]}"
        r = demo(d)
        if r.returncode == 0: return "demo does not notice"
        return "ok"
    finally: undo()
def attempt(p, pid):
    d = os.path.join(S, p["id"]); clean()
    a = sh(["git", "-C", R, "apply", os.path.join(d, "patch.diff")])
    if a.returncode: return "patch does not apply: " + a.stdout
    try:
        r = sh(["python3", os.path.join(V, "mbt", "check.py"), pid], timeout=1500)
        return f"exit {r.returncode} {r.stdout.strip()[-350:]}"
    finally: undo()
if __name__ == "__main__":
    from plants import PLANTS
    cmd, ids = sys.argv[1], sys.argv[2:]
    for p in PLANTS:
        for i in ids or [p["id"]]:
            i, _, pid = i.partition(":")
            if i != p["id"]: continue
            if cmd == "make": print(p["id"], make(p), flush=True)
            else: print(p["id"], pid or p["property"], attempt(p, pid or p["property"]), flush=True)
