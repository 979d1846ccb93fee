#!/usr/bin/env python3
"""Lays out the harness workspace in OUT: one shim crate per /repo crate (its manifest, with the lib
path pointing into /repo), the stand-ins of rt/stubs and the harness binaries of rt/h. No source of
/repo is copied. usage: sync.py OUT [REPO]"""
import json, os, sys, tomllib, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.abspath(sys.argv[1])
REPO = sys.argv[2] if len(sys.argv) > 2 else "/repo"
STUBS = sorted(os.listdir(f"{HERE}/stubs"))
CRATES = """bd-api bd-buffer bd-client-common bd-client-stats bd-client-stats-store bd-completion bd-device
bd-grpc-codec bd-internal-logging bd-key-value bd-log bd-log-filter bd-log-matcher bd-log-metadata
bd-log-primitives bd-matcher bd-metadata bd-network-quality bd-proto bd-rt bd-runtime
bd-runtime-config bd-server-stats bd-session bd-shutdown bd-stats-common bd-time bd-workflows""".split()
DROP = {"protobuf-codegen", "protobuf-json-mapping", "flatc-rust", "cc"}

def write(p, t):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if os.path.exists(p) and open(p).read() == t:
        return
    open(p, "w").write(t)

def tv(v):
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{json.dumps(k)} = {tv(x)}" for k, x in v.items()) + " }"
    if isinstance(v, list):
        return "[" + ", ".join(tv(x) for x in v) + "]"
    return json.dumps(v)

def dump(t):
    o = ""
    for n, tab in t.items():
        o += f"[{n}]\n" + "".join(f"{json.dumps(k)} = {tv(v)}\n" for k, v in tab.items()) + "\n"
    return o

ws = tomllib.load(open(f"{REPO}/Cargo.toml", "rb"))["workspace"]
wdeps = {k: v for k, v in ws["dependencies"].items() if k not in DROP and k not in STUBS}
for s in STUBS:
    d = {"path": f"{HERE}/stubs/{s}"}
    wdeps[s] = d
if "flate2" in wdeps:
    wdeps["flate2"]["default-features"] = False
harnesses = sorted(h for h in os.listdir(f"{HERE}/h") if os.path.exists(f"{HERE}/h/{h}/main.rs")) if os.path.isdir(f"{HERE}/h") else []
members = [f"crates/{c}" for c in CRATES] + [f"h/{h}" for h in harnesses] + ["hx"]
def dep(v, base):
    if isinstance(v, dict):
        v = dict(v)
        if "path" in v:
            n = os.path.basename(v["path"])
            v["path"] = f"{HERE}/stubs/{n}" if n in STUBS else f"{OUT}/crates/{n}"
    return v
for c in CRATES:
    m = tomllib.load(open(f"{REPO}/{c}/Cargo.toml", "rb"))
    p = m["package"]
    deps = {}
    for k, v in m.get("dependencies", {}).items():
        if k in DROP or (isinstance(v, dict) and "path" in v and os.path.basename(v["path"]) not in CRATES + STUBS):
            continue
        deps[k] = dep(v, c)
    t = {"package": {"name": p["name"], "version": p["version"], "edition": p["edition"], "build": False,
                     "autotests": False, "autobenches": False, "autoexamples": False, "autobins": False},
         "lib": {"path": f"{REPO}/{c}/src/lib.rs", "doctest": False, "test": False},
         "dependencies": deps}
    if "features" in m:
        t["features"] = m["features"]
    write(f"{OUT}/crates/{c}/Cargo.toml", dump(t))
write(f"{OUT}/hx/Cargo.toml", dump({"package": {"name": "hx", "version": "0.0.0", "edition": "2021"}, "lib": {"path": f"{HERE}/hx/lib.rs", "doctest": False, "test": False}, "dependencies": {}}))
for h in harnesses:
    # First lines of main.rs: //! deps: a b c
    deps = {"hx": {"path": f"{OUT}/hx"}}
    for line in open(f"{HERE}/h/{h}/main.rs"):
        if line.startswith("//! deps:"):
            for d in line[9:].split():
                if d in CRATES:
                    deps[d] = {"path": f"{OUT}/crates/{d}"}
                else:
                    deps[d] = {"workspace": True}
    write(f"{OUT}/h/{h}/Cargo.toml", dump({"package": {"name": h, "version": "0.0.0", "edition": "2021", "build": False}, "features": {"priv": []}, "dependencies": deps}) +
        f'[[bin]]\nname = "{h}"\npath = "{HERE}/h/{h}/main.rs"\n')
write(f"{OUT}/Cargo.toml", dump({"workspace": {"members": members, "resolver": "2"}, "workspace.dependencies": wdeps,
  "profile.dev": {"debug": 0, "opt-level": 1, "overflow-checks": True, "debug-assertions": True}}) )
if not os.path.exists(f"{OUT}/Cargo.lock"):
    shutil.copy(f"{HERE}/Cargo.lock", f"{OUT}/Cargo.lock")
