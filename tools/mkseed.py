#!/usr/bin/env python3
"""mkseed.py FILE: creates a seeded bug. FILE is a python file defining ID, PROP, NEEDS, BREAKS, EDITS
[(file, old, new)], DEMO (rust main body)"""
import os, sys, json, subprocess, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
for b in ns["BUGS"]:
    d = "/verif/seeded/" + b["id"]
    os.makedirs(d + "/src", exist_ok=True)
    shutil.rmtree("/tmp/wt_mk", ignore_errors=True)
    shutil.copytree("/repo", "/tmp/wt_mk", ignore=shutil.ignore_patterns("target"))
    for f, old, new in b["edits"]:
        p = "/tmp/wt_mk/" + f
        s = open(p).read()
        n = s.count(old)
        if n != 1 and not b.get("multi"):
            print(b["id"], "pattern found", n, "times in", f); sys.exit(1)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", "/tmp/wt_mk", "diff"], capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    shutil.rmtree("/tmp/wt_mk")
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
    open(d + "/src/main.rs", "w").write(b["demo"])
    open(d + "/Cargo.toml", "w").write('''[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[dependencies]
termimad = { path = "/repo" }
minimad = "0.13"
unicode-width = "0.1.14"
%s
[workspace]
''' % b.get("deps", ""))
    shutil.copy("/verif/tools/demo.lock", d + "/Cargo.lock")
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# exits 0 when the property holds on the demonstrated input
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
mkdir $T/src
cp $D/Cargo.toml $D/Cargo.lock $T/
cp $D/src/*.rs $T/src/
CARGO_TARGET_DIR=$T/target cargo +stable run -q --offline --manifest-path $T/Cargo.toml%s
R=$?
rm -rf "$T"
exit $R
''' % b.get("stdin", ""))
    print(d)
