#!/usr/bin/env python3
"""plant.py BUGFILE...: each file defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (rust main.rs)"""
import sys, os, subprocess, json, shutil, re
W=f"/tmp/plant/wt{os.getpid()}"
def sh(cmd, cwd=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
DEMO_SH='''#!/bin/bash
# run with cwd /repo; exit 0: behaves as it should, nonzero: broken
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d /tmp/vcdemo.XXXXXX)" || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
vec-collections = { path = "$repo", features = ["total", "radixtree", "lazy_radixtree", "rkyv", "rkyv_validated", "std_support", "serde"] }
rkyv = { version = "0.7.19", features = ["validation"] }
bytecheck = "0.6.5"
smallvec = "1.4"
serde = "1"
serde_json = "1.0.41"
T
cd "$d" || exit 3
export CARGO_TARGET_DIR="$d/target"
RUSTFLAGS=-Awarnings cargo build --offline -q 2>"$d/log" || { cat "$d/log"; exit 3; }
timeout 120 "$d/target/debug/demo"
'''
def stage():
    if not os.path.isdir(W):
        sh(f"cp -a /repo {W}")
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", W)
base=set(json.load(open('/opt/vp/BASELINE.json'))) if False else None
ok=True
for f in sys.argv[1:]:
    ns={}
    exec(open(f).read(), ns)
    ID=ns['ID']; stage()
    for (p,old,new) in ns['EDITS']:
        s=open(f"{W}/{p}").read()
        if s.count(old)<1: print(ID,"EDIT NOT FOUND",p,old[:60]); ok=False
        n=ns.get('COUNT',1)
        assert s.count(old)==n or n==0,(ID,"count",s.count(old),old[:80])
        open(f"{W}/{p}","w").write(s.replace(old,new))
    diff=sh("git diff",W).stdout
    out=f"/verif/seeded/{ID}"
    tmp=f"/tmp/plant/out/{ID}"
    os.makedirs(tmp,exist_ok=True)
    open(f"{tmp}/patch.diff","w").write(diff)
    open(f"{tmp}/demo.rs","w").write(ns['DEMO'])
    open(f"{tmp}/demo.sh","w").write(DEMO_SH); os.chmod(f"{tmp}/demo.sh",0o755)
    json.dump({"property":ns['PROPERTY'],"needs":ns['NEEDS'],"what_it_breaks":ns['BREAKS']},open(f"{tmp}/meta.json","w"),indent=1)
    t=sh("for i in 1 2 3 4 5; do cargo test --workspace --all-features --no-fail-fast --locked --offline -- --test-threads 8 2>&1 || exit 1; done && cargo check --workspace --all-targets --locked --offline 2>&1",W)
    fails=sorted(set(re.findall(r"^test (\S+(?: - .*)?) \.\.\. FAILED",t.stdout,re.M)))
    comp = "error: could not compile" in t.stdout
    d1=sh(f"bash {tmp}/demo.sh",W)
    stage()
    d0=sh(f"bash {tmp}/demo.sh",W)
    good = not fails and not comp and t.returncode==0 and d0.returncode==0 and d1.returncode not in (0,3)
    print(f"{ID}: compile_err={comp} failed_tests={fails} rc={t.returncode} demo clean={d0.returncode} patched={d1.returncode} -> {'KEEP' if good else 'REJECT'}")
    if not good:
        if comp: print(t.stdout[-3000:])
        if d0.returncode: print("CLEAN:",d0.stdout[-1500:],d0.stderr[-1500:])
        if d1.returncode in (0,3): print("PATCHED:",d1.stdout[-1500:],d1.stderr[-1500:])
    else:
        shutil.rmtree(out,ignore_errors=True); shutil.copytree(tmp,out)
shutil.rmtree(W,ignore_errors=True)
