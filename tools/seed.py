#!/usr/bin/env python3
"""Plants a bug: seed.py DEFS.py ID...  Each definition becomes seeded/<ID>/ after it was confirmed in a scratch copy of
/repo: it compiles, the repository's tests pass with it, and its demonstration fails with it and passes without it."""
import json, os, shutil, subprocess, sys, runpy
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH="/tmp/seedcopy"
DEMO='''#!/bin/bash
# Builds demo.rs against the av-metrics of the current directory and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$here"/*.bin "$t" 2>/dev/null
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat >"$t/Cargo.toml" <<EOF
[workspace]
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
av-metrics = { path = "$repo/av_metrics" }
av-metrics-decoders = { path = "$repo/av_metrics_decoders", features = ["FEATURES"] }
rayon = "1"
[patch.crates-io]
av-metrics = { path = "$repo/av_metrics" }
[profile.release]
opt-level = 2
EOF
cd "$t" || exit 2
cargo build --release --offline >build.log 2>&1 || { tail -20 build.log; exit 3; }
timeout LIMIT ./target/release/demo
'''
TOOL='''#!/bin/bash
# Builds the tool of the current directory and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
cargo build --release --offline --manifest-path "$repo/av_metrics_tool/Cargo.toml" --target-dir "$t/target" OPTIONS >"$t/build.log" 2>&1 || { tail -20 "$t/build.log"; exit 3; }
tool=$t/target/release/av-metrics-tool
cd "$t" || exit 2
'''
def run(cmd,cwd,timeout=900,env=None):
    return subprocess.run(cmd,shell=True,cwd=cwd,capture_output=True,text=True,timeout=timeout,env=env)
def main():
    defs=runpy.run_path(sys.argv[1])["SEEDS"]
    for id in sys.argv[2:]:
        d=defs[id]
        if not os.path.isdir(SCRATCH): shutil.copytree("/repo",SCRATCH,symlinks=True)
        run("git checkout -q -f HEAD -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD",SCRATCH)
        ok=True
        for f,old,new,*n in d["edits"]:
            p=os.path.join(SCRATCH,f); s=open(p).read()
            if s.count(old)!=(n or [1])[0]: print(id,"edit matches",s.count(old),"times:",old[:60]); ok=False
            open(p,"w").write(s.replace(old,new))
        if not ok: continue
        diff=run("git diff",SCRATCH).stdout
        out=os.path.join(ROOT,"seeded",id); tmp="/tmp/seeds/"+id
        shutil.rmtree(tmp,ignore_errors=True); os.makedirs(tmp)
        open(tmp+"/patch.diff","w").write(diff)
        json.dump({"property":d["property"],"needs":d["needs"],"what_it_breaks":d["breaks"]},open(tmp+"/meta.json","w"),indent=1)
        if "demo" in d:
            open(tmp+"/demo.sh","w").write(DEMO.replace("FEATURES",d.get("features","y4m")).replace("LIMIT",str(d.get("limit",60))))
            open(tmp+"/demo.rs","w").write(d["demo"])
        else:
            open(tmp+"/demo.sh","w").write(TOOL.replace("OPTIONS",d.get("options",""))+d["tool"])
        for f in d.get("files",[]): shutil.copy(os.path.join(os.path.dirname(os.path.abspath(sys.argv[1])),"files",f),tmp)
        os.chmod(tmp+"/demo.sh",0o755)
        r=run(f"bash {tmp}/demo.sh","/repo")
        if r.returncode!=0: print(id,"demo fails on the unchanged tree:",r.returncode,r.stdout[-600:],r.stderr[-600:]); continue
        r=run(f"bash {tmp}/demo.sh",SCRATCH)
        if r.returncode in (0,3): print(id,"demo does not fail:",r.returncode,r.stdout[-1500:],r.stderr[-600:]); continue
        how=(r.stdout+r.stderr).strip().splitlines()[-1:]
        env=dict(os.environ,CARGO_NET_OFFLINE="true",RUSTUP_TOOLCHAIN="stable",CARGO_INCREMENTAL="1",CARGO_PROFILE_DEV_DEBUG="line-tables-only",RUSTC_WRAPPER="")
        for k in("RUSTFLAGS","CARGO_TARGET_DIR","CARGO_BUILD_TARGET"): env.pop(k,None)
        bad=False
        for feat in ("","--features ffmpeg"):
            for _ in range(d.get("repeat",1)):
                r=run(f"cargo test --workspace --no-fail-fast --offline {feat} -- --test-threads 8",SCRATCH,env=env)
                n=r.stdout.count(" ... ok")
                if r.returncode!=0 or n<28: print(id,"tests",feat,r.returncode,n,[l for l in r.stdout.splitlines() if "FAILED" in l][:5]); bad=True
        if bad: continue
        shutil.rmtree(out,ignore_errors=True); shutil.copytree(tmp,out)
        print(id,"kept:",how)
main()
