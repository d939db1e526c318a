#!/usr/bin/env python3
"""mkseed.py <id> <property> <file> -- reads a JSON spec from stdin:
{"edits":[[file, old, new],...], "needs":..., "breaks":..., "deps":[crate,...], "demo": "rust main body file"}
writes /verif/seeded/<id>/{patch.diff,demo.sh,demo.rs,meta.json}. The patch is made in a scratch worktree."""
import json,sys,subprocess,os,shutil,tempfile
spec=json.load(open(sys.argv[1]))
sid=spec["id"]
out=f"/verif/seeded/{sid}"; os.makedirs(out,exist_ok=True)
w=tempfile.mkdtemp(dir="/tmp")
subprocess.check_call(["git","-C","/repo","worktree","add","-q","--detach",w+"/r"])
try:
    for f,old,new in spec["edits"]:
        p=f"{w}/r/{f}"; s=open(p).read()
        assert s.count(old)==1,(f,s.count(old))
        open(p,"w").write(s.replace(old,new))
    d=subprocess.check_output(["git","-C",w+"/r","diff"])
    open(out+"/patch.diff","wb").write(d)
    # every replaced line should be one of the original repository, not one of our own commits
    own=set(subprocess.check_output(["git","-C","/repo","log","--format=%H","--grep=^fix:\\|cfg flag"]).decode().split())
    import re
    f=None
    for l in d.decode().splitlines():
        if l.startswith("--- a/"): f=l[6:]
        m=re.match(r"@@ -(\d+)(?:,(\d+))? ",l)
        if m: n=int(m[1])
        elif l.startswith("-") and not l.startswith("---"):
            b=subprocess.check_output(["git","-C","/repo","blame","-s","-l","-L",f"{n},{n}","HEAD","--",f]).decode().split()[0]
            if b in own: print("NOT ORIGINAL",f,n,l)
            n+=1
        elif l.startswith(" "): n+=1
finally:
    subprocess.call(["git","-C","/repo","worktree","remove","--force",w+"/r"]); shutil.rmtree(w,ignore_errors=True)
PATHS={"vortex-array":"vortex-array","vortex-dtype":"vortex-dtype","vortex-scalar":"vortex-scalar","vortex-buffer":"vortex-buffer","vortex-error":"vortex-error","vortex-expr":"vortex-expr","vortex-schema":"vortex-schema","vortex-serde":"vortex-serde","vortex-sampling-compressor":"vortex-sampling-compressor","vortex-flatbuffers":"vortex-flatbuffers","vortex-proto":"vortex-proto","vortex-datetime-dtype":"vortex-datetime-dtype","vortex-datafusion":"vortex-datafusion"}
for e in ["alp","bytebool","datetime-parts","dict","fastlanes","fsst","roaring","runend","runend-bool","zigzag"]:
    PATHS["vortex-"+e]="encodings/"+e
deps=""
for x in spec["deps"]:
    n,_,extra=x.partition(" ")
    if n in PATHS: deps+=f'{n} = {{ path = "/repo/{PATHS[n]}"{", "+extra if extra else ""} }}\n'
    else: deps+=x+"\n"
open(out+"/demo.rs","w").write(spec["demo"])
open(out+"/demo.sh","w").write(f'''#!/bin/bash
# exit 0 when the code behaves, nonzero otherwise. Builds a small program against /repo in a scratch directory.
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"; cp "$D/demo.rs" "$T/src/main.rs"; cp /repo/Cargo.lock /repo/rust-toolchain.toml "$T/"
cat >"$T/Cargo.toml" <<'X'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
{deps}[profile.dev]
debug = 0
X
cd "$T" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" timeout 280 cargo run --offline -q
''')
os.chmod(out+"/demo.sh",0o755)
json.dump({"property":spec["property"],"needs":spec["needs"],"what_it_breaks":spec["breaks"]},open(out+"/meta.json","w"),indent=1)
print("wrote",out)
