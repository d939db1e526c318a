#!/usr/bin/env python3
"""run.py ID TIER [--only KEY]: builds the Python interface from /repo's tree and runs its explorer (C34)."""
import fnmatch
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ID, TIER = sys.argv[1], sys.argv[2]
only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
start = time.time()
target = f"{V}/py/target"
log = f"{V}/evidence/build-{ID}.log"
os.makedirs(f"{V}/evidence", exist_ok=True)

ENV = dict(
    os.environ, HOME="/root", RUSTUP_TOOLCHAIN="nightly-2024-09-04", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0",
    CARGO_PROFILE_DEV_DEBUG="0", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", PYO3_PYTHON="/usr/bin/python3.12",
    PYTHONDONTWRITEBYTECODE="1", CARGO_TARGET_DIR=target, PATH="/root/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin"),
)
for k in ("RUSTFLAGS", "RUST_BACKTRACE"):
    ENV.pop(k, None)


def build():
    with open(log, "w") as f:
        return subprocess.call(
            ["cargo", "build", "-p", "pyvortex", "--lib", "--offline", "--locked"], cwd="/repo", env=ENV, stdout=f, stderr=f
        )


if build() != 0:
    print(f"BUILD FAILED for {ID}:")
    print("\n".join(open(log).read().splitlines()[-40:]))
    sys.exit(2)

work = tempfile.mkdtemp(prefix="c34-")
try:
    # the package as it is laid out when installed
    shutil.copytree("/repo/pyvortex/python/vortex", f"{work}/stage/vortex")
    shutil.copy(f"{target}/debug/libpyvortex.so", f"{work}/stage/vortex/_lib.abi3.so")
    env = dict(ENV, PYTHONPATH=f"{work}/stage", TMPDIR=work)
    n = 1 if only else max(os.cpu_count() or 1, 2)
    limit = (600 if TIER == "quick" else 13000)
    procs = []
    for i in range(n):
        args = ["/opt/vp/venv/bin/python", f"{V}/py/explore.py", TIER, str(i), str(n), f"{work}/{i}.json", work]
        if only:
            args.append(only)
        procs.append(subprocess.Popen(args, cwd=work, env=env, stdout=subprocess.DEVNULL, stderr=open(f"{work}/{i}.err", "w")))
    viols, cases, rejected, samples, observations, complete = [], {}, {}, [], 0, True
    for i, p in enumerate(procs):
        try:
            p.wait(timeout=max(1, limit - (time.time() - start)))
        except subprocess.TimeoutExpired:
            for q in procs:
                q.kill()
            print("no answer: out of time")
            sys.exit(2)
        if os.path.exists(f"{work}/{i}.json"):
            d = json.load(open(f"{work}/{i}.json"))
            viols += [tuple(x) for x in d["violations"]]
            for k, c in d["cases"].items():
                cases[k] = cases.get(k, 0) + c
            for k, c in d["rejected"].items():
                rejected[k] = rejected.get(k, 0) + c
            observations += d["observations"]
            samples += d["samples"]
        else:
            # the process died, or a call did not end
            complete = False
            case = open(f"{work}/{i}.json.case").read() if os.path.exists(f"{work}/{i}.json.case") else ""
            tail = open(f"{work}/{i}.err").read()[-600:].replace("\n", " ")
            if case:
                how = f"was killed by signal {-p.returncode}" if p.returncode < 0 else "did not come back"
                viols.append((case, f"the interface {how}: {tail}"))
            else:
                viols.append(("start", f"the interface cannot be imported or started: {tail}"))
    known = [f for f in json.load(open(f"{V}/known_findings.json"))["findings"] if f["property"] == ID]
    hits, fresh = set(), []
    for key, msg in viols:
        f = next(
            (f for f in known if any(fnmatch.fnmatchcase(key, k) for k in f["keys"])
             and any(fnmatch.fnmatchcase(msg, m) for m in f["messages"])), None)
        if f:
            hits.add(f["id"])
        else:
            fresh.append((key, msg))
    total = sum(cases.values())
    if not only:
        json.dump(
            {
                "property": ID,
                "tier": TIER,
                "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
                "level": "model_checking",
                "wall_s": time.time() - start,
                "violations": len(fresh),
                "assumptions": ["values outside the stated alphabets and sizes beyond the stated bounds are not covered"]
                + [f"known finding {f['id']} is excluded" for f in known],
                "coverage": {
                    "states": total,
                    "transitions": observations,
                    "traces_validated_against_impl": total - len(viols) - sum(rejected.values()),
                    "exhaustive": complete,
                    "per_kind": cases,
                    "refused_by_implementation": rejected,
                    "samples": samples[:20],
                    "bounds": [
                        "29 Arrow types x every array of up to 2 values (3 for 8 of the types) of a 2-value alphabet and null, as an array, a sliced array, a list, and chunked arrays, tables and slices of tables in every split with at most one empty chunk",
                        "arrays of 3 values of 13 types, plain, sliced, chunked and compressed: every slice, take of up to 2 indices, filter, compression, and (on plain ones) every pair of these; scalars into Python shallow and deep; refusals",
                        "all pairs of arrays of up to 2 values of 26 types, six comparisons, four origins of each side",
                        "every type constructor, width 0-129, repr read back; structs of up to 3 of 4 names",
                        "files of 0, 1, 5 and 10 rows of 6 columns with nulls, every stated split, plain and compressed: projections of up to 3 columns in every order by name and index, every comparison with every literal, and connectives of up to 3 comparisons",
                        "the same through the pyarrow dataset: tables, batches of every stated size, readers, heads, takes, scanners, pyarrow filters",
                    ],
                },
            },
            open(f"{V}/evidence/{ID}.json", "w"),
            indent=1,
        )
    for f in known:
        if f["id"] in hits or not only:
            print(f"KNOWN-FINDING: property={ID} {f['id']}: {f['what']}")
    print(f"{ID} {TIER}: {total} cases, {observations} observations, {sum(rejected.values())} refused as not implemented, {len(fresh)} violations, {time.time() - start:.1f} s")
    if fresh:
        replay = f"{V}/evidence/replay-{ID}.json"
        json.dump([{"key": k, "message": m, "replay": f"{V}/check.sh {ID} {TIER} --only '{k}'"} for k, m in fresh[:200]], open(replay, "w"), indent=1)
        for k, m in fresh[:8]:
            print(f"  {k[:200]} :: {m[:300]}")
        print(f"VIOLATION property={ID} replay={replay}")
        sys.exit(1)
finally:
    shutil.rmtree(work, ignore_errors=True)
