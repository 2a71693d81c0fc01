#!/usr/bin/env python3
"""campaign.py N PAR SEED [FILE-SUBSTR]: samples about N mutants over the source files, runs the checks of each file against each
(in mount namespaces, from copies), and appends to /tmp/mut/results.jsonl those that were caught and those that were missed."""
import subprocess, sys, os, random, json, shutil, concurrent.futures as cf, math, threading
N, PAR, SEED = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
SUB = sys.argv[4] if len(sys.argv) > 4 else ""
MAP = [
 ("cmd/controller-gen", "C19 C18 C22 C09"), ("cmd/helpgen", "C22"), ("cmd/type-scaffold", "C21"),
 ("pkg/applyconfiguration", "C25 C18"), ("pkg/crd/conv", "C08"), ("pkg/crd/desc_visitor", "C20"), ("pkg/crd/flatten", "C07 C06 C05 C04"),
 ("pkg/crd/gen", "C08 C09 C19 C18 C20"), ("pkg/crd/known_types", "C04 C05"), ("pkg/crd/markers/crd", "C08"), ("pkg/crd/markers/register", "C22 C06 C08"),
 ("pkg/crd/markers", "C06 C08"), ("pkg/crd/parser", "C04 C08 C23 C06 C18"), ("pkg/crd/schema_visitor", "C07 C20 C16"), ("pkg/crd/schema", "C04 C06 C05 C18"),
 ("pkg/crd/spec", "C08 C09"), ("pkg/deepcopy/gen", "C15 C14 C18"), ("pkg/deepcopy/traverse", "C14 C15"),
 ("pkg/genall/genall", "C18 C19 C13 C09"), ("pkg/genall/help", "C22 C09"), ("pkg/genall/options", "C19 C22"), ("pkg/genall/output", "C19 C18"),
 ("pkg/genall", "C19"), ("pkg/loader/refs", "C24 C18"), ("pkg/loader/loader", "C17 C18 C24 C23"), ("pkg/loader/errors", "C18"), ("pkg/loader/visit", "C03 C24 C04"), ("pkg/loader", "C04 C17"),
 ("pkg/markers/collect", "C03 C23 C20"), ("pkg/markers/zip", "C03 C23"), ("pkg/markers/reg", "C01 C02 C23 C22"), ("pkg/markers/parse", "C01 C02 C22"), ("pkg/markers", "C22"),
 ("pkg/rbac", "C10 C11"), ("pkg/schemapatcher", "C16"), ("pkg/typescaffold", "C21"), ("pkg/version", "C19"), ("pkg/webhook", "C12"),
]
SKIP = ("testutils",)
def props(f):
    for k, v in MAP:
        if f.startswith(k): return v.split()
    return []
files = [f for f in subprocess.check_output(["git", "-C", "/repo", "ls-files", "pkg/*.go", "cmd/*.go"], text=True).split()
         if not f.endswith("_test.go") and "zz_gen" not in f and "testdata" not in f and "testmod" not in f and not any(s in f for s in SKIP) and SUB in f]
done = set()
os.makedirs("/tmp/mut", exist_ok=True)
if os.path.exists("/tmp/mut/results.jsonl"):
    for l in open("/tmp/mut/results.jsonl"):
        r = json.loads(l); done.add((r["file"], r["index"]))
rng = random.Random(SEED)
allm = {}
for f in files:
    ms = [l.split("\t") for l in subprocess.check_output(["/tmp/mutate", "/repo/" + f], text=True).splitlines()]
    if ms: allm[f] = ms
w = sum(math.sqrt(len(m)) for m in allm.values())
todo = []
for f, ms in allm.items():
    k = min(len(ms), math.ceil(N * math.sqrt(len(ms)) / w))
    for m in rng.sample(ms, k):
        if (f, int(m[0])) not in done: todo.append((f, m))
rng.shuffle(todo)
print(len(todo), "mutants", flush=True)
lock = threading.Lock()
shutil.rmtree("/tmp/mut/base", ignore_errors=True)
os.makedirs("/tmp/mut/base")
subprocess.check_call(["cp", "-a", "/repo", "/tmp/mut/base/repo"])
subprocess.check_call(["git", "clone", "-q", "/verif", "/tmp/mut/base/verif"])
def run(j):
    n, (f, m) = j
    d = f"/tmp/mut/w{n}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    try:
        for x in ("repo", "verif"): subprocess.check_call(["cp", "-a", f"/tmp/mut/base/{x}", f"{d}/{x}"])
        new = subprocess.check_output(["/tmp/mutate", f"/repo/{f}", m[0]])
        open(f"{d}/repo/{f}", "wb").write(new)
        res = "missed"; by = None; extra = []
        ns = ["unshare", "-Urm", "bash", "-c", f"mount --bind {d}/repo /repo; mount --bind {d}/verif /verif; . /opt/vp/env.sh; cd /verif; exec \"$@\"", "x"]
        r = subprocess.run(ns + ["bash", "/opt/vp/build.sh"], capture_output=True, text=True)
        if r.returncode: res = "nobuild"
        else:
            for p in props(f):
                try:
                    r = subprocess.run(ns + ["env", "VERIF_SHRINK=1s", "TMPDIR=" + d, "./run.sh", p, "quick"], capture_output=True, text=True, timeout=1200)
                except subprocess.TimeoutExpired:
                    extra.append(p + ":timeout"); continue
                if r.returncode == 1 and f"VIOLATION property={p} " in r.stdout:
                    res, by = "caught", p; break
                if r.returncode != 0: extra.append(f"{p}:rc{r.returncode}:" + (r.stdout + r.stderr)[-300:])
        with lock:
            open("/tmp/mut/results.jsonl", "a").write(json.dumps(dict(file=f, index=int(m[0]), fn=m[1], line=m[2], what=m[3], res=res, by=by, extra=extra)) + "\n")
    finally:
        shutil.rmtree(d, ignore_errors=True)
with cf.ThreadPoolExecutor(PAR) as ex: list(ex.map(run, enumerate(todo)))
