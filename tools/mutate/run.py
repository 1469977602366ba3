#!/usr/bin/env python3
"""Mutation campaign over a scratch copy of the repository (not part of any check).

run.py REPO WORKDIR [FILE...]: lists mutants of REPO's recovery code, builds the model checker against each
with go build -overlay, runs a part of every check's spaces (vmc smoke), and writes results to
WORKDIR/results.jsonl, which it continues when started again. REPO is a copy of /repo that nothing else writes."""
import json, os, subprocess, sys, threading, queue
repo, work = sys.argv[1:3]
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(os.path.dirname(here))
env = dict(os.environ, GOFLAGS="-mod=mod -buildvcs=false", GOPROXY="off", GOWORK="off", GO111MODULE="on", GOTOOLCHAIN="local", TZ="UTC")
os.makedirs(work, exist_ok=True)
mc = work + "/mc"
subprocess.run(["rm", "-rf", mc]); subprocess.run(["cp", "-a", verif + "/mc", mc], check=True)
gm = open(mc + "/go.mod").read().replace("=> /repo", "=> " + repo); open(mc + "/go.mod", "w").write(gm)
subprocess.run(["go", "build", "-o", work + "/mutate", "."], cwd=here, env=env, check=True)
files = [repo + "/" + f for f in sys.argv[3:]] or [repo + "/recovery/" + f for f in
    "ibdata/parse.go ibdata/format.go ibdata/const.go redo/parse.go redo/mlog.go redo/const.go redo/structure.go utils/utils.go utils/const.go logs/logs.go".split()] + \
    [repo + "/cmd/db-recovery/" + f for f in "command.go main.go version.go".split()]
muts = json.loads(subprocess.check_output([work + "/mutate"] + files))
for m in muts:
    m["key"] = "%s:%d:%d:%s" % (m["file"][len(repo) + 1:], m["start"], m["end"], m["repl"])
seen = {}
dead = set()  # functions nothing calls
for l in subprocess.run(["deadcode", "./cmd/db-recovery"], cwd=repo, env=dict(env, GOFLAGS="-mod=readonly -buildvcs=false"), stdout=subprocess.PIPE, text=True).stdout.split("\n"):
    if "unreachable func:" in l: dead.add((l.split(":")[0], l.split()[-1].split(".")[-1]))
muts = [m for m in muts if (m["file"][len(repo) + 1:], m["func"]) not in dead]
if os.path.exists(work + "/results.jsonl"):
    for l in open(work + "/results.jsonl"):
        r = json.loads(l); seen[r["key"]] = r
q = queue.Queue()
for m in muts:
    if m["key"] not in seen: q.put(m)
print(len(muts), "mutants,", q.qsize(), "to do", flush=True)
lock = threading.Lock()
log = open(work + "/results.jsonl", "a")
def smoke(slot, args, limit):
    e = dict(env, VMC_ROOT=slot, GOMAXPROCS="2")
    def clean(o):  # what a killed run leaves behind
        for l in o.decode("utf8", "replace").split("\n"):
            if l.startswith("DIR vmc-"): subprocess.run(["rm", "-rf", "/dev/shm/" + l[4:].strip()])
    try:
        p = subprocess.run([slot + "/vmc", "smoke"] + args, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit, cwd=slot)
    except subprocess.TimeoutExpired as t:
        clean(t.output or b"")
        return "hang", t.output or b""
    clean(p.stdout)
    if p.returncode == 0: return None, p.stdout
    o = p.stdout.decode("utf8", "replace")
    k = [l for l in o.split("\n") if l.startswith("KILLED")]
    return "killed", (k[0] if k else "crash " + o[-200:])
def worker(i):
    slot = "%s/slot%d" % (work, i)
    os.makedirs(slot + "/.build", exist_ok=True)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        src = open(m["file"], "rb").read()
        open(slot + "/mut.go", "wb").write(src[:m["start"]] + m["repl"].encode() + src[m["end"]:])
        json.dump({"Replace": {m["file"]: slot + "/mut.go"}}, open(slot + "/o.json", "w"))
        r = dict(m); r["res"] = ""
        b = subprocess.run(["go", "build", "-overlay", slot + "/o.json", "-o", slot + "/vmc", "./cmd/vmc"], cwd=mc, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if b.returncode == 0:
            b = subprocess.run(["go", "build", "-overlay", slot + "/o.json", "-o", slot + "/.build/db-recovery", "./cmd/db-recovery"], cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if b.returncode != 0:
            r["res"] = "nobuild"
        else:
            ids = []
            if "/redo/" in m["file"]: ids = "C13 C12 C14 C15 C16 C17 C18 C19 C20 C23 C24".split()
            if "/ibdata/" in m["file"]: ids = "C03 C08 C01 C02 C04 C05 C06 C07 C09 C10 C11 C12 C20 C21 C22 C23".split()
            if "/cmd/" in m["file"]: ids = "C19 C18 C10 C16 C20 C23 C11 C12".split()
            k, o = smoke(slot, ["12", "0", "150"] + ids, 150)
            if k is None: k, o = smoke(slot, ["10", "23", "1000"] + ids, 500)
            r["res"] = k or "survived"
            if k: r["by"] = o if isinstance(o, str) else o.decode("utf8", "replace")[-200:]
        with lock:
            log.write(json.dumps(r) + "\n"); log.flush()
ts = [threading.Thread(target=worker, args=(i,)) for i in range(int(os.environ.get("SLOTS", "8")))]
[t.start() for t in ts]; [t.join() for t in ts]
