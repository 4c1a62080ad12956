#!/usr/bin/env python3
"""Runs the check of one property: check.py C01 [--replay FILE].

Builds the harness of the property against /repo's working tree (overlay, no
file of /repo is touched), runs its rapid properties with a seed derived from
VERIF_SEED, writes evidence/<id>.json and prints VIOLATION / KNOWN-FINDING.
Exit: 0 held, 1 violated, 2 build/infrastructure error, 3 inconclusive.
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
GOROOT = "/opt/veriftools/go1.26.10"
MOD = "github.com/hyp3rd/hypercache"

def goenv():
    e = dict(os.environ)
    e.update(HOME="/root", PATH=f"{GOROOT}/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOPATH="/root/go", GONOSUMDB="*", GONOSUMCHECK="1",
             GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"), GOWORK="off")
    for k in list(e):
        if k.startswith("HYPERCACHE_"): del e[k]
    return e

def prepare(work):
    """modfile + overlay, generated from /repo's current tree."""
    m = open(f"{REPO}/go.mod").read()
    m += f"\nrequire pgregory.net/rapid v1.3.0\nrequire github.com/anishathalye/porcupine v1.3.1\nrequire verif.local/vh v0.0.0\n"
    m += f"replace github.com/hyp3rd/sectools => {VERIF}/stubs/sectools\nreplace verif.local/vh => {VERIF}/vh\n"
    open(f"{work}/go.mod", "w").write(m)
    s = open(f"{REPO}/go.sum").read()
    extra = f"{VERIF}/gomod/extra.sum"
    if os.path.exists(extra): s += open(extra).read()
    open(f"{work}/go.sum", "w").write(s)
    rep = {}
    base = f"{VERIF}/harness"
    for d, _, fs in os.walk(base):
        for f in fs:
            if f.endswith(".go"):
                rel = os.path.relpath(os.path.join(d, f), base)
                rep[f"{REPO}/internal/zzverif/{rel}"] = os.path.join(d, f)
    json.dump({"Replace": rep}, open(f"{work}/overlay.json", "w"))

def build(work, grp, race, tags, out):
    cmd = ["go", "test", "-c", "-vet=off", f"-modfile={work}/go.mod", f"-overlay={work}/overlay.json", "-trimpath", "-o", out]
    if race: cmd.append("-race")
    if tags: cmd.append(f"-tags={tags}")
    cmd.append(f"{MOD}/internal/zzverif/{grp}")
    r = subprocess.run(cmd, cwd=REPO, env=goenv(), capture_output=True, text=True)
    return r.returncode, r.stdout + r.stderr

def build_aux(work, aux):
    """extra binaries of the code under test (name -> package)"""
    for name, pkg in aux.items():
        r = subprocess.run(["go", "build", f"-modfile={work}/go.mod", "-trimpath", "-o", f"{work}/{name}", f"{MOD}/{pkg}"], cwd=REPO, env=goenv(), capture_output=True, text=True)
        if r.returncode: return r.stdout + r.stderr
    return ""

def load_known():
    """known_findings.txt: 'known: property=<id> key=<key> <what>' / 'fixed: property=<id> <commit> <what>'"""
    known = {}
    path = f"{VERIF}/known_findings.txt"
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m: known.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return known

def setup():
    """builds everything once, so that the checks find a warm build cache"""
    cfg = json.load(open(f"{VERIF}/checks.json"))
    os.makedirs(f"{VERIF}/work", exist_ok=True)
    work = tempfile.mkdtemp(prefix="setup-", dir=f"{VERIF}/work")
    try:
        prepare(work)
        done = set()
        for pid, c in cfg.items():
            if c.get("aux"):
                k = json.dumps(c["aux"])
                if k not in done:
                    done.add(k)
                    err = build_aux(work, c["aux"])
                    if err: print(err[-3000:])
            for part in c["parts"]:
                k = (part["grp"], bool(part.get("race")), part.get("tags", c.get("tags", "")))
                if k in done: continue
                done.add(k)
                rc, log = build(work, k[0], k[1], k[2], f"{work}/t.test")
                if rc: print(f"{k}: {log[-3000:]}")
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print("setup done")
    return 0

def main():
    t0 = time.time()
    pid = sys.argv[1]
    if pid == "--setup": return setup()
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    cfg = json.load(open(f"{VERIF}/checks.json"))[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    rseed = int(hashlib.sha256(f"{pid}:{seed}".encode()).hexdigest()[:15], 16) or 1
    os.makedirs(f"{VERIF}/work", exist_ok=True); os.makedirs(f"{VERIF}/evidence", exist_ok=True); os.makedirs(f"{VERIF}/replays", exist_ok=True)
    ev_path = f"{VERIF}/evidence/{pid}.json"
    if os.path.exists(ev_path): os.remove(ev_path)
    work = tempfile.mkdtemp(prefix=f"{pid}-", dir=f"{VERIF}/work")
    try:
        return run(pid, cfg, tier, seed, rseed, work, ev_path, t0, replay)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def run(pid, cfg, tier, seed, rseed, work, ev_path, t0, replay):
    prepare(work)
    known = load_known().get(pid, {})
    if cfg.get("aux"):
        err = build_aux(work, cfg["aux"])
        if err:
            print(err[-6000:]); print(f"ERROR property={pid} aux build failed"); return 2
    jobs, built = [], {}
    for part in cfg["parts"]:
        key = (part["grp"], bool(part.get("race")), part.get("tags", cfg.get("tags", "")))
        if key not in built:
            out = f"{work}/{part['grp'].replace('/', '_')}{'_race' if key[1] else ''}.test"
            rc, log = build(work, part["grp"], key[1], key[2], out)
            if rc != 0 or not os.path.exists(out):
                print(log[-6000:]); print(f"ERROR property={pid} harness build failed"); return 2
            built[key] = out
        binary = built[key]
        r = subprocess.run([binary, "-test.list", part["run"]], capture_output=True, text=True, cwd=work)
        tests = [l.strip() for l in r.stdout.splitlines() if l.startswith("Test")]
        if not tests:
            print(f"ERROR property={pid} no tests match {part['run']}"); return 2
        for t in tests: jobs.append((binary, t, key[1], part.get("scale", 1.0)))
    limit = 840 if tier == "quick" else int(cfg.get("thorough_timeout", 3000))
    tscale = float(cfg.get("thorough_scale", 12)) if tier == "thorough" else 1.0
    if os.environ.get("VH_EXTRA_SCALE"): tscale *= float(os.environ["VH_EXTRA_SCALE"])
    deadline = t0 + limit

    def one(i, job):
        binary, test, race, scale = job
        d = f"{work}/run{i}"; os.makedirs(d)
        env = goenv(); env.update(VH_OUT=d, VH_SCALE=str(scale * tscale), VERIF_TIER=tier, VH_KNOWN=json.dumps(known), VH_BIN=work, TMPDIR=d,
                                  GORACE="halt_on_error=1 exitcode=66", GOTRACEBACK="all")
        left = max(30, deadline - time.time())
        cmd = [binary, "-test.run", f"^{test}$", "-test.v", f"-test.timeout={int(left)}s", f"-rapid.seed={rseed}", "-rapid.shrinktime=20s"]
        if replay: cmd.append(f"-rapid.failfile={os.path.abspath(replay)}")
        try:
            r = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=left + 20)
            return test, r.returncode, r.stdout, d
        except subprocess.TimeoutExpired as e:
            o = e.stdout or ""
            return test, 124, o if isinstance(o, str) else o.decode(errors="replace"), d

    with cf.ThreadPoolExecutor(max_workers=int(cfg.get("parallel", 6))) as ex:
        results = list(ex.map(lambda a: one(*a), enumerate(jobs)))

    violations, errors, subs, known_lines = [], [], [], []
    for test, rc, out, d in results:
        for f in sorted(os.listdir(d)):
            if f.startswith("stats-") and f.endswith(".json"):
                subs += json.load(open(f"{d}/{f}"))
        for m in re.finditer(r"^KNOWN-HIT key=(\S+)", out, re.M):
            if m.group(1) not in known_lines: known_lines.append(m.group(1))
        if rc == 0: continue
        verdict = classify(rc, out)
        if verdict == "violation":
            path = f"{VERIF}/replays/{pid}-{test}-seed{seed}.txt"
            ff = []
            for dd, _, fs in os.walk(f"{d}/testdata"):
                for f in fs:
                    dst = f"{VERIF}/replays/{pid}-{test}-seed{seed}.fail"
                    shutil.copy(os.path.join(dd, f), dst); ff.append(dst)
            with open(path, "w") as w:
                w.write(f"property {pid}, sub-check {test}, VERIF_SEED={seed}, rapid seed {rseed}, tier {tier}\n")
                if ff: w.write(f"replay with: python3 {VERIF}/check.py {pid} --replay {ff[0]}\n")
                w.write(f"or:          VERIF_SEED={seed} python3 {VERIF}/check.py {pid} --tier {tier}\n\n" + out[-60000:])
            violations.append((test, path, out))
        else:
            errors.append((test, rc, out))
    wall = time.time() - t0
    ev = {"property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
          "coverage": {"evaluations": sum(s["evaluations"] for s in subs),
                       "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in subs),
                       "rule": " | ".join(f"{s['sub']}: {s['rule']}" for s in subs),
                       "samples": [f"[{s['sub']}] {x}" for s in subs for x in s.get("samples") or []][:40],
                       "sub_checks": [{k: s[k] for k in ("sub", "evaluations", "nontrivial", "distinct_nontrivial", "labels")} for s in subs],
                       "known_findings_reproduced": known_lines},
          "assumptions": cfg.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(violations)}
    json.dump(ev, open(ev_path, "w"), indent=1)
    for k in known_lines:
        if k in known: print(f"KNOWN-FINDING: property={pid} {k}: {known[k]}")
    for test, rc, out in errors:
        print(f"--- {test} ended with {rc} (no verdict)\n" + out[-3000:])
    for test, path, out in violations:
        print(f"--- {test} failed:\n" + tail(out))
        print(f"VIOLATION property={pid} replay={path}")
    n = ev["coverage"]["evaluations"]; k = ev["coverage"]["distinct_nontrivial"]
    print(f"{pid} {tier} seed={seed}: {n} cases, {k} distinct non-trivial, {len(violations)} violations, {wall:.1f}s")
    if violations: return 1
    if errors: return 3
    if n == 0: print(f"ERROR property={pid} nothing was evaluated"); return 3
    return 0

def tail(out):
    keep = [l for l in out.splitlines() if l.strip()]
    return "\n".join(keep[-60:])

def classify(rc, out):
    if rc in (124, -9, 137): return "error"
    if re.search(r"^\s*(\S+\.go:\d+: )?HARNESS-ERROR", out, re.M): return "error"
    if "panic: test timed out" in out: return "error"
    if "[rapid] only generated" in out or "failed to find suitable value" in out: return "error"
    if "cannot allocate memory" in out or "runtime: out of memory" in out or "too many open files" in out: return "error"
    if "WARNING: DATA RACE" in out: return "violation"
    if re.search(r"^\s*--- FAIL", out, re.M): return "violation"
    if re.search(r"^(panic:|fatal error: )", out, re.M): return "violation"
    return "error"

if __name__ == "__main__":
    sys.exit(main())
