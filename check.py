#!/usr/bin/env python3
"""Driver: check.py <ID> [quick|thorough] [--replay FILE] [--sub NAME] [--cases N]

Builds the harness in /verif/harness together with /repo's current working tree
(through a build overlay, nothing is written to /repo), runs it in several
processes, and reports.  Exit 0: held on everything explored.  Exit 1 with a
line "VIOLATION property=<id> replay=<path>": broken.  Exit 2: no answer.
"""
import argparse, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
GOROOT = "/opt/veriftools/go1.25.14"
PKG = "zzverif"
# coverage-guided search over these checks, thorough tier only: seconds
GUIDED = {"C08": {"documents": 600, "policies": 600}}
RACE = {"C14", "C18", "C24"}           # built with the race detector
ENV_ASSUMPTIONS = [
    "the harness' own JOSE implementation, mock network and reference models are correct",
    "go1.25.14 behaves like the go toolchain the library is shipped with; virtual time is testing/synctest",
    "generated-input search: absence of a violation is not a proof",
]


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def goenv(scratch):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("GO", "VERIF_", "CGO"))}
    cache = os.environ.get("VERIF_GOCACHE", os.path.join(VERIF, ".cache", "gocache"))
    os.makedirs(cache, exist_ok=True)
    env.update(
        HOME="/root", GOROOT=GOROOT, PATH=GOROOT + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOWORK="off",
        GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE=cache, TMPDIR=scratch,
    )
    return env


def build(scratch, race, extra=(), name="harness.test"):
    ov = {}
    hdir = os.path.join(VERIF, "harness", PKG)
    for f in sorted(os.listdir(hdir)):
        if f.endswith(".go"):
            ov[os.path.join(REPO, PKG, f)] = os.path.join(hdir, f)
    # Virtual time stands still while a goroutine waits for a mutex, also if the mutex is held by one that
    # sleeps or waits for a response; the code under test may do that, so let these waits count as blocked.
    rt = os.path.join(GOROOT, "src", "runtime", "runtime2.go")
    src = open(rt).read()
    mark = "\twaitReasonSynctestSelect:        true,\n"
    if src.count(mark) != 1:
        die("unexpected go runtime")
    patched = os.path.join(scratch, "runtime2.go")
    open(patched, "w").write(src.replace(mark, mark + "".join(
        "\twaitReasonSync%s: true,\n" % r for r in ("MutexLock", "RWMutexRLock", "RWMutexLock"))))
    ov[rt] = patched
    ovf = os.path.join(scratch, "overlay.json")
    json.dump({"Replace": ov}, open(ovf, "w"))
    mod = open(os.path.join(REPO, "go.mod")).read()
    if "pgregory.net/rapid" not in mod:
        mod += "\nrequire pgregory.net/rapid v1.3.0\n"
    # The built-in cache is swept by a goroutine of its own, on the real clock. Cases on virtual time would wait for
    # the mutex it holds, and virtual time would go on meanwhile. It only frees memory: lookups check expirations.
    gc = re.search(r"github\.com/!?TwiN/gocache/v2 (v\S+)", mod)
    if gc:
        src = "/root/go/pkg/mod/github.com/!twi!n/gocache/v2@" + gc.group(1)
        mark = "func (cache *Cache) StartJanitor() error {\n"
        jan = open(os.path.join(src, "janitor.go")).read()
        if jan.count(mark) != 1:
            die("unexpected gocache")
        dst = os.path.join(VERIF, ".cache", "gocache-nojanitor-" + gc.group(1))
        if not os.path.exists(dst):
            tmp = os.path.join(scratch, "gocache")
            shutil.copytree(src, tmp, ignore=shutil.ignore_patterns("*_test.go"))
            os.chmod(tmp, 0o755)
            os.chmod(os.path.join(tmp, "janitor.go"), 0o644)
            open(os.path.join(tmp, "janitor.go"), "w").write(
                jan.replace(mark, mark + "\tif cache != nil {\n\t\treturn nil\n\t}\n"))
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            try:
                shutil.copytree(tmp, dst + ".%d" % os.getpid())
                os.rename(dst + ".%d" % os.getpid(), dst)
            except OSError:
                if not os.path.exists(dst):
                    raise
        mod += "\nreplace github.com/TwiN/gocache/v2 => %s\n" % dst
    open(os.path.join(scratch, "go.mod"), "w").write(mod)
    s = open(os.path.join(REPO, "go.sum")).read()
    if "pgregory.net/rapid v1.3.0 " not in s:
        s = s.rstrip("\n") + ("\npgregory.net/rapid v1.3.0 h1:vBvO0VSqti75J1jjYqpgPNBLKMd1+gxa9fYo7vk/Exc="
                              "\npgregory.net/rapid v1.3.0/go.mod h1:dPlE4OBBxgXPqkP79flB6sJL1dx5azpI7HQ9MY9Z7uk=\n")
    open(os.path.join(scratch, "go.sum"), "w").write(s)
    out = os.path.join(scratch, name)
    cmd = ["go", "test", "-c", "-vet=off", "-o", out, "-overlay", ovf, "-modfile", os.path.join(scratch, "go.mod")]
    if race:
        cmd.append("-race")
    if os.environ.get("VERIF_COVER"):  # for tools/coverage.sh
        cmd += ["-cover", "-coverpkg=./..."]
    cmd += extra
    cmd.append("./" + PKG)
    p = subprocess.run(cmd, cwd=REPO, env=goenv(scratch), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        die("build of the harness with /repo failed:\n" + p.stdout[-6000:])
    return out


def load_known():
    known, lines = {}, []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"finding:\s+property=(\S+)\s+sig=(\S+)\s+(.*)", l.strip())
            if m:
                known.setdefault(m[1], []).append((m[2], m[3]))
    return known


HANG = 150


def crash_class(text):
    """('violation', why) when the crash happened inside the library, else None."""
    if "test timed out" in text or "out of memory" in text or "cannot allocate memory" in text:
        return None
    i = text.find("WARNING: DATA RACE")
    if i >= 0:
        part = text[i:]
        j = part.find("==================")
        part = part[: j if j > 0 else 6000]
        # every racing access (not the goroutine creation) must not be in the harness alone
        acc = part.split("Goroutine ")[0]
        if "github.com/go-oidfed/lib" in re.sub(r"github\.com/go-oidfed/lib/zzverif\S*", "", acc):
            return "data race"
        return None
    m = re.search(r"^(panic: .*|fatal error: .*)$", text, re.M)
    if not m:
        return None
    rest = text[m.start():]
    if "synctest" in m[0] or "deadlock" in m[0]:
        # nothing can ever run again: a hang, if the library waits for something
        for g in rest.split("\n\n"):
            if re.match(r"goroutine \d+ \[[^\]]*synctest bubble", g) and re.search(
                    r"^(created by )?github\.com/go-oidfed/lib(?!/zzverif)", g, re.M):
                return "hang: " + m[0]
        return None
    for l in rest.split("\n")[1:]:
        if l.startswith("github.com/go-oidfed/lib/zzverif"):
            return None
        if l.startswith("github.com/go-oidfed/lib"):
            return m[0]
    return None


def crash_head(log):
    m = re.search(r"^(panic: |fatal error: |WARNING: DATA RACE|SIG)", log, re.M)
    return log[m.start():][:2500] if m else log[-3000:]


def main():
    if sys.argv[1:] == ["--selftest"]:  # setup_cmd: the tools are there
        scratch = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            build(scratch, False)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        print("harness builds")
        return
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--sub", default="")
    ap.add_argument("--cases", default="")
    ap.add_argument("--shards", type=int, default=0)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        die("unknown tier " + a.tier)
    seed = int(os.environ.get("VERIF_SEED") or "1")
    start = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % a.id)
    try:
        rc = run(a, seed, start, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def guided(a, sub, seconds, seed, scratch, known):
    """Go's coverage-guided fuzzer on one check. Returns (cases, non-trivial, replay files, error)."""
    binary = os.path.join(scratch, "guided.test")
    if not os.path.exists(binary):
        build(scratch, False, ["-fuzz", "^FuzzVerif$"], "guided.test")
    d = os.path.join(scratch, "guided-" + sub)
    os.makedirs(os.path.join(d, "tmp"))
    env = {"PATH": "/usr/bin:/bin", "HOME": d, "TMPDIR": os.path.join(d, "tmp"), "VERIF_PROP": a.id, "VERIF_OUT": d, "VERIF_SUB": sub,
           "VERIF_SEED": str(seed), "VERIF_KNOWN": "\n".join(s for s, _ in known), "GOTRACEBACK": "all"}
    cmd = [binary, "-test.run", "^$", "-test.fuzz", "^FuzzVerif$", "-test.fuzztime", "%ds" % seconds, "-test.parallel", "8",
           "-test.fuzzminimizetime", "10s", "-test.fuzzcachedir", os.path.join(d, "cache")]
    log = open(os.path.join(d, "log"), "w")
    p = subprocess.Popen(cmd, cwd=d, env=env, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        p.wait(seconds + 300)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
    n = nt = 0
    replays, pids = [], []
    for f in sorted(os.listdir(d)):
        if f.endswith(".count"):
            x = open(os.path.join(d, f)).read().split()
            n, nt = n + int(x[0]), nt + int(x[1])
        if f.endswith(".replay.json"):
            replays.append(os.path.join(d, f))
        if f.endswith(".current.json"):
            pids.append(os.path.join(d, f))
    if os.path.exists(os.path.join(d, "guided.error")):
        return n, nt, replays, open(os.path.join(d, "guided.error")).read()
    if p.returncode != 0 and not replays:  # a worker died: which of the last cases was it?
        return n, nt, pids, None
    return n, nt, replays, None


def run(a, seed, start, scratch):
    race = a.id in RACE
    binary = build(scratch, race)
    tbuild = time.time() - start
    shards = a.shards or (1 if a.replay else 8)
    limit = 600 if a.tier == "quick" else 3 * 3600
    known = load_known().get(a.id, [])
    procs = []
    for i in range(shards):
        d = os.path.join(scratch, "s%d" % i)
        os.makedirs(os.path.join(d, "tmp"))
        env = {
            "PATH": "/usr/bin:/bin", "HOME": d, "TMPDIR": os.path.join(d, "tmp"),
            "VERIF_PROP": a.id, "VERIF_OUT": d, "VERIF_TIER": a.tier, "VERIF_SHARD": "%d/%d" % (i, shards),
            "VERIF_SEED": str(seed), "VERIF_KNOWN": "\n".join(s for s, _ in known),
            "VERIF_REGRESS": os.path.join(VERIF, "regress"), "VERIF_SUB": a.sub, "VERIF_CASES": a.cases,
            "GOMAXPROCS": "2", "GORACE": "halt_on_error=1 exitcode=66", "GOTRACEBACK": "all",
        }
        if a.replay:
            env["VERIF_REPLAY"] = os.path.abspath(a.replay)
        log = open(os.path.join(d, "log"), "w")
        cov = ["-test.coverprofile=%s/%s-%d.cov" % (os.environ["VERIF_COVER"], a.id, i)] if os.environ.get("VERIF_COVER") else []
        p = subprocess.Popen([binary, "-test.run", "^TestVerif$", "-test.timeout", "0"] + cov, cwd=d, env=env,
                             stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
        procs.append((p, d))
    deadline = time.time() + limit
    timed_out = False
    hung = set()
    while any(p.poll() is None for p, d in procs):
        time.sleep(0.1)
        now = time.time()
        if now > deadline:
            timed_out = True
            break
        for p, d in procs:
            # a single case takes milliseconds
            cur = os.path.join(d, "current.json")
            if p.poll() is None and p.pid not in hung and os.path.exists(cur) and now - os.path.getmtime(cur) > HANG:
                hung.add(p.pid)
                p.send_signal(signal.SIGQUIT)
    for p, d in procs:
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
    subs, viol, errors, crashes = {}, [], [], []
    for i, (p, d) in enumerate(procs):
        log = open(os.path.join(d, "log"), errors="replace").read()
        if a.v:
            print("--- shard %d rc=%s\n%s" % (i, p.returncode, log[-3000:]))
        rf = os.path.join(d, "result.json")
        if not os.path.exists(rf):
            why = crash_class(log)
            if not why and p.pid in hung and "github.com/go-oidfed/lib" in re.sub(r"github\.com/go-oidfed/lib/zzverif\S*", "", log):
                why = "one case did not end within %d s" % HANG
            cur = os.path.join(d, "current.json")
            if why and os.path.exists(cur):
                crashes.append((why, cur, log))
            else:
                errors.append("shard %d ended without a result (rc=%s)%s\n%s" % (
                    i, p.returncode, " [time limit]" if timed_out else "", crash_head(log)))
            continue
        r = json.load(open(rf))
        if r.get("error"):
            errors.append("shard %d: %s" % (i, r["error"]))
        for s in r.get("subs") or []:
            t = subs.setdefault(s["name"], {"name": s["name"], "rule": s["rule"], "evaluations": 0,
                                            "distinct_nontrivial": 0, "labels": {}, "samples": [], "known": {}, "wall_s": 0})
            t["evaluations"] += s["evaluations"]
            t["distinct_nontrivial"] += s["distinct_nontrivial"]
            t["wall_s"] = max(t["wall_s"], s["wall_s"])
            for k, v in (s["labels"] or {}).items():
                t["labels"][k] = t["labels"].get(k, 0) + v
            for k, v in (s["known"] or {}).items():
                t["known"][k] = t["known"].get(k, 0) + v
            if len(t["samples"]) < 3:
                t["samples"] += (s["samples"] or [])[: 3 - len(t["samples"])]
            if s.get("violation"):
                viol.append((s["name"], s["violation"]))
        if not r.get("error") and p.returncode != 0 and not any(s.get("violation") for s in r.get("subs") or []):
            why = crash_class(log)
            if why:
                crashes.append((why, os.path.join(d, "current.json"), log))
            else:
                errors.append("shard %d failed without a reported violation (rc=%s)\n%s" % (i, p.returncode, crash_head(log)))
    if not subs and not crashes and not errors:
        errors.append("no check ran for property " + a.id)
    guided_cov = []
    if a.tier == "thorough" and not a.replay and not a.cases and not viol and not crashes and not errors:
        for sub, seconds in GUIDED.get(a.id, {}).items():
            n, nt, found, err = guided(a, sub, seconds, seed, scratch, known)
            guided_cov.append({"name": sub, "seconds": seconds, "evaluations": n, "nontrivial": nt})
            if err:
                errors.append("coverage-guided search: " + err)
            for f in found:  # judged by the ordinary binary
                q = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), a.id, "--replay", f], stdout=subprocess.PIPE, text=True)
                if q.returncode == 1:
                    sys.stdout.write(re.sub(r"(?m)^VIOLATION .*\n", "", q.stdout))
                    viol.append((sub, {"sig": json.load(open(f)).get("sig", "crash"), "msg": "found by coverage-guided search", "replay": f}))
    # evidence
    if not a.replay:
        cov = {
            "evaluations": sum(s["evaluations"] for s in subs.values()),
            "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in subs.values()),
            "rule": "; ".join("%s: %s" % (s["name"], s["rule"]) for s in subs.values()),
            "samples": [{"check": s["name"], "case": c} for s in subs.values() for c in s["samples"][:2]],
            "checks": [{k: s[k] for k in ("name", "evaluations", "distinct_nontrivial", "labels", "known", "wall_s")}
                       for s in subs.values()],
            "coverage_guided": guided_cov, "shards": shards, "build_s": round(tbuild, 1),
        }
        ev = {"property": a.id, "tier": a.tier, "seed": seed, "level": "exploration", "coverage": cov,
              "assumptions": ENV_ASSUMPTIONS, "wall_s": round(time.time() - start, 2),
              "violations": len(viol) + len(crashes)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", a.id + ".json"), "w"), indent=1)
    for s in subs.values():
        for sig, n in s["known"].items():
            for ks, what in known:
                if ks == sig:
                    s["known_reported"] = True
    for sig, what in known:
        print("KNOWN-FINDING: property=%s %s" % (a.id, what))
    # report
    rc = 0
    if viol or crashes:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        seen = set()
        viol.sort(key=lambda nv: os.path.getsize(nv[1]["replay"]))
        for name, v in viol:
            if (name, v["sig"]) in seen:
                continue
            seen.add((name, v["sig"]))
            dst = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (a.id, name, len(seen)))
            shutil.copyfile(v["replay"], dst)
            print("%s [%s] %s" % (name, v["sig"], v["msg"][:3000]))
            print("VIOLATION property=%s replay=%s" % (a.id, dst))
        if crashes:
            why, cur, log = crashes[0]
            dst = os.path.join(VERIF, "replays", "%s-crash.json" % a.id)
            shutil.copyfile(cur, dst)
            print("process crashed: %s\n%s" % (why, crash_head(log)))
            print("VIOLATION property=%s replay=%s" % (a.id, dst))
        rc = 1
    elif errors:
        for e in errors:
            print("ERROR: " + e)
        rc = 2
    if a.v or rc == 0:
        for s in subs.values():
            print("%s/%s: %d cases, %d distinct non-trivial, %.1fs" % (
                a.id, s["name"], s["evaluations"], s["distinct_nontrivial"], s["wall_s"]))
            if a.v:
                print("   ", json.dumps(dict(sorted(s["labels"].items()))))
    print("%s %s seed=%d: %s in %.1fs (build %.1fs)" % (
        a.id, a.tier, seed, {0: "held", 1: "VIOLATED", 2: "no answer"}[rc], time.time() - start, tbuild))
    return rc


if __name__ == "__main__":
    main()
