#!/usr/bin/env python3
"""Builds the harness against /repo's working tree and runs the check of one property.

usage: run.py ID quick|thorough          exit 0 held, 1 violated, other: no answer
       run.py --replay FILE              replays a stored failing case
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(ROOT, "harness")
REPO = "/repo"
RACE = {"C02", "C19", "C37"}   # built with the race detector
LIMIT = {"quick": 600, "thorough": 840}   # seconds for the whole run, build included
SHARDS = {"quick": 4, "thorough": 8}
FRAME = "wearelumenai/distclus"


def sh_env():
    env = dict(os.environ)
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True, check=True).stdout
        env = dict(kv.split("=", 1) for kv in out.decode().split("\0") if "=" in kv)
    except Exception:
        pass
    env.update(GOFLAGS="-mod=readonly", GOSUMDB="off", GOPROXY="off", GOWORK="off", GO111MODULE="on")
    return env


def overlay(scratch):
    """Swap package sync for harness/vsync in the library's sources (import lines only)."""
    rx = re.compile(r'^(\s*(?:import\s+)?)((?:[A-Za-z_]\w*|\.)\s+)?"sync"(\s*(?://.*)?)$', re.M)
    rx1 = re.compile(r'^(import\s*\(\s*)((?:[A-Za-z_]\w*|\.)\s+)?"sync"(\s*\).*)$', re.M)
    rep = {}
    for d, dirs, files in os.walk(REPO):
        dirs[:] = [x for x in dirs if not x.startswith(".") and x not in ("testdata", "vendor")]
        for f in files:
            if not f.endswith(".go") or f.endswith("_test.go"):
                continue
            p = os.path.join(d, f)
            src = open(p, encoding="utf-8", errors="surrogateescape").read()
            new = rx.sub(lambda m: m.group(1) + (m.group(2) or "sync ") + '"distclusverif/vsync"' + m.group(3), src)
            new = rx1.sub(lambda m: m.group(1) + (m.group(2) or "sync ") + '"distclusverif/vsync"' + m.group(3), new)
            if new != src:
                q = os.path.join(scratch, "ov_%d_%s" % (len(rep), f))
                open(q, "w", encoding="utf-8", errors="surrogateescape").write(new)
                rep[p] = q
    o = os.path.join(scratch, "overlay.json")
    json.dump({"Replace": rep}, open(o, "w"))
    return o


def build(scratch, race, env):
    out = os.path.join(scratch, "harness.test")
    cmd = ["go", "test", "-c", "-vet=off", "-o", out]
    if race:
        cmd.append("-race")
    else:
        cmd += ["-overlay", overlay(scratch)]
    r = subprocess.run(cmd + ["."], cwd=HARNESS, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        print("build failed:\n" + r.stdout + r.stderr)
        sys.exit(3)
    return out


def run(binary, pid, tier, seed, shards, scratch, env, deadline, extra=None):
    procs = []
    for i in range(shards):
        d = os.path.join(scratch, "shard%d" % i)
        os.mkdir(d)
        e = dict(env, VERIF_SEED=str(seed), VERIF_SHARD=str(i), VERIF_TIER=tier, VERIF_OUT=os.path.join(d, "stats.json"),
                 GOTRACEBACK="all", GORACE="halt_on_error=0", TMPDIR=d)
        for k in [k for k in e if k.startswith("RAPID_")]:
            del e[k]
        if pid not in RACE:
            e["GOMAXPROCS"] = "1"
        else:
            e["GOMAXPROCS"] = "4"
        e.update(extra or {})
        left = max(10, int(deadline - time.time()))
        log = open(os.path.join(d, "log"), "wb")
        p = subprocess.Popen([binary, "-test.run", "^Test%s$" % pid, "-test.timeout", "%ds" % left, "-test.v"],
                             cwd=d, env=e, stdout=log, stderr=subprocess.STDOUT)
        procs.append((i, d, p, log))
    res = []
    for i, d, p, log in procs:
        try:
            rc = p.wait(timeout=max(1, deadline + 15 - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = None
        log.close()
        text = open(os.path.join(d, "log"), errors="replace").read()
        res.append((i, d, rc, text))
    return res


def failfiles(d):
    out = []
    for dd, _, files in os.walk(os.path.join(d, "testdata")):
        out += [os.path.join(dd, f) for f in files if f.endswith(".fail")]
    return sorted(out)


def classify(rc, text, d):
    """-> None (held), ("violation", what, file or None) or ("error", what, None)"""
    if rc == 0:
        return None
    ff = failfiles(d)
    if ff:
        return ("violation", "falsified", ff[0])
    if rc is None:
        return ("error", "timed out", None)
    if rc == 70 and "VERIF-STUCK" in text:
        return ("violation" if FRAME in text.split("VERIF-STUCK")[1] else "error", "stuck", None)
    if "test timed out" in text:
        return ("error", "timed out", None)
    if "WARNING: DATA RACE" in text:
        for part in text.split("WARNING: DATA RACE")[1:]:
            if FRAME in part.split("==================")[0]:
                return ("violation", "data race", None)
    m = re.search(r"^(panic: |fatal error: |unexpected fault|SIG[A-Z]+: )", text, re.M)
    if m and "out of memory" not in text[m.start():m.start() + 200] and FRAME in text[m.start():]:
        return ("violation", "crash", None)
    if m and "out of memory" in text[m.start():m.start() + 200]:
        return ("error", "out of memory", None)
    return ("error", "exit %s" % rc, None)


def known(pid):
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def store(pid, tier, seed, shard, what, ff, text):
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    sub = ""
    if ff:
        m = re.match(r"Test%s_(.+?)-\d{14}-\d+\.fail$" % pid, os.path.basename(ff))
        sub = m.group(1) if m else ""
    dst = os.path.join(ROOT, "replays", "%s-%s-seed%d-shard%d.fail" % (pid, sub or what.replace(" ", "-"), seed, shard))
    with open(dst, "w") as f:
        f.write("# property=%s sub=%s tier=%s seed=%d shard=%d what=%s\n" % (pid, sub, tier, seed, shard, what))
        if ff:
            f.write("\n".join(l for l in open(ff, errors="replace").read().split("\n")) + "\n")
        else:
            for l in text[-20000:].split("\n"):
                f.write("# " + l + "\n")
    return dst


def main():
    t0 = time.time()
    env = sh_env()
    if sys.argv[1] == "--replay":
        f = os.path.abspath(sys.argv[2])
        head = open(f, errors="replace").readline()
        h = dict(kv.split("=", 1) for kv in head[1:].split() if "=" in kv)
        pid, tier, seed, shard = h["property"], h["tier"], int(h["seed"]), int(h["shard"])
        extra = {"VERIF_SHARD": str(shard)}
        if re.search(r"^v[\d.]+#\d+", open(f, errors="replace").read(), re.M):
            extra.update(VERIF_REPLAY=f, VERIF_SUB=h.get("sub", ""))
        shards = 1
    else:
        pid, tier = sys.argv[1], sys.argv[2]
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        extra, shards = None, SHARDS[tier]
    deadline = t0 + LIMIT[tier]
    scratch = tempfile.mkdtemp(prefix="distclusverif-")
    try:
        binary = build(scratch, pid in RACE, env)
        res = run(binary, pid, tier, seed, shards, scratch, env, deadline, extra)
        bad = [(i, d, rc, text, classify(rc, text, d)) for i, d, rc, text in res]
        viol = [b for b in bad if b[4] and b[4][0] == "violation"]
        errs = [b for b in bad if b[4] and b[4][0] == "error"]
        if sys.argv[1] == "--replay":
            print(res[0][3][-8000:])
            if viol:
                print("VIOLATION property=%s replay=%s" % (pid, f))
            sys.exit(1 if viol else 2 if errs else 0)
        ev = evidence(pid, tier, seed, res, t0, 0)
        kf = known(pid)
        for rx, what in kf:
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
        reported = 0
        for i, d, rc, text, (kind, what, ff) in viol:
            body = open(ff, errors="replace").read() if ff else text
            if any(rx.search(body) for rx, _ in kf):
                continue
            path = store(pid, tier, seed, i, what, ff, text)
            if reported == 0:
                lines = [l for l in text.split("\n") if l.strip() and "[rapid] draw" not in l]
                print("\n".join(lines[-60:])[-6000:])
            print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(path, ROOT)))
            reported += 1
        if reported:
            ev["violations"] = reported
        write(pid, ev, t0)
        if reported:
            sys.exit(1)
        if errs:
            i, d, rc, text, (kind, what, _) = errs[0]
            print(text[-6000:])
            print("no answer: shard %d: %s" % (i, what))
            sys.exit(2)
        c = ev["coverage"]
        print("%s %s seed=%d: held on %d cases (%d distinct non-trivial) in %.1f s" % (
            pid, tier, seed, c["evaluations"], c["distinct_nontrivial"], ev["wall_s"]))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def evidence(pid, tier, seed, res, t0, violations):
    evals, hashes, classes, subs, samples, rule = 0, set(), {}, {}, [], ""
    for i, d, rc, text in res:
        try:
            s = json.load(open(os.path.join(d, "stats.json")))
        except Exception:
            continue
        evals += s["evaluations"]
        rule = s["rule"]
        hashes.update(s["hashes"] or [])
        for k, v in (s["classes"] or {}).items():
            classes[k] = classes.get(k, 0) + v
        for k, v in (s["subs"] or {}).items():
            subs[k] = subs.get(k, 0) + v
        if i == 0:
            samples = s["samples"] or []
    return dict(property=pid, tier=tier, seed=seed, level="exploration",
                coverage=dict(evaluations=evals, distinct_nontrivial=len(hashes), rule=rule, samples=samples[:12],
                              classes=classes, evaluations_per_subcheck=subs),
                assumptions=["cases come from the generators in /verif/harness; nothing is claimed outside them"],
                wall_s=round(time.time() - t0, 2), violations=violations)


def write(pid, ev, t0):
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


main()
