#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property on /repo's working tree
check.py replay <file>                  run one replay file
check.py build                          build only

Exit 0: held on everything explored. Exit 1 and "VIOLATION property=.. replay=..":
broken. Exit 2: the check itself failed (no verdict)."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as B
import evidence as EV

WORKERS = min(8, os.cpu_count() or 8)
BUDGET = {"quick": 180, "thorough": 560}    # seconds of search; the number of cases is the usual end
MINI = {"quick": 60, "thorough": 90}

def say(s):
    print(s, flush=True)

def run_json(cmd, timeout):
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, "timed out: " + " ".join(cmd)
    for line in reversed(r.stdout.splitlines()):
        if line.startswith("{"):
            try:
                return json.loads(line), r.stderr
            except ValueError:
                break
    return None, "status %d, %s" % (r.returncode, (r.stdout + r.stderr)[-800:])

def symbols(exe, pcs):
    out = []
    for a in pcs[:24]:
        r = subprocess.run(["addr2line", "-fCse", exe, "%x" % (a - 1)], capture_output=True, text=True)
        l = (r.stdout.splitlines() + ["?", "?"])[:2]
        l[0] = re.sub(r"std::__cxx11::basic_string<(char|wchar_t), std::char_traits<\1>, std::allocator<\1> ?>", lambda m: "string" if m.group(1) == "char" else "wstring", l[0])
        out.append("  %s at %s" % (l[0][:200], l[1]))
    return out

def infra(msg):
    say("ERROR no verdict: " + msg)
    sys.exit(2)

def report(exe, prop, tier, case, first):
    """gate, minimise, replay in a fresh process; returns (path, verdict)"""
    rdir = os.path.join(VERIF, "build", "replay")
    os.makedirs(rdir, exist_ok=True)
    v1, err = run_json([exe, "replay", case], 400)
    if not v1 or not v1["violated"] or v1["infra"] or v1["kind"] != first["kind"]:
        infra("the violation found does not happen again in a fresh process: %s / %s" % (first, v1 or err))
    small = case + ".min"
    m, err = run_json([exe, "minimize", case, small, str(MINI[tier])], MINI[tier] + 400)
    best, verdict = case, v1
    if m and m["violated"] and not m["infra"] and os.path.exists(small):
        v2, _ = run_json([exe, "replay", small], 400)
        if v2 and v2["violated"] and not v2["infra"] and v2["kind"] == first["kind"]:
            best, verdict = small, v2
    dst = os.path.join(rdir, "%s-%s-%s.case" % (prop, verdict["kind"], verdict["hash"]))
    shutil.copyfile(best, dst)
    return dst, verdict

def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    say("property=%s tier=%s seed=%d" % (prop, tier, seed))
    try:
        exe = B.build()
    except B.BuildError as e:
        infra("building: %s" % e)
    t1 = time.time()
    say("built in %.1f s: %s" % (t1 - t0, exe))
    tmp = tempfile.mkdtemp(prefix="tsim-", dir=os.path.join(VERIF, "build"))
    try:
        budget = float(os.environ.get("TSIM_BUDGET", BUDGET[tier]))
        procs = []
        for w in range(WORKERS):
            o = os.path.join(tmp, "w%d" % w)
            procs.append((w, o, subprocess.Popen([exe, "run", prop, tier, str(seed), str(w), str(WORKERS), str(budget), o],
                                                 stdout=open(o + ".log", "w"), stderr=subprocess.STDOUT)))
        limit = time.time() + budget + 300
        found = []
        grace = None
        while True:
            live = [p for p in procs if p[2].poll() is None]
            found = [p for p in procs if p[2].returncode == 1]
            if not live:
                break
            if found and grace is None:
                grace = time.time() + 1.5
            if (grace and time.time() > grace) or time.time() > limit:
                for p in live:
                    p[2].kill()
                    p[2].wait()
                if not found:
                    infra("a worker did not end")
                break
            time.sleep(0.05)
        tot, errors = EV.merge([o for _, o, p in procs if p.returncode in (0, 1, 2)])
        t2 = time.time()
        viol = None
        if found:
            best = None
            for w, o, p in found:
                m = re.search(r"^index (\d+) (\{.*)$", open(o + ".log", errors="replace").read(), re.M)
                if m and (best is None or int(m.group(1)) < best[0]):
                    best = (int(m.group(1)), json.loads(m.group(2)), o + ".case")
            if not best:
                infra("a worker reports a violation without naming it")
            path, v = report(exe, prop, tier, best[2], best[1])
            viol = (path, v)
        else:
            bad = [(w, p.returncode, open(o + ".log", errors="replace").read()[-500:]) for w, o, p in procs if p.returncode != 0]
            if bad or errors:
                for w, o, p in procs:
                    if os.path.exists(o + ".infra"):
                        d = os.path.join(VERIF, "build", "replay")
                        os.makedirs(d, exist_ok=True)
                        shutil.copyfile(o + ".infra", os.path.join(d, prop + "-infra.case"))
                infra("worker failed: %s %s" % (bad, errors))
        EV.write(VERIF, prop, tier, seed, tot, time.time() - t0, t2 - t1, WORKERS, viol)
        say("%d cases, %d simulated runs (%d distinct and non-trivial), %.1f s" % (tot["cases"], tot["runs"], len(tot["hashes"]), t2 - t1))
        if viol:
            path, v = viol
            say("%s: %s" % (v["kind"], v["msg"]))
            lines = symbols(exe, v["pcs"])
            for l in lines:
                say(l)
            with open(path[:-5] + ".txt", "w") as f:
                f.write("%s: %s\n%s\n" % (v["kind"], v["msg"], "\n".join(lines)))
            say("replay with: python3 %s replay %s" % (os.path.join(VERIF, "check.py"), path))
            say("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        if tot["cases"] == 0:
            infra("nothing was explored")
        return 0
    finally:
        for _, _, p in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(tmp, ignore_errors=True)

def main():
    if len(sys.argv) > 1 and sys.argv[1] == "build":
        try:
            exe = B.build()
        except B.BuildError as e:
            infra("building: %s" % e)
        say(exe)
        r = subprocess.run([exe, "list"], capture_output=True, text=True)
        say(r.stdout)
        return r.returncode
    if len(sys.argv) > 2 and sys.argv[1] == "replay":
        try:
            exe = B.build()
        except B.BuildError as e:
            infra("building: %s" % e)
        v, err = run_json([exe, "replay", sys.argv[2]], 600)
        if not v:
            infra(err)
        if v["infra"]:
            infra(v["msg"])
        if v["violated"]:
            say("%s: %s (execution %s)" % (v["kind"], v["msg"], v["hash"]))
            for l in symbols(exe, v["pcs"]):
                say(l)
            return 1
        say("no violation (execution %s)" % v["hash"])
        return 0
    if len(sys.argv) < 2:
        say(__doc__)
        return 2
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return check(sys.argv[1], tier)

if __name__ == "__main__":
    sys.exit(main())
