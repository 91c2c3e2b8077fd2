#!/usr/bin/env python3
"""Runs the monitors of one property: check.py <property> [--tier quick|thorough] [--seed N] [--cases N]

Builds the harness against /repo's working tree (VERIF_REPO overrides, for development), runs the cases in
parallel, collects what the monitors report, writes evidence/<property>.json.
Exit 0: held on everything explored; 1: VIOLATION; 2: the check itself could not run."""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
from registry import CHECKS, VARIANTS, BINARIES          # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
JOBS = 8
ENV = dict(os.environ, LC_ALL="C.UTF-8", OMP_NUM_THREADS="1", HOME=os.environ.get("HOME", "/root"))


def log(*a):
    print(*a, flush=True)


def die(msg):
    log("ERROR:", msg)
    sys.exit(2)


def cache_root():
    d = os.path.join(HERE, ".build")
    try:
        os.makedirs(d, exist_ok=True)
        t = tempfile.NamedTemporaryFile(dir=d)
        t.close()
        return d
    except OSError:
        return tempfile.mkdtemp(prefix="verif-build-")


def tree_hash(h, root, exts):
    for base, dirs, files in sorted(os.walk(root)):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(exts):
                p = os.path.join(base, f)
                h.update(os.path.relpath(p, root).encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())


class Build:
    """Objects are cached by the content of everything they are made from."""

    def __init__(self):
        self.root = cache_root()
        h = hashlib.sha256()
        tree_hash(h, os.path.join(REPO, "include"), (".hpp", ".h", ".cpp"))
        tree_hash(h, os.path.join(HERE, "harness"), (".hpp", ".h"))
        self.base = h.hexdigest()

    def objfile(self, src, flags):
        h = hashlib.sha256((self.base + "\0" + " ".join(flags)).encode())
        h.update(open(os.path.join(HERE, "harness", src), "rb").read())
        return os.path.join(self.root, os.path.basename(src).replace(".cpp", "") + "-" + h.hexdigest()[:24] + ".o")

    def compile(self, src, cxx, flags):
        obj = self.objfile(src, [cxx] + flags)
        if os.path.exists(obj):
            os.utime(obj)
            return obj, None
        tmp = obj + ".%d.tmp" % os.getpid()
        cmd = [cxx] + flags + ["-c", os.path.join(HERE, "harness", src), "-o", tmp]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
        if r.returncode:
            return None, r.stdout.decode(errors="replace")
        os.replace(tmp, obj)
        return obj, None

    def prune(self):
        fs = [os.path.join(self.root, f) for f in os.listdir(self.root)]
        dirs = sorted((f for f in fs if os.path.isdir(f) and os.path.basename(f).startswith("libs-")), key=os.path.getmtime)
        for d in dirs[:-12]:
            if time.time() - os.path.getmtime(d) > 3600:
                shutil.rmtree(d, ignore_errors=True)
        fs = sorted((f for f in fs if os.path.isfile(f)), key=os.path.getmtime)
        total = sum(os.path.getsize(f) for f in fs)
        while fs and total > 600e6:
            f = fs.pop(0)
            total -= os.path.getsize(f)
            try:
                os.remove(f)
            except OSError:
                pass

    def many(self, jobs):
        """jobs: list of (binary, variant); returns {(binary, variant): path}"""
        units, out = {}, {}
        subst = lambda f: f.replace("@REPO@", REPO).replace("@HARNESS@", os.path.join(HERE, "harness")).replace("@VERIF@", HERE)
        for b, v in jobs:
            V = VARIANTS[v]
            flags = [subst(f) for f in V["cxxflags"] + BINARIES[b].get("cxxflags", [])]
            if "libraries" in BINARIES[b]:
                units[(b, v)] = [(subst(s), V["cxx"], flags + [subst(f) for f in L.get("cxxflags", [])]) for L in BINARIES[b]["libraries"] for s in L["sources"]]
            else:
                units[(b, v)] = [(s, V["cxx"], flags) for s in BINARIES[b]["sources"]]
        todo = {}
        for us in units.values():
            for u in us:
                todo[(u[0], u[1], tuple(u[2]))] = u
        order = sorted(todo.values(), key=lambda u: -HEAVY.get(u[0], 1))
        objs, errs = {}, {}
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = {ex.submit(self.compile, *u): u for u in order}
            for f in cf.as_completed(futs):
                u = futs[f]
                o, e = f.result()
                if e:
                    errs[u[0]] = e
                objs[(u[0], u[1], tuple(u[2]))] = o
        def link(bv):
            b, v = bv
            V = VARIANTS[v]
            os_ = [objs[(u[0], u[1], tuple(u[2]))] for u in units[bv]]
            if None in os_:
                return bv, None, None
            if "libraries" in BINARIES[b]:
                return (bv,) + self.libraries(BINARIES[b], V, os_)
            h = hashlib.sha256(" ".join(os_ + V["ldflags"] + BINARIES[b].get("ldflags", [])).encode()).hexdigest()[:24]
            exe = os.path.join(self.root, "%s-%s-%s" % (b, v, h))
            if not os.path.exists(exe):
                tmp = exe + ".%d.tmp" % os.getpid()
                cmd = [V["cxx"]] + os_ + V["ldflags"] + BINARIES[b].get("ldflags", []) + ["-o", tmp]
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
                if r.returncode:
                    return bv, None, r.stdout.decode(errors="replace")
                os.replace(tmp, exe)
            else:
                os.utime(exe)
            return bv, exe, None
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for bv, exe, e in ex.map(link, list(units)):
                if e:
                    errs["link " + bv[0]] = e
                out[bv] = exe
        self.prune()
        return out, errs


    def libraries(self, bin, V, objs):
        """Shared libraries next to each other and a driver script that runs with them; returns (executable, error)"""
        driver = os.path.join(HERE, "harness", bin["driver"])
        py = python()
        if not py:
            return None, "no python interpreter with numpy"
        h = hashlib.sha256(json.dumps([objs, V["ldflags"], V.get("preload"), "order2", bin, py]).encode() + open(driver, "rb").read()).hexdigest()[:24]
        d = os.path.join(self.root, "libs-" + h)
        exe = os.path.join(d, "run")
        if os.path.exists(exe):
            return exe, None
        tmp = tempfile.mkdtemp(prefix="libs-tmp-", dir=self.root)
        k = 0
        for L in bin["libraries"]:
            mine = objs[k:k + len(L["sources"])]
            k += len(mine)
            cmd = [V["cxx"], "-shared"] + mine + V["ldflags"] + ["-L" + tmp, "-Wl,-rpath,$ORIGIN"] + L.get("ldflags", []) + ["-o", os.path.join(tmp, L["name"])]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)
            if r.returncode:
                shutil.rmtree(tmp, ignore_errors=True)
                return None, r.stdout.decode(errors="replace")
        shutil.copy(driver, os.path.join(tmp, "driver.py"))
        pre = ""
        if V.get("preload"):
            libs = [subprocess.run([V["cxx"], "-print-file-name=" + l], stdout=subprocess.PIPE).stdout.decode().strip() for l in V["preload"]]
            # the replaced clock has to come before the standard library's
            pre = "LD_PRELOAD=\"%s\" " % " ".join(libs[:-1] + ["$d/" + bin["libraries"][0]["name"]] + libs[-1:])
        with open(os.path.join(tmp, "run"), "w") as f:
            f.write("#!/bin/sh\nd=$(dirname \"$0\")\n%sPYTHONPATH=\"$d\" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 exec %s -s \"$d/driver.py\" \"$@\"\n" % (pre, py))
        os.chmod(os.path.join(tmp, "run"), 0o755)
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)      # another run was faster
        return exe, None


def python():
    for p in ("/opt/veriftools/pyvenv/bin/python", "python3-vt", "python3"):
        p = shutil.which(p)
        if p and subprocess.run([p, "-c", "import numpy,sys;sys.exit(sys.version_info[:2]!=(3,12))"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0:
            return p
    return None


HEAVY = {"nl_dyn.cpp": 8, "nl_static1.cpp": 9, "nl_static2.cpp": 9, "nl_static3.cpp": 8, "nl_static4.cpp": 8,
         "lm_dyn.cpp": 8, "lm_static1.cpp": 9, "lm_static2.cpp": 9}


class Results:
    def __init__(self):
        self.cases = {}        # (run, idx) -> (hash, nontrivial)
        self.viol = []         # (run, case, idx, key, detail)
        self.samples = []
        self.counters = {}
        self.completed = True


def parse(path, run, case, res):
    begun, done, fin = None, None, False
    try:
        txt = open(path, errors="replace").read()
    except OSError:
        txt = ""
    for line in txt.split("\n"):
        t = line.split("\t")
        if t[0] == "B" and len(t) == 2:
            begun = int(t[1])
        elif t[0] == "V" and len(t) >= 4:
            res.viol.append((run, case, int(t[1]), t[2], t[3]))
        elif t[0] == "S" and len(t) >= 3:
            res.samples.append((run, int(t[1]), t[2]))
        elif t[0] == "E" and len(t) == 4:
            res.cases[(run, case, int(t[1]))] = (t[2], t[3] == "1")
            done = int(t[1])
        elif t[0] == "C" and len(t) == 3:
            res.counters[t[1]] = res.counters.get(t[1], 0) + int(t[2])
        elif t[0] == "D":
            fin = True
    return begun, done, fin


def tail(path, n=1200):
    try:
        b = open(path, "rb").read()
    except OSError:
        return ""
    txt = b.decode(errors="replace")
    m = re.search(r"(ERROR: AddressSanitizer|WARNING: ThreadSanitizer|ERROR: LeakSanitizer|runtime error:|WARNING: MemorySanitizer|Assertion|terminate called|ERROR SUMMARY|Invalid (read|write)|uninitialised)", txt)
    if m:
        txt = txt[max(0, m.start() - 150):m.start() + n]
    else:
        txt = txt[-n:]
    return re.sub(r"\s+", " ", txt)


def crash_key(err, rc):
    m = re.search(r"(AddressSanitizer: [\w-]+|ThreadSanitizer: [\w -]+?(?= \(|\n)|LeakSanitizer: [\w ]+|MemorySanitizer: [\w-]+)", err)
    if m:
        return "crash:" + m.group(1).replace(" ", "")
    m = re.search(r"runtime error: ([^\n]{0,60})", err)
    if m:
        return "crash:UBSan:" + re.sub(r"[\d\s]+", "-", m.group(1))[:40]
    if "Assertion" in err:
        return "crash:assertion"
    if rc == 97:
        return "crash:valgrind"
    if "terminate called" in err:
        return "crash:terminate"
    return "crash:exit%d" % rc


def run_range(run, exe, wrapper, case, seed, tier, a, b, work, extra_env, timeout_case, deadline):
    """Runs cases [a,b), restarting after a crashed case."""
    res = Results()
    env = dict(ENV, **extra_env)
    crashes = kills = 0
    while a < b:
        tag = "%s-%s-%d" % (run, case, a)
        out, err = os.path.join(work, tag + ".out"), os.path.join(work, tag + ".err")
        for p in (out, err):
            if os.path.exists(p):
                os.remove(p)
        cmd = wrapper + [exe, "--case", case, "--seed", str(seed), "--tier", tier, "--from", str(a), "--to", str(b), "--out", out]
        with open(err, "wb") as fe, open(os.devnull, "wb") as dn:
            p = subprocess.Popen(cmd, stdout=dn, stderr=fe, env=env, cwd=work)
            last, lastsize = time.time(), -1
            hang = False
            while True:
                try:
                    rc = p.wait(timeout=0.2)
                    break
                except subprocess.TimeoutExpired:
                    size = os.path.getsize(out) if os.path.exists(out) else 0
                    if size != lastsize:
                        last, lastsize = time.time(), size
                    if time.time() - last > timeout_case:
                        hang = True
                    if hang or time.time() > deadline:
                        p.kill()
                        rc = p.wait()
                        break
        begun, done, fin = parse(out, run, case, res)
        if fin and rc == 0:
            break
        if rc == -9 and not hang and time.time() <= deadline:
            # ended from outside (out of memory): says nothing about the code, try again
            kills += 1
            if kills > 2:
                res.viol.append((run, case, a, "harness", "the process was killed from outside"))
                res.completed = False
                break
            if begun is not None:
                a = begun
            continue
        if hang:
            k = begun if begun is not None else a
            res.viol.append((run, case, k, "hang", "the case does not finish within %d s" % timeout_case))
            a = k + 1
        elif time.time() > deadline:
            res.completed = False
            break
        elif rc == 3:
            res.viol.append((run, case, a, "harness", "harness refused to run: " + tail(err)))
            res.completed = False
            break
        else:
            e = tail(err)
            k = begun if begun is not None else a
            whole = open(err, errors="replace").read() if os.path.exists(err) else ""
            # a report at exit (leaks) is not tied to one case
            res.viol.append((run, case, a if fin else k, crash_key(whole, rc), "exit code %d: %s" % (rc, e)))
            if fin:
                break
            a = k + 1
        crashes += 1
        if crashes >= 3:
            break
    return res


def known():
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay", help="a replay file written by an earlier run")
    a = ap.parse_args()
    if a.prop not in CHECKS:
        die("unknown property " + a.prop)
    t0 = time.time()
    C = CHECKS[a.prop]
    tier = "thorough" if a.tier == "thorough" else "quick"
    budget = 840 if tier == "quick" else C.get("thorough_s", 3600)
    deadline = t0 + budget
    runs = C["runs"]
    if a.replay:
        R = json.load(open(a.replay))
        runs = [r for r in runs if r["name"] == R["run"]]
    B = Build()
    exes, errs = B.many(sorted({(r["binary"], r.get("variant", "plain")) for r in runs}))
    if errs:
        for one, other in C.get("modes", []):
            # one kind of controller cannot be built although the other can
            hit = [s for s in errs if re.match(one, s)]
            if hit and not any(re.match(other, s) for s in errs) and all(re.match(one, s) for s in errs):
                os.makedirs(os.path.join(HERE, "evidence", "replays"), exist_ok=True)
                rp = os.path.join(HERE, "evidence", "replays", "%s-compile.json" % a.prop)
                json.dump({"property": a.prop, "unit": hit[0], "detail": errs[hit[0]][:4000]}, open(rp, "w"), indent=1)
                log("VIOLATION property=%s replay=%s compile: %s does not compile although its counterpart does" % (a.prop, rp, hit[0]))
                sys.exit(1)
        for s, e in errs.items():
            log("compilation of", s, "failed:\n" + e[:4000])
        # what can be built still runs: it may show a violation
        runs = [r for r in runs if exes.get((r["binary"], r.get("variant", "plain")))]
        if not runs:
            die("the harness does not build against " + REPO)
    tb = time.time() - t0
    work = tempfile.mkdtemp(prefix="verif-run-")
    total = Results()
    try:
        tasks = []
        for r in runs:
            exe = exes[(r["binary"], r.get("variant", "plain"))]
            n = r["n"][tier] if isinstance(r["n"], dict) else r["n"]
            n = max(1, int(n * a.scale))
            if a.replay:
                tasks.append((r, exe, R["case"], R["seed"], R["index"], R["index"] + 1))
                continue
            for case in r["cases"]:
                k = max(1, min(JOBS, n))
                if tier == "thorough":
                    k = max(1, min(JOBS * 4, n))
                for j in range(k):
                    lo, hi = n * j // k, n * (j + 1) // k
                    if hi > lo:
                        tasks.append((r, exe, case, a.seed, lo, hi))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = []
            for r, exe, case, seed, lo, hi in tasks:
                V = VARIANTS[r.get("variant", "plain")]
                env = dict(V.get("env", {}), **r.get("env", {}))
                futs.append(ex.submit(run_range, r["name"], exe, r.get("wrapper", []), case, seed, tier, lo, hi, work, env, r.get("timeout", 120), deadline))
            for f in futs:
                q = f.result()
                total.viol += q.viol
                total.samples += q.samples
                for k, v in q.cases.items():
                    total.cases[k] = v
                for k, v in q.counters.items():
                    total.counters[k] = total.counters.get(k, 0) + v
                total.completed &= q.completed
        # a hang is believed only when the case, alone on the machine, does not finish either
        if not a.replay:
            for v in [v for v in total.viol if v[3] == "hang"]:
                if time.time() + 60 > deadline:
                    continue
                r = [r for r in runs if r["name"] == v[0]][0]
                V = VARIANTS[r.get("variant", "plain")]
                env = dict(V.get("env", {}), **r.get("env", {}))
                q = run_range(r["name"], exes[(r["binary"], r.get("variant", "plain"))], r.get("wrapper", []), v[1], a.seed, tier, v[2], v[2] + 1, work, env,
                              2 * r.get("timeout", 120), deadline)
                if q.completed and not any(w[3] == "hang" for w in q.viol):
                    total.viol.remove(v)
                    total.viol += q.viol
        # the same cases must be observed identically in every one of the named runs
        for name1, name2 in C.get("same", []):
            for (run, case, k), v in sorted(total.cases.items()):
                w = total.cases.get((name2, case, k))
                if run == name1 and w and v[0] != w[0]:
                    total.viol.append((name2, case, k, "uninitialised", "the results depend on the content of fresh heap memory (runs %s and %s observe different values)" % (name1, name2)))
        if a.replay:
            for v in total.viol:
                log("reproduced: %s case %s index %d: %s: %s" % (v[0], v[1], v[2], v[3], v[4][:1500]))
            log("%d violation(s) on replay" % len(total.viol))
            sys.exit(1 if total.viol else 0)
    finally:
        shutil.rmtree(work, ignore_errors=True)

    only = [re.compile(x) for x in C.get("only_keys", [])]
    viol = [v for v in total.viol if not only or any(x.search(v[3]) for x in only)]
    harness = [v for v in total.viol if v[3] == "harness"]
    ks = known()
    fresh, seen = [], set()
    for v in viol:
        if v[3] == "harness":
            continue
        hit = [k for k in ks if k[0] == a.prop and k[1] == v[3]]
        if hit:
            if v[3] not in seen:
                log("KNOWN-FINDING: property=%s %s" % (a.prop, hit[0][2]))
            seen.add(v[3])
        else:
            fresh.append(v)
    hashes = {h for h, nt in total.cases.values() if nt}
    nontriv = len(hashes)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rdir = os.path.join(HERE, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    ev = {
        "property": a.prop, "tier": tier, "seed": a.seed, "level": C.get("level", "exploration"),
        "coverage": {
            "evaluations": len(total.cases), "distinct_nontrivial": nontriv, "rule": C["rule"],
            "samples": [s[2] for s in total.samples[:8]], "observed": total.counters,
            "runs": [{"name": r["name"], "binary": r["binary"], "variant": r.get("variant", "plain"), "cases": r["cases"]} for r in runs],
            "build_s": round(tb, 1), "all_cases_ran": total.completed,
        },
        "assumptions": C.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
    }
    with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s: %d cases, %d distinct non-trivial, %s, build %.1f s, total %.1f s" % (a.prop, len(total.cases), nontriv, json.dumps(total.counters), tb, time.time() - t0))
    if fresh:
        reported = set()
        for v in fresh:
            if v[3] in reported or len(reported) >= 5:
                continue
            reported.add(v[3])
            rp = os.path.join(rdir, "%s-%s.json" % (a.prop, re.sub(r"[^\w]+", "_", v[3])))
            with open(rp, "w") as f:
                json.dump({"property": a.prop, "run": v[0], "case": v[1], "seed": a.seed, "index": v[2], "key": v[3], "detail": v[4],
                           "how": "python3 check.py %s --replay %s" % (a.prop, rp)}, f, indent=1)
            log("VIOLATION property=%s replay=%s %s: %s" % (a.prop, rp, v[3], v[4][:600]))
        sys.exit(1)
    if errs:
        die("parts of the harness do not build against " + REPO)
    if harness:
        die(harness[0][4])
    if not total.completed:
        log("time budget exhausted before all cases ran: the evidence names what was explored")
    if nontriv < C.get("min_nontrivial", 2):
        die("the monitors observed nothing")
    for need in C.get("need", []):
        if total.counters.get(need, 0) <= 0:
            die("the monitors never observed: " + need)
    sys.exit(0)


main()
