#!/usr/bin/env python3
"""Decides one property by deterministic simulation.

    check.py C01                      tier and seed from VERIF_TIER / VERIF_SEED
    check.py --replay FILE            re-runs a replay file
    check.py --build                  builds every simulator (setup_cmd)

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.
Exit 2: the check itself could not decide (build error, nondeterminism).
"""
import array, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
CPUS = max(1, min(8, os.cpu_count() or 1))
sys.path.insert(0, HERE)
from simconfig import SIMS, PROPS  # noqa: E402


class Broken(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


# ------------------------------------------------------------------ building
def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs if not d.endswith("__pycache__") and not f.endswith(".pyc"))
        for f in files:
            h.update(f.encode()); h.update(b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()[:16]


def compile_all(v, tmp, exe):
    jobs = []
    for i, u in enumerate(v["units"]):
        post = [x[1:] for x in u[1:] if x.startswith("|")]
        src, flags = u[0], " ".join(x for x in u[1:] if not x.startswith("|"))
        src = src.replace("REPO", REPO)
        if not os.path.isabs(src):
            src = os.path.join(VERIF, src)
        o = os.path.join(tmp, "u%d.o" % i)
        jobs.append(("%s %s %s -c %s -o %s" % (v["cxx"], v["flags"], flags, src, o)).replace("@REPO@", REPO) + "".join(" && " + x.replace("@OBJ@", o) for x in post))
    with cf.ThreadPoolExecutor(CPUS) as ex:
        for j, r in zip(jobs, ex.map(sh, jobs)):
            if r.returncode != 0:
                return "%s\n%s" % (j, r.stdout[-3000:])
    r = sh("%s %s %s -o %s" % (v.get("ld", v["cxx"] + " " + v["flags"]), os.path.join(tmp, "*.o"), v.get("libs", ""), exe + ".tmp"))
    if r.returncode != 0:
        return "link: " + r.stdout[-3000:]
    os.rename(exe + ".tmp", exe)
    return None


ABOUT = {}


def build(name):
    """Builds simulator variant `name` from the current tree; returns its path.

    Code that only compiles the way the repository itself is built (GCC, C++14)
    is no violation, so a variant may name simpler builds to fall back on.
    """
    v = SIMS[name]
    key = hashlib.sha256((tree_hash([os.path.join(REPO, "src"), HERE, os.path.join(VERIF, "ref")]) + json.dumps(v, sort_keys=True)).encode()).hexdigest()[:16]
    out = os.path.join(BUILD, name)
    tries = [dict(v, **f) for f in [{}] + v.get("fallback", [])]
    for n, t in enumerate(tries):
        exe = os.path.join(out, "sim-%s-%d" % (key, n))
        if os.path.exists(exe):
            ABOUT[name] = t["about"]
            return exe
    tmp = os.path.join(out, "obj")
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    for old in os.listdir(out):
        if old.startswith("sim-"):
            os.unlink(os.path.join(out, old))
    errors = []
    for n, t in enumerate(tries):
        exe = os.path.join(out, "sim-%s-%d" % (key, n))
        err = compile_all(t, tmp, exe)
        if err is None:
            shutil.rmtree(tmp, ignore_errors=True)
            ABOUT[name] = t["about"]
            return exe
        errors.append(err)
        print("note: %s does not build (%s)" % (name, t["about"]), flush=True)
    raise Broken("cannot build %s:\n%s" % (name, "\n".join(errors)))


# ------------------------------------------------------------------ running
class Cancelled(Exception):
    pass


def run_sim(exe, args, timeout=None, group=None):
    """group: processes that are ended together ({"procs": set, "cancelled": bool})"""
    e = dict(os.environ)
    e.pop("SIM_NOASLR", None)
    p = subprocess.Popen([exe] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, start_new_session=True)
    if group is not None:
        group["procs"].add(p)
    try:
        out, err = p.communicate(timeout=timeout)
    except BaseException:
        kill(p)
        p.communicate()
        raise
    finally:
        if group is not None:
            group["procs"].discard(p)
    if group is not None and group["cancelled"] and p.returncode < 0:
        raise Cancelled()
    out, err = out.decode("latin1"), err.decode("latin1")
    if p.returncode not in (0, 1):
        raise Broken("%s %s exited %d\n%s" % (exe, " ".join(map(str, args)), p.returncode, (out + err)[-3000:]))
    return out


def kill(p):
    try:
        os.killpg(p.pid, 9)      # a simulator runs its cases in child processes
    except (ProcessLookupError, PermissionError):
        pass


def parse(out):
    fails, stats = [], None
    for line in out.splitlines():
        if line.startswith("FAIL "):
            fails.append(json.loads(line[5:]))
        elif line.startswith("STATS "):
            stats = json.loads(line[6:])
    if stats is None:
        raise Broken("simulator printed no statistics:\n" + out[-2000:])
    return fails, stats


def merge(a, b):
    for k, v in b.items():
        if k == "log_all":
            a[k] = "%016x" % (int(a.get(k, "0"), 16) ^ int(v, 16))
        elif isinstance(v, dict):
            merge(a.setdefault(k, {}), v)
        elif isinstance(v, (int, float)):
            a[k] = max(a.get(k, 0), v) if k.startswith("max_") else a.get(k, 0) + v
        else:
            a[k] = v
    return a


def batch(exe, profile, seed, lo, hi, workers, seconds, tmp, tag, queue=False):
    """Runs indices [lo, hi); returns (failures sorted by index, stats, signatures, map)"""
    n = max(1, min(workers, hi - lo))
    if queue:            # few, long runs of uneven length: one process per run, longest first
        n = hi - lo
    group = {"procs": set(), "cancelled": False}

    def one(w):
        if group["cancelled"]:
            return [], {}
        return parse(run_sim(exe, ["--profile", profile, "--seed", seed, "--from", lo + w, "--to", hi, "--step", n, "--seconds", seconds,
                                   "--map", os.path.join(tmp, "%s.map%d" % (tag, w)), "--sigs", os.path.join(tmp, "%s.sig%d" % (tag, w))], group=group))

    def guarded(w):
        try:
            r = one(w)
        except Cancelled:
            return [], {}
        if r[0] and queue:       # the other runs would take minutes
            group["cancelled"] = True
            for p in list(group["procs"]):
                kill(p)
        return r
    fails, stats, sigs, bits = [], {}, set(), 0
    with cf.ThreadPoolExecutor(min(n, workers)) as ex:
        for f, s in ex.map(guarded, range(n)):
            fails += f
            merge(stats, s)
    for w in range(n):
        m, g = os.path.join(tmp, "%s.map%d" % (tag, w)), os.path.join(tmp, "%s.sig%d" % (tag, w))
        if os.path.exists(m):
            with open(m, "rb") as f:
                bits |= int.from_bytes(f.read(), "little")
            os.unlink(m)
        if os.path.exists(g):
            arr = array.array("Q")
            with open(g, "rb") as f:
                data = f.read()
                arr.frombytes(data[:len(data) // 8 * 8])
            sigs.update(arr)
            os.unlink(g)
    fails.sort(key=lambda x: x["idx"])
    return fails, stats, sigs, bits


def replay_text(exe, text, tmp, timeout=600):
    fd, p = tempfile.mkstemp(dir=tmp, suffix=".plan")
    with os.fdopen(fd, "w") as f:
        f.write(text)
    try:
        return json.loads(run_sim(exe, ["--replay", p], timeout=timeout).strip().splitlines()[-1])
    finally:
        os.unlink(p)


def replay_twice(exe, text, tmp):
    with cf.ThreadPoolExecutor(2) as ex:
        return list(ex.map(lambda _: replay_text(exe, text, tmp), range(2)))


def same(a, b):
    return not a["ok"] and not b["ok"] and a["class"] == b["class"]


# ------------------------------------------------------------------ minimising
OPLINE = re.compile(r"^[a-z_]+( [a-z_]+=-?\d+)+\s*$")


def minimise(exe, text, cls, tmp, budget):
    end = time.time() + budget
    lines = text.splitlines()
    tried = 0

    def bad(ls):
        nonlocal tried
        tried += 1
        try:
            r = replay_text(exe, "\n".join(ls) + "\n", tmp, max(20, end + 20 - time.time()))
        except (Broken, subprocess.TimeoutExpired):
            return False
        return not r["ok"] and r["class"] == cls

    def first(cands):
        """first failing candidate in order, eight at a time"""
        with cf.ThreadPoolExecutor(CPUS) as ex:
            for i in range(0, len(cands), CPUS):
                if time.time() > end:
                    return None
                part = cands[i:i + CPUS]
                for c, b in zip(part, ex.map(bad, part)):
                    if b:
                        return c
        return None
    is_op = lambda l: bool(OPLINE.match(l))
    # drop operations
    chunk = max(1, sum(map(is_op, lines)) // 2)
    while time.time() < end:
        idx = [i for i, l in enumerate(lines) if is_op(l)]
        cands = []
        for i in range(0, len(idx), chunk):
            drop = set(idx[i:i + chunk])
            cands.append([l for j, l in enumerate(lines) if j not in drop])
        c = first(cands)
        if c is not None:
            lines = c
        elif chunk == 1:
            break
        else:
            chunk = max(1, chunk // 2)
    # simplify arguments
    changed = True
    while changed and time.time() < end:
        changed = False
        for i in range(len(lines)):
            if time.time() > end:
                break
            if not is_op(lines[i]):
                continue
            for m in re.findall(r"([a-z_]+)=(\d+)", lines[i]):
                k, v = m[0], int(m[1])
                if v == 0:
                    continue
                cands = []
                for nv in (0, 1, 5, v // 2, v - v // 4, v - 1):
                    if 0 <= nv < v and (nv, ) not in cands:
                        cands.append(nv)
                cl = [lines[:i] + [re.sub(r"\b%s=\d+" % k, "%s=%d" % (k, nv), lines[i], count=1)] + lines[i + 1:] for nv in cands]
                c = first(cl)
                if c is not None:
                    lines = c
                    changed = True
    return "\n".join(lines) + "\n", tried


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    """lines 'finding: property=<id> sim=<variant-prefix> class=<class> match=<regex>' of known-findings.txt"""
    res = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) class=(\S+) match=(.*?) what=(.*)$", line.strip())
                if m and m.group(1) == prop:
                    res.append(m.groups()[1:])
    return res


# ------------------------------------------------------------------ one property
def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    P = PROPS[prop]
    tmp = tempfile.mkdtemp(prefix="sim-%s-" % prop)
    total, sigs, bitmap, per_variant, samples, known_hits = {}, set(), 0, {}, [], {}
    violation = None
    determinism = []
    known = known_findings(prop)
    try:
        for pi, part in enumerate(P["parts"]):
            base = pi * 1000000000   # every part explores its own seeds
            name, profile = part["sim"], part["profile"]
            runs = part[tier]
            if not runs:
                continue
            exe = build(name)
            tb = time.time()
            limit = part.get("seconds", {}).get(tier, 150 if tier == "quick" else 3600)
            lo = base
            vstats = {}
            unrepro = []
            while lo < base + runs:
                fails, stats, sg, bits = batch(exe, profile, seed, lo, base + runs, CPUS, max(5, limit - (time.time() - tb)), tmp, name, part.get("queue", False))
                merge(vstats, stats)
                sigs |= sg
                bitmap |= bits
                if not fails:
                    break
                f = fails[0]
                text = run_sim(exe, ["--profile", profile, "--seed", seed, "--from", f["idx"], "--to", f["idx"] + 1, "--gen", "x"])
                r1, r2 = replay_twice(exe, text, tmp)
                if r1["ok"] or not same(r1, r2) or r1["log"] != r2["log"]:
                    unrepro.append((f, r1, r2))
                    print("note: run %d of %s failed (%s) but does not replay identically" % (f["idx"], name, f["class"]), flush=True)
                    if len(unrepro) >= 12:
                        break
                    lo = f["idx"] + 1
                    continue
                hit = next((k for k in known if k[0] == r1["class"] and re.search(k[1], r1["detail"])), None)
                if hit:
                    known_hits[hit[2]] = known_hits.get(hit[2], 0) + 1
                    lo = f["idx"] + 1
                    continue
                violation = dict(part=part, idx=f["idx"], text=text, result=r1, exe=exe)
                break
            merge(total, {k: v for k, v in vstats.items() if k != "log_all"})
            per_variant[name] = {"profile": profile, "runs": vstats.get("runs", 0), "seconds": round(time.time() - tb, 2), "build": ABOUT[name]}
            if violation:
                break
            if unrepro:
                raise Broken("failures that do not replay: %r" % unrepro[0][0])
            # same seed twice, one worker against three: the event logs have to be identical
            n = min(runs, part.get("selfcheck", 96))
            at = base + part.get("selfcheck_at", 0)
            a = batch(exe, profile, seed, at, at + n, 1, 1e6, tmp, name + "a")[1]
            b = batch(exe, profile, seed, at, at + n, 3, 1e6, tmp, name + "b")[1]
            determinism.append({"sim": name, "runs_repeated": n, "identical": a["log_all"] == b["log_all"]})
            if a["log_all"] != b["log_all"]:
                raise Broken("%s is not deterministic: the same %d seeds gave different event logs" % (name, n))
            if len(samples) < 3:
                samples.append({"sim": name, "run": base + 1, "plan": run_sim(exe, ["--profile", profile, "--seed", seed, "--from", base + 1, "--to", base + 2, "--gen", "x"])[:1500].splitlines()})
        replay = None
        if violation:
            v = violation
            cls = v["result"]["class"]
            start = v["text"]
            if v["result"].get("hint"):
                h = replay_text(v["exe"], v["result"]["hint"], tmp)
                if not h["ok"] and h["class"] == cls:
                    start = v["result"]["hint"]
            # runs that take a minute each cannot be minimised much further than the hint
            budget = 60 if tier == "quick" else 300
            if tier == "quick" and time.time() - t0 > 450:
                budget = 0
            text, tried = minimise(v["exe"], start, cls, tmp, budget) if budget else (start, 0)
            fa, fb = replay_twice(v["exe"], text, tmp)
            if not (same(fa, fb) and fa["class"] == cls and fa["log"] == fb["log"]):
                text = v["text"]
                fa = v["result"]
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            replay = os.path.join("replays", "%s-%s-seed%d-run%d.replay" % (prop, v["part"]["sim"], seed, v["idx"]))
            with open(os.path.join(VERIF, replay), "w") as f:
                f.write("# replay of a violation of %s (re-run: sim/check.py --replay %s)\n# sim %s\n# profile %s seed %d run %d\n# class %s\n# log %s\n# %s\n"
                        % (prop, replay, v["part"]["sim"], v["part"]["profile"], seed, v["idx"], fa["class"], fa["log"], fa["detail"].replace("\n", "\\n")))
                f.write(text)
        wall = time.time() - t0
        nbits = bin(bitmap).count("1")
        distinct = len(sigs)
        runs = total.get("runs", 0)
        secs = max(1e-9, sum(x["seconds"] for x in per_variant.values()))
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": P.get("level", "exploration"),
            "coverage": {
                "evaluations": runs, "distinct_nontrivial": distinct, "rule": P["rule"], "samples": samples,
                "runs_and_seeds_per_hour": int(runs / secs * 3600),
                "simulated_time": P.get("time", "the library has no clock; simulated time is counted in operations: %d" % sum(total.get("ops", {}).values())),
                "distinct_states_reached": {"count": nbits, "measure": P.get("states", "")},
                "faults_injected": {k: v for k, v in total.get("faults", {}).items()},
                "determinism": determinism, "per_simulator": per_variant,
                "counters": {k: v for k, v in total.items() if k not in ("faults", "runs", "seconds", "nontrivial", "distinct")},
                "real_code": P["real"], "stubs": P["stubs"],
            },
            "assumptions": P["assumptions"], "wall_s": round(wall, 2), "violations": 1 if violation else 0,
        }
        if violation:
            ev["coverage"]["violation"] = {"class": fa["class"], "detail": fa["detail"], "replay": replay, "minimiser_replays": tried}
        if known_hits:
            ev["coverage"]["known_findings_hit"] = known_hits
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
        print("%s %s seed %d: %d runs (%d distinct non-trivial) in %.1f s, %d states" % (prop, tier, seed, runs, distinct, wall, nbits))
        if violation:
            print("%s: %s" % (fa["class"], fa["detail"].replace("\n", "\\n")))
            print("VIOLATION property=%s replay=%s" % (prop, replay))
            return 1
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay_file(path):
    with open(path) as f:
        text = f.read()
    sim = re.search(r"^# sim (\S+)", text, re.M).group(1)
    want_cls = re.search(r"^# class (\S+)", text, re.M)
    want_log = re.search(r"^# log (\S+)", text, re.M)
    exe = build(sim)
    tmp = tempfile.mkdtemp(prefix="sim-replay-")
    try:
        r = replay_text(exe, text, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print(json.dumps(r, indent=1))
    if r["ok"]:
        print("the run holds")
        return 0
    exact = want_cls and want_log and r["class"] == want_cls.group(1) and r["log"] == want_log.group(1)
    print("reproduced exactly" if exact else "fails, but differently from the recorded run")
    return 1


def main():
    try:
        if len(sys.argv) == 2 and sys.argv[1] == "--build":
            for n in SIMS:
                build(n)
            return 0
        if len(sys.argv) == 3 and sys.argv[1] == "--replay":
            return replay_file(sys.argv[2])
        if len(sys.argv) == 2 and sys.argv[1] in PROPS:
            return check(sys.argv[1])
        print(__doc__)
        return 2
    except (Broken, subprocess.TimeoutExpired) as e:
        print("CHECK ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
