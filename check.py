#!/usr/bin/env python3
"""Runs the check of one property: check.py C01 [--tier quick|thorough] / check.py --replay FILE

Builds the explorers against /repo's working tree in two profiles, runs every exploration job of the
property in both, and writes evidence/<id>.json. Exit 0: the property held on everything explored.
Exit 1: a line VIOLATION property=<id> replay=<file>. Anything else: the check itself failed.
"""
import glob, hashlib, json, os, shutil, signal, struct, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(ROOT, "harness")
BUILD = os.path.join(ROOT, ".build")
KNOWN = os.path.join(ROOT, "known-findings.txt")


def profiles(prop):
    # what an operation costs is promised for builds without debug assertions only
    # C37 is decided by the interpreter alone
    return ["plain"] if prop == "C35" else [] if prop == "C37" else ["plain", "checked"]


SLOT, NSLOTS = 1 << 16, 16


def bin_of(prop):
    n = int(prop[1:])
    return "ring" if n <= 10 else "counter" if n <= 16 else "dset" if n <= 20 else "interval" if n <= 31 else "hashed" if n <= 33 else "interval" if n == 34 else "cost" if n == 35 else "mem" if n == 36 else "safe" if n == 37 else "threads" if n == 38 else "nested"


class Broken(Exception):
    """The check could not do its work."""


def repo_hash():
    h = hashlib.sha256()
    fs = [os.path.join(REPO, "Cargo.toml")]
    for d, _, names in os.walk(os.path.join(REPO, "src")):
        fs += [os.path.join(d, n) for n in names]
    for f in sorted(fs):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as x:
            h.update(hashlib.sha256(x.read()).digest())
    return h.hexdigest()


def freshen(target):
    """Makes cargo rebuild the crate under test whenever its content changed, whatever the time stamps say."""
    os.makedirs(target, exist_ok=True)
    mark, now = os.path.join(target, "repo.hash"), repo_hash()
    old = open(mark).read() if os.path.exists(mark) else ""
    if old != now:
        for d in glob.glob(os.path.join(target, "**", ".fingerprint", "advanced_collections-*"), recursive=True):
            shutil.rmtree(d, ignore_errors=True)
        with open(mark, "w") as f:
            f.write(now)


def build(prop, profile, out):
    """Builds the explorer of `prop`; returns the path of a private copy of it."""
    import fcntl

    b = bin_of(prop)
    target = os.path.join(BUILD, profile)
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, "check.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        freshen(target)
        env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
        env.pop("RUSTFLAGS", None)
        r = subprocess.run(
            ["cargo", "build", "--offline", "--profile", profile, "--bin", b, "--features", prop],
            cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800,
        )
        if r.returncode != 0:
            raise Broken("building %s (%s) failed:\n%s" % (b, profile, r.stdout[-6000:]))
        shutil.copy2(os.path.join(target, profile, b), out)
    return out


def parallel(fs):
    res, err = [None] * len(fs), []

    def go(i):
        try:
            res[i] = fs[i]()
        except BaseException as e:
            err.append(e)

    ts = [threading.Thread(target=go, args=(i,)) for i in range(len(fs))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if err:
        raise err[0]
    return res


def journal(path):
    """The histories that were being executed when the explorer died."""
    out = []
    if not os.path.exists(path):
        return out
    data = open(path, "rb").read()
    for s in range(NSLOTS):
        o = s * SLOT
        if len(data) < o + 8:
            break
        job, n = struct.unpack_from("<II", data, o)
        if job:
            n = min(n, SLOT // 2 - 8)
            out.append((job - 1, list(struct.unpack_from("<%dH" % n, data, o + 8))))
    return out


def how(rc):
    if rc < 0:
        try:
            return "killed by %s" % signal.Signals(-rc).name
        except ValueError:
            return "killed by signal %d" % -rc
    return "exit status %d" % rc


def replay(exe, prop, tier, job, word, timeout):
    """(reproduced, text)"""
    cmd = [exe, "replay", prop, tier, str(job), ",".join(map(str, word))]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return True, (e.stdout or b"").decode(errors="replace") + "\n  did not finish within %d s" % timeout
    text = r.stdout.decode(errors="replace")
    if r.returncode == 0:
        return False, text
    if r.returncode == 1:
        return True, text
    if r.returncode == 2:
        raise Broken("replaying failed: " + text)
    return True, text + "\n  the process ended: " + how(r.returncode)


SHARDS = 4


def explore_threads(exe, prop, tier, profile, work):
    """The same in processes of one worker each: no two histories at a time share what the code under test may keep in statics."""
    rs = parallel([lambda k=k: explore(exe, prop, tier, profile, work, k) for k in range(SHARDS)])
    reps = [r for r, _ in rs if r]
    rep = dict(reps[0], jobs=sorted([j for r in reps for j in r["jobs"]], key=lambda j: j["job"]), findings=[f for r in reps for f in r["findings"]]) if reps else None
    return rep, next((v for _, v in rs if v), None)


def explore(exe, prop, tier, profile, work, shard=None):
    """(report or None, violation or None)"""
    name = profile if shard is None else "%s-%d" % (profile, shard)
    out, jn = os.path.join(work, name + ".json"), os.path.join(work, name + ".journal")
    stall = "10" if prop == "C19" else "30"
    limit = 420 if tier == "quick" else 3600
    log = open(os.path.join(work, name + ".log"), "wb")
    env = None if shard is None else dict(os.environ, MC_WORKERS="1", MC_SHARD="%d/%d" % (shard, SHARDS))
    try:
        r = subprocess.run([exe, "run", prop, tier, out, jn, stall], env=env, stdout=log, stderr=subprocess.STDOUT, timeout=limit)
        rc = r.returncode
    except subprocess.TimeoutExpired:
        rc = 97
    if rc in (0, 1):
        rep = json.load(open(out))
        v = rep.get("violation")
        if rc == 0:
            return rep, None
        if not v["confirmed"]:
            # not reproduced inside the explorer: decide in a fresh process
            again, text = replay(exe, prop, tier, v["job"], v["word"], 120)
            if not again:
                raise Broken("a reported violation does not reproduce: %s: %s" % (v["label"], v["msg"]))
        v.update(profile=profile, tier=tier)
        return rep, v
    # the code under test brought the explorer down (or to a halt): find the history that does it
    tail = open(log.name, "rb").read()[-2000:].decode(errors="replace")
    hist = journal(jn)

    def one(job, word):
        again, text = replay(exe, prop, tier, job, word, 60)
        return (job, word, text) if again else None

    for f in parallel([lambda h=h: one(*h) for h in hist]):
        if f:
            job, word, text = f
            lines = [l.strip() for l in text.splitlines() if l.strip()]
            return None, dict(job=job, word=word, label=next((l[10:] for l in lines if l.startswith("scenario: ")), "?"), ops=[l for l in lines if not l.startswith(("scenario", "reproduced"))][:400], msg="execution brings the process down: " + (lines[-1] if lines else "?"), profile=profile, tier=tier, confirmed=True)
    raise Broken("the explorer ended with %s and no running history reproduces it\n%s" % (how(rc), tail))


# ---- C08, C37, C38: the memory model ------------------------------------------------------------
MIRIFLAGS = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-tree-borrows -Zmiri-preemption-rate=0"
MIRI = {"C08": "ub", "C37": "safe", "C38": "threads", "C39": "nested"}


def miri_cmd(prop, *more):
    # without debug assertions, which would end a history before it reaches what they guard
    return ["cargo", "+nightly", "miri", "run", *more, "--offline", "--profile", "plain", "--bin", MIRI[prop], "--", "races" if prop in ("C38", "C39") else "run"]


def miri_env():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "miri"), CARGO_NET_OFFLINE="true", MIRIFLAGS=MIRIFLAGS)
    env.pop("RUSTFLAGS", None)
    return env


def shard(prop, lines, name, work, end, stop):
    """Executes the histories `lines` under Miri: (number executed, violation or None, notes)"""
    done, notes = 0, []
    while lines and not stop.is_set():
        f = os.path.join(work, name)
        open(f, "w").write("\n".join(lines) + "\n")
        with open(f + ".out", "w") as o:
            p = subprocess.Popen(miri_cmd(prop, "-q") + [f], cwd=HARNESS, env=miri_env(), stdout=o, stderr=subprocess.STDOUT, start_new_session=True)
        while p.poll() is None and time.time() < end and not stop.is_set():
            time.sleep(0.1)
        rc = p.poll()
        if rc is None:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        text = open(f + ".out", errors="replace").read()
        at = [l[3:] for l in text.splitlines() if l.startswith("at ")]
        done += len(at)
        if rc is None:
            return done, None, notes + ["out of time"]
        if rc == 0 and "\nfinished" in "\n" + text:
            return done, None, notes
        err = [l for l in text.splitlines() if l.startswith("error")]
        if not at or not err or "unsupported operation" in err[0] or len(notes) > 50:
            raise Broken("Miri ended with %s:\n%s" % (how(rc), text[-3000:]))
        if "Undefined Behavior" in err[0]:
            i = text.index(err[0])
            return done, dict(job=-1, label="memory model (Miri)", word=at[-1], ops=[], msg=err[0], detail=text[i:i + 3000], profile="miri", tier="", confirmed=True), notes
        # ended otherwise, by an abort for instance: bad perhaps, but no undefined behaviour; on with the next history
        notes.append("%s: %s" % (at[-1], err[0]))
        lines = lines[len(at):]
    return done, None, notes


def miri(prop, tier, work, budget):
    """Runs every history of the small state space under Miri. (coverage, violation or None)"""
    import fcntl

    lst = os.path.join(work, "histories")
    empty = os.path.join(work, "none")
    open(empty, "w").close()
    t2 = os.path.join(BUILD, "ub")
    exe = os.path.join(work, "list.exe")
    os.makedirs(os.path.join(BUILD, "miri"), exist_ok=True)
    with open(os.path.join(BUILD, "miri", "check.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        freshen(os.path.join(BUILD, "miri"))

        def prepare():
            r = subprocess.run(miri_cmd(prop) + [empty], cwd=HARNESS, env=miri_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
            if r.returncode != 0 or "finished" not in r.stdout:
                raise Broken("Miri does not run:\n" + r.stdout[-4000:])

        def native():
            freshen(t2)
            e2 = dict(miri_env(), CARGO_TARGET_DIR=t2)
            r = subprocess.run(["cargo", "build", "--offline", "--profile", "plain", "--bin", MIRI[prop]], cwd=HARNESS, env=e2, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
            if r.returncode != 0:
                raise Broken("building %s failed:\n%s" % (MIRI[prop], r.stdout[-4000:]))
            shutil.copy2(os.path.join(t2, "plain", MIRI[prop]), exe)
            try:
                r = subprocess.run([exe, "list", tier, lst], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
            except subprocess.TimeoutExpired:
                return "no end within 120 s", ""
            return r.returncode, r.stdout

        rc, table = parallel([prepare, native])[1]
    lines = open(lst).read().splitlines() if os.path.exists(lst) else []
    note = []
    if rc != 0:
        # the histories themselves bring a native process down: those found so far, and the one it was at
        note.append("enumerating the histories natively: " + (rc if isinstance(rc, str) else how(rc)))
        if os.path.exists(lst + ".trying"):
            lines.append(open(lst + ".trying").read().strip())
    n, stop, end = os.cpu_count() or 8, threading.Event(), time.time() + budget

    def one(k):
        r = shard(prop, lines[k::n], "shard%d" % k, work, end, stop)
        if r[1]:
            stop.set()
        return r

    rs = parallel([lambda k=k: one(k) for k in range(n)])
    bad = next((v for _, v, _ in rs if v), None)
    if bad:
        bad["tier"] = tier
        bad["ops"] = [subprocess.run([exe, "show", bad["word"]], stdout=subprocess.PIPE, text=True).stdout.strip()]
    notes = note + [x for _, _, ns in rs for x in ns]
    cov = dict(histories=len(lines), executed=sum(d for d, _, _ in rs), complete=not notes and not bad, notes=notes[:20])
    kinds = {}
    for l in lines:
        kinds.setdefault(l.split(" ")[0], []).append(l)
    cov["samples"] = [subprocess.run([exe, "show", ls[2 * len(ls) // 3]], stdout=subprocess.PIPE, text=True).stdout.strip() for ls in kinds.values()]
    cov["longest_history"] = max([l.count(",") + 1 for l in lines] or [0])
    cov["objects"] = [dict(zip(("object", "states", "expanded", "transitions", "complete"), l.split("\t"))) for l in table.splitlines() if l.count("\t") == 4]
    return cov, bad


def known():
    ks = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.rstrip("\n")
            if l.startswith("known: property="):
                p, k = l[len("known: property="):].split(" ", 1)
                ks.append((p, k))
    return ks


def report(prop, v):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, prop + ".json")
    v = dict(v, property=prop, how_to_replay="python3 %s --replay %s" % (os.path.join(ROOT, "check.py"), path))
    json.dump(v, open(path, "w"), indent=1)
    print("%s [%s]" % (v.get("label", ""), v.get("profile", "")))
    for o in v.get("ops", [])[:60]:
        print("    " + o)
    print("  " + v.get("msg", "")[:2000])
    print("VIOLATION property=%s replay=%s" % (prop, path))


def run(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    work = tempfile.mkdtemp(prefix="mc-%s-" % prop)
    try:
        exes = parallel([lambda p=p: build(prop, p, os.path.join(work, p + ".exe")) for p in profiles(prop)])
        t_build = time.time() - t0
        reps, viol, findings = {}, None, []
        if prop in ("C38", "C39"):
            rs = parallel([lambda p=p, exe=exe: explore_threads(exe, prop, tier, p, work) for p, exe in zip(profiles(prop), exes)])
        else:
            rs = (explore(exe, prop, tier, p, work) for p, exe in zip(profiles(prop), exes))
        for p, (rep, v) in zip(profiles(prop), rs):
            if rep:
                reps[p] = rep
                findings += [f for f in rep["findings"] if f not in findings]
            if v:
                viol = v
                break
        extra = {}
        if prop in MIRI and not viol:
            mi, v = miri(prop, tier, work, 200 if tier == "quick" else 2400)
            extra["memory_model"] = mi
            viol = viol or v
        listed = [k for p, k in known() if p == prop]
        for f in findings:
            if f in listed:
                print("KNOWN-FINDING: property=%s %s" % (prop, f))
            elif not viol:
                viol = dict(job=-2, label="finding", word=f, ops=[f], msg=f, profile="plain", tier=tier, confirmed=True)
        evidence(prop, tier, seed, reps, viol, findings, extra, t_build, time.time() - t0)
        if viol:
            report(prop, viol)
            return 1
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def evidence(prop, tier, seed, reps, viol, findings, extra, t_build, wall):
    mm = extra.get("memory_model", {})
    if not profiles(prop):
        # decided under Miri alone: the objects whose histories were enumerated stand for the jobs of an explorer
        z = dict(mode="breadth-first search, every transition executed under Miri", samples=[], divergences=0, steps=0, compared=0, outcomes=0, disabled=0, max_depth=mm.get("longest_history", 0), histories=0)
        reps = {"miri": {"jobs": [dict(z, label=o["object"], states=int(o["states"]), transitions=int(o["transitions"]), exhausted=o["complete"] == "true" and mm["complete"], cap="the operations of the first %s states in breadth-first order" % o["expanded"]) for o in mm.get("objects", [])]}}
    first = next(iter(reps.values()), None) or {"jobs": []}
    jobs = first["jobs"]
    both = [j for r in reps.values() for j in r["jobs"]]
    capped = [{"scenario": j["label"], "cap": j["cap"]} for j in both if not j["exhausted"]]
    capped += [{"scenario": j["label"], "cap": "not available"} for j in both if j["label"].endswith("is not possible here")]
    samples = []
    for j in jobs:
        for s in j["samples"][-1:]:
            samples.append("%s: %s" % (j["label"], s[:300]))
    if not profiles(prop):
        samples = mm.get("samples", [])
    step = max(1, len(samples) // 12)
    cov = {
        "states": sum(j["states"] for j in jobs),
        "transitions": sum(j["transitions"] for j in jobs),
        "traces_validated_against_impl": sum(j["histories"] for j in both) + mm.get("executed", 0),
        "exhaustive": bool(reps) and not capped and len(reps) >= len(profiles(prop)) and not viol and not any(j["divergences"] for j in both),
        "samples": samples[::step][:16],
        "how": "Every history is executed on the real code from a fresh object, in lock step with a reference model. "
        "states: distinct object states (breadth-first search), histories (word enumeration) or cases, in the build without debug assertions; "
        "transitions: operations applied to them in that build, for enumerated cases the comparisons with the model; "
        "traces_validated_against_impl: complete histories executed and compared, in both builds (and under Miri).",
        "operations_executed": sum(j["steps"] for j in both),
        "comparisons": sum(j["compared"] for j in both),
        "distinct_outcomes": sum(j["outcomes"] for j in jobs),
        "disabled_operations": sum(j["disabled"] for j in jobs),
        "longest_history": max([j["max_depth"] for j in both] or [0]),
        "replay_divergences": sum(j["divergences"] for j in both),
        "caps_hit": capped,
        "builds": list(reps),
        "scenarios": [{"name": j["label"], "strategy": j["mode"], "states": j["states"], "transitions": j["transitions"], "complete": j["exhausted"]} for j in jobs][:120],
        "build_s": round(t_build, 2),
    }
    cov.update(extra)
    if findings:
        cov["findings"] = findings
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": ["bounds and alphabets are those listed under this property in DESIGN.md", "values outside the alphabets and element types outside the listed ones are covered by symmetry arguments only", "the exploration is exhaustive and deterministic; the seed has no influence"],
        "wall_s": round(wall, 2),
        "violations": 1 if viol else 0,
    }
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, prop + ".json"), "w"), indent=1)


def rerun(path):
    v = json.load(open(path))
    prop = v["property"]
    work = tempfile.mkdtemp(prefix="mc-replay-")
    try:
        if v["profile"] == "miri":
            f = os.path.join(work, "one")
            open(f, "w").write(v["word"] + "\n")
            freshen(miri_env()["CARGO_TARGET_DIR"])
            return subprocess.run(miri_cmd(prop, "-q") + [f], cwd=HARNESS, env=miri_env()).returncode
        exe = build(prop, v["profile"], os.path.join(work, "exe"))
        if v["job"] < 0:
            print(v["msg"])
            return 1
        again, text = replay(exe, prop, v["tier"], v["job"], v["word"], 120)
        print(text)
        return 1 if again else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    try:
        if a[0] == "--replay":
            return rerun(a[1])
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        return run(a[0], tier)
    except Broken as e:
        print("check.py: " + str(e), file=sys.stderr)
        return 3
    except subprocess.TimeoutExpired as e:
        print("check.py: " + str(e), file=sys.stderr)
        return 4


if __name__ == "__main__":
    sys.exit(main())
