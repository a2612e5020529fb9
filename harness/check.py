#!/usr/bin/env python3
"""check.py ID [--replay FILE]: decide one property on /repo's working tree.

1. build the compiled extension from /repo;
2. explore the property's specification-level models with TLC (exhaustive
   within their constants), which also emit behaviours to replay;
3. execute emitted and seeded random scenarios on the real code;
4. validate every recorded session against spec/Trace.tla with TLC.

exit 0: held on everything explored; 1: VIOLATION line; 2: machinery failure.
"""
import fcntl
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
CLASSES = os.path.join(VERIF, "build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python"
T0 = time.time()


class Machinery(Exception):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def build():
    os.makedirs(CLASSES, exist_ok=True)
    with open(os.path.join(CLASSES, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = os.path.join(VERIF, "java", "Rat.java")
        out = os.path.join(CLASSES, "Rat.class")
        if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
            p = subprocess.run(["javac", "-cp", JARS, "-d", CLASSES, src],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise Machinery("javac: " + p.stdout.decode())
    with open("/tmp/.igakit-build.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if p.returncode:
            raise Machinery("build of /repo failed: " + p.stdout.decode()[-3000:])


def tlc(module, cfg, work, name, env=None, props=(), workers=8, timeout=800, extra=()):
    """Run TLC; returns (generated, distinct, emitted lines, output)."""
    meta = os.path.join(work, "meta-" + name)
    shutil.rmtree(meta, ignore_errors=True)
    tmp = os.path.join(work, "tmp-" + name)
    os.makedirs(tmp, exist_ok=True)
    emit = os.path.join(work, "emit-" + name)
    if os.path.exists(emit):
        os.unlink(emit)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx10g", "-Xss64m", "-Demit=" + emit,
           "-Djava.io.tmpdir=" + tmp]
    cmd += list(props)
    cmd += ["-cp", CLASSES + ":" + JARS, "tlc2.TLC", "-metadir", meta, "-workers", str(workers),
            "-deadlock", "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery("TLC timed out on " + name)
    out = p.stdout.decode(errors="replace")
    open(os.path.join(work, "tlc-" + name + ".out"), "w").write(out)
    shutil.rmtree(meta, ignore_errors=True)
    shutil.rmtree(tmp, ignore_errors=True)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    lines = open(emit).read().splitlines() if os.path.exists(emit) else []
    return p.returncode, gen, dist, lines, out


def drive(scens, work, name, workers=8, timeout=20):
    sf = os.path.join(work, "scen-%s.ndjson" % name)
    tf = os.path.join(work, "trace-%s.ndjson" % name)
    with open(sf, "w") as f:
        for s in scens:
            f.write(json.dumps(s) + "\n")
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="agg", PYTHONHASHSEED="0",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    p = subprocess.run([PY, os.path.join(HERE, "drive.py"), sf, tf, str(workers), str(timeout)],
                       env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise Machinery("driver: " + p.stdout.decode()[-3000:])
    return tf


def validate(tf, work, name, timeout=800):
    """-> (failures {id: (step, what)}, done ids, states, generated)"""
    rc, gen, dist, lines, out = tlc("Trace.tla", "Trace.cfg", work, "trace-" + name,
                                    env={"TRACE": tf}, timeout=timeout)
    if rc != 0:
        raise Machinery("trace validation: TLC exit %d\n%s" % (rc, tail_error(out)))
    fails, done, known = {}, set(), []
    for l in lines:
        k, i, step, what = (l.split(" ", 3) + [""])[:4]
        if k == "FAIL":
            fails[i] = (int(step), what)
        elif k == "KNOWN":
            known.append((i, int(step), what))
        else:
            done.add(i)
    return fails, done, known, dist, gen


def validate_parts(tf, work, name, budget):
    """validate; where TLC stops on a session it cannot evaluate (an answer of
    no known form, say), halve the trace so that the others are still judged"""
    try:
        return validate(tf, work, name) + ([],)
    except Machinery as ex:
        part = open(tf).read().splitlines()
        if len(part) < 2 or budget[0] <= 0 or "timed out" in str(ex):
            return {}, {json.loads(l)["id"] for l in part}, [], 0, 0, [ex]
        fails, done, known, dist, gen, errs = {}, set(), [], 0, 0, []
        for h, half in enumerate((part[:len(part) // 2], part[len(part) // 2:])):
            budget[0] -= 1
            hf = tf + "." + str(h)
            with open(hf, "w") as f:
                f.write("\n".join(half) + "\n")
            r = validate_parts(hf, work, name, budget)
            os.unlink(hf)
            fails.update(r[0])
            done |= r[1]
            known += r[2]
            dist += r[3]
            gen += r[4]
            errs += r[5]
        return fails, done, known, dist, gen, errs


def tail_error(out):
    i = out.find("Error:")
    return out[i:i + 4000] if i >= 0 else out[-3000:]


def known_findings():
    f = os.path.join(VERIF, "known_findings.json")
    return json.load(open(f)) if os.path.exists(f) else []


def is_known(pid, scen, step, what):
    """A known finding names the failing clause and the exact call."""
    for k in known_findings():
        if k.get("status") == "known" and k["property"] == pid and k["verdict"] == what:
            if all(s in scen["steps"] for s in k.get("steps", [])):
                return k
    return None


def main():
    pid = sys.argv[1]
    if pid == "--setup":
        build()
        return 0
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.path.insert(0, HERE)
    import props
    P = props.PROPS[pid]
    work = os.path.join(VERIF, "work", pid)
    os.makedirs(work, exist_ok=True)
    ev_file = os.path.join(VERIF, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev_file), exist_ok=True)
    build()
    log("built")
    states = trans = 0
    scens, violations, models = [], [], []
    if replay:
        scens = [json.load(open(replay))["scenario"]]
    else:
        import models as MODELS
        for mi, m in enumerate(MODELS.MODELS.get(pid, [])):
            c = m[tier]
            if c is None:
                continue
            nm = "%s-%d" % (m["module"], mi)
            cfg = os.path.join(work, nm + ".cfg")
            with open(cfg, "w") as f:
                f.write("SPECIFICATION Spec\nVIEW view\n")
                for kv in sorted(c.get("consts", {}).items()):
                    f.write("CONSTANT %s = %s\n" % kv)
                for inv in m["inv"]:
                    f.write("INVARIANT %s\n" % inv)
                for pr in m.get("props", ()):
                    f.write("PROPERTY %s\n" % pr)
            rc, gen, dist, lines, out = tlc(m["module"] + ".tla", cfg, work, nm, timeout=c.get("timeout", 3000))
            if rc != 0:
                raise Machinery("model %s: TLC exit %d\n%s" % (nm, rc, tail_error(out)))
            states += dist
            trans += gen
            models.append(dict(module=m["module"], constants=c.get("consts", {}), invariants=m["inv"],
                               distinct_states=dist, states_generated=gen, behaviours_emitted=len(lines)))
            log("model %s: %d distinct, %d generated, %d behaviours" % (nm, dist, gen, len(lines)))
            if "replay" in m:
                rr = random.Random(seed * 7919 + 13)
                k = c.get("replays", 200)
                lines.sort()
                if len(lines) > k:
                    lines = rr.sample(lines, k)
                for i, l in enumerate(lines):
                    for j, steps in enumerate(m["replay"](json.loads(l), rr)):
                        scens.append({"id": "m%d.%d.%d" % (mi, i, j), "steps": steps})
        r = random.Random("%s/%d" % (pid, seed))
        for i, steps in enumerate(P["gen"](r, P[tier])):
            scens.append({"id": "r%d" % i, "steps": steps})
    log("%d scenarios" % len(scens))
    byid = {s["id"]: s for s in scens}
    assert len(byid) == len(scens)
    batch = P.get("batch", 600)
    nev = nwait = done_n = 0
    ops, outcomes = {}, {"accepted": 0, "refused": 0}
    sample = None
    errors, budget = [], [24]
    for b in range(0, len(scens), batch):
        part = scens[b:b + batch]
        tf = drive(part, work, "b", timeout=P.get("call_timeout", 20))
        fails, done, known, dist, gen, errs = validate_parts(tf, work, "b", budget)
        errors += errs
        states += dist
        trans += gen
        for line in open(tf):
            t = json.loads(line)
            if not t["ev"]:
                raise Machinery("empty trace " + t["id"])
            if t["id"] not in done and t["id"] not in fails:
                raise Machinery("no verdict for " + t["id"])
            nev += len(t["ev"])
            for e in t["ev"]:
                ops[e["op"]] = ops.get(e["op"], 0) + 1
                outcomes["refused" if e["raised"] else "accepted"] += 1
            for i, step, what in known:
                if i == t["id"]:
                    violations.append((i, (step, what), t))
            if t["id"] in fails:
                violations.append((t["id"], fails[t["id"]], t))
            else:
                done_n += 1
                if sample is None and len(t["ev"]) > 1:
                    sample = dict(scenario=byid[t["id"]],
                                  first_event={k: v for k, v in t["ev"][1].items() if k != "heap"})
    log("%d sessions, %d events validated" % (len(scens), nev))
    bad = 0
    shown = {}
    for i, (step, what), t in violations:
        k = is_known(pid, byid[i], step, what)
        if k:
            if k["what"] not in shown:      # one line per finding
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
                shown[k["what"]] = 1
            continue
        bad += 1
        if bad > 20:
            continue
        rf = os.path.join(work, "violation-%d.json" % bad)
        json.dump(dict(property=pid, scenario=byid[i], failing_step=step, verdict=what,
                       events=t["ev"][:step]), open(rf, "w"))
        print("VIOLATION property=%s replay=%s verdict=%s scenario=%s step=%d"
              % (pid, os.path.relpath(rf, VERIF), what, i, step))
    if errors and not bad:                  # sessions without a verdict, and nothing else to report
        raise errors[0]
    if not replay:
        want = {}
        for sc in scens:
            for st in sc["steps"]:
                want[st["op"]] = want.get(st["op"], 0) + 1
        never = [k for k in sorted(want) if want[k] >= 20 and k not in ops and k != "mark"]
        if never and not bad:               # the check must not be quiet because it asks nothing
            raise Machinery("planned, never made: %s" % never)
        cov = dict(states=states, transitions=trans, traces_validated_against_impl=done_n,
                   calls_validated=nev, calls_by_operation=ops, calls_planned=want, outcomes=outcomes,
                   models=models, samples=[sample] if sample else [])
        json.dump(dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
                       assumptions=P.get("assumptions", []), wall_s=round(time.time() - T0, 2),
                       violations=bad), open(ev_file, "w"), indent=1)
    log("%s: %s" % (pid, "VIOLATED (%d)" % bad if bad else "held"))
    return 1 if bad else 0


if __name__ == "__main__":
    try:
        rc = main()
    except Machinery as e:
        print("MACHINERY FAILURE", e)
        rc = 2
    sys.exit(rc)
