#!/usr/bin/env python3
"""Decide one property of geo-crossings on /repo's current working tree.

    check.py <property id>            run the check (VERIF_TIER, VERIF_SEED from the environment)
    check.py --setup                  build what can be built ahead of time
    check.py --replay <file>          run the case of a replay file again

1. The contract units of the property are generated from the current sources and given to Verus: every function
   under contract is verified against its contract (tools/unit.py).
2. A search over concrete inputs runs on the real crate (harness/): it turns a failed obligation into a failing
   input, and it is the bounded stand-in for the functions the verifier does not reach.
Exit 0: held.  Exit 1 with a VIOLATION line: broken.  Any other exit: the check itself could not run.
"""
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import threading
import time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
import unit as U  # noqa: E402
from props import PROPS  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, "build")
HARNESS = os.path.join(V, "harness")
KNOWN = os.path.join(V, "known_findings.txt")
NPROC = max(2, min(8, os.cpu_count() or 4))


def say(*a):
    print(*a)
    sys.stdout.flush()


# ------------------------------------------------------------------ the real code
def build_harness():
    env = dict(os.environ)
    for l in open("/opt/vp/env.sh") if os.path.exists("/opt/vp/env.sh") else []:
        m = re.match(r"\s*(?:export\s+)?(\w+)=(\S+)\s*$", l)
        if m and "$" not in m.group(2):
            env.setdefault(m.group(1), m.group(2).strip("'\""))
    h = HARNESS
    if REPO != "/repo":  # a scratch copy of the tree under test
        h = os.path.join(BUILD, "harness-alt")
        shutil.rmtree(h, ignore_errors=True)
        shutil.copytree(HARNESS, h, ignore=shutil.ignore_patterns("target"))
        t = open(os.path.join(h, "Cargo.toml")).read().replace('path = "/repo"', 'path = "%s"' % REPO)
        open(os.path.join(h, "Cargo.toml"), "w").write(t)
    tgt = os.path.join(BUILD, "target" if REPO == "/repo" else "target-alt")
    env.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=tgt, RUSTFLAGS="-Awarnings --cfg geo_crossings_verif")
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=h, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        return None, p.stdout.decode("utf8", "replace")[-3000:]
    return os.path.join(tgt, "debug", "geo-crossings-replay"), ""


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_search(exe, search, seed, secs, shard, known, tier, extra=()):
    """-> dict of the harness; an abort is run again with a trace, to learn its input"""
    cmd = [exe, search, "--seed", str(seed), "--secs", str(secs), "--shard", str(shard), "--known", ",".join(known)] + list(extra)
    env = dict(os.environ, VERIF_TIER=tier)

    def go(more, t):
        try:
            p = subprocess.run(cmd + more, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=limits, timeout=t)
        except subprocess.TimeoutExpired:
            return None, ""
        return p.returncode, p.stdout.decode("utf8", "replace")
    rc, out = go([], secs + 90)
    last = out.strip().split("\n")[-1]
    if rc in (0, 1) and last.startswith("{"):
        r = json.loads(last)
    else:
        tr = os.path.join(BUILD, "trace-%s-%d-%d" % (search, os.getpid(), shard))
        rc2, out2 = go(["--trace", tr], secs * 3 + 120)
        last = out2.strip().split("\n")[-1]
        if rc2 in (0, 1) and last.startswith("{"):
            r = json.loads(last)
            if rc2 == 0:
                r["note"] = "the search ended with %s once, and did not when it was repeated" % rc
        else:
            inp = open(tr).read() if os.path.exists(tr) else "?"
            r = dict(search=search, cases=0, families=[], known=[], failure=dict(family="?", case=-1, input=inp, message="the process was ended with status %s (abort, stack overflow or memory exhausted)" % (rc2 if rc2 is not None else rc)))
        if os.path.exists(tr):
            os.unlink(tr)
    r["seed"], r["shard"] = seed, shard
    return r


# ------------------------------------------------------------------ the proofs
def prove(name, tier, out, deadline, stop):
    """run one contract unit; isolates functions the verifier cannot take"""
    path = os.path.join(V, "contracts", name + ".rs")
    res = dict(unit=name, status="undecided", why="", verified=0, nerr=0, wall=0.0, smt=0.0, errors=[], functions=[], changed=[], skipped={}, assumptions=[], vacuity=None, cmd="")
    out[name] = res
    skip = {}
    try:
        for k in range(6):
            if k and time.time() > deadline - 60:
                break
            u = U.Unit(path, REPO)
            try:
                src = u.build(skip=skip)
            except U.Lost as e:
                if e.label and e.label not in skip:
                    skip[e.label] = str(e)
                    continue
                res["why"] = str(e)
                res["skipped"] = skip
                return
            p = os.path.join(BUILD, "%s_%d.rs" % (name, os.getpid()))
            open(p, "w").write(src)
            vac = {}

            def vacuity():
                v, names = U.vacuity_text(src)
                p2 = os.path.join(BUILD, "%s_%d_vac.rs" % (name, os.getpid()))
                open(p2, "w").write(v)
                r2 = U.run_verus(p2, confirm=False, deadline=deadline)
                vac.update(names=names, r=r2)
                os.unlink(p2)
            th = threading.Thread(target=vacuity)
            th.start()
            r = U.run_verus(p, deadline=deadline, stop=stop)
            th.join()
            res["wall"] += r["wall"]
            res["smt"] += r["smt"]
            again = False
            if r["unsup"]:
                # put aside the functions the verifier rejects, if they changed; the rest is still decided
                for e in r["unsup"]:
                    for l in e["lines"]:
                        sec, it = u.owner(l)
                        if sec is not None and sec.kind == "fn" and sec.label not in skip and sec.label in u.changed:
                            skip[sec.label] = e["msg"][:200]
                            again = True
            if again:
                continue
            break
        res.update(status=r["status"], why=r["why"], verified=r["verified"], nerr=r["nerr"], cmd=r["cmd"], skipped=skip, changed=u.changed)
        res["functions"] = sorted(set(s.label for s, it, ex in u.sections if s.kind == "fn" and s.label not in skip))
        res["assumptions"] = U.assumptions(src)
        for e in r["errors"]:
            owner = None
            for l in [e["line"]] + e["lines"]:
                sec, it = u.owner(l)
                if sec is not None:
                    owner = (sec, it)
                    break
            e["owner"] = owner[0].label if owner else None
            e["where"] = "%s:%d" % (owner[1].file, owner[1].line) if owner else "contract lemma"
        res["errors"] = r["errors"]
        if r["status"] == "ok" and vac.get("r"):
            hit = set(x for e in vac["r"]["errors"] for x in e["lines"])
            bad = [n for l, n in vac["names"] if l not in hit]
            res["vacuity"] = dict(functions=len(vac["names"]), contradicted=len(vac["names"]) - len(bad), vacuous=bad)
            if vac["r"]["status"] != "failed" and vac["names"]:
                res["vacuity"]["note"] = "vacuity run: " + vac["r"]["status"] + " " + vac["r"]["why"]
        os.unlink(p)
    except Exception as e:  # a defect of the machinery is never a verdict
        res["why"] = "internal: %r" % (e,)
        res["status"] = "undecided"


# ------------------------------------------------------------------ known findings
def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) class=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    return out


def write_replay(pid, data):
    d = os.path.join(V, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s.json" % pid)
    json.dump(data, open(p, "w"), indent=1)
    return p


def check(pid):
    t0 = time.time()
    spec = PROPS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    proofs, threads = {}, []
    found = threading.Event()
    for n, _ in spec["units"]:
        th = threading.Thread(target=prove, args=(n, tier, proofs, t0 + 600, found.is_set))
        th.start()
        threads.append(th)
    exe, err = build_harness()
    if exe is None:
        say("the harness does not build against the tree under test:\n" + err)
        for th in threads:
            th.join()
        sys.exit(2)
    known = known_findings(pid)
    classes = [k for k, _ in known]

    def searches(secs, base):
        outs, ths = [], []

        def one(s, k):
            o = run_search(exe, s, base + 100 * k, secs, k, classes, tier)
            if o["failure"]:
                found.set()
            outs.append(o)
        per = max(1, NPROC // max(1, len(spec["searches"])))
        for s in spec["searches"]:
            for k in range(per):
                th = threading.Thread(target=one, args=(s, k))
                th.start()
                ths.append(th)
        for th in ths:
            th.join()
        return outs
    secs = spec.get("secs", 20) if tier == "quick" else spec.get("thorough_secs", 400)
    outs = searches(secs, seed)
    for th in threads:
        th.join()

    # obligations that count for this property
    failed, undecided, discharged, functions, lines = [], [], 0, [], []
    total = 0
    for n, pat in spec["units"]:
        r = proofs[n]
        mine = [f for f in r["functions"] if re.search(pat, f)]
        functions += ["%s: %s" % (n, f) for f in mine]
        mism = [e for e in r["errors"] if e["owner"] is None or re.search(pat, e["owner"])]
        if r["status"] == "undecided":
            undecided.append("unit %s: %s" % (n, r["why"]))
        elif mism:
            failed += [(n, e) for e in mism]
        for k, w in r["skipped"].items():
            if re.search(pat, k):
                undecided.append("unit %s: %s is outside the verifier's reach as it stands: %s" % (n, k, w))
        if r["vacuity"] and r["vacuity"]["vacuous"]:
            undecided.append("unit %s: contracts of %s are vacuous" % (n, r["vacuity"]["vacuous"]))
        total += r["verified"] + r["nerr"]
        discharged += r["verified"] if r["status"] != "undecided" else 0
    bad = next((o for o in outs if o["failure"]), None)
    if failed and not bad:
        more = searches(3 * secs if tier == "quick" else secs, seed + 7919)
        outs += more
        bad = next((o for o in more if o["failure"]), None)

    cases = sum(o["cases"] for o in outs)
    violations = 0
    for k, text in known:
        say("KNOWN-FINDING: property=%s %s: %s" % (pid, k, text))
    for u in undecided:
        say("UNDECIDED BY PROOF (bounded search decides): " + u)
    if bad:
        f = bad["failure"]
        rp = write_replay(pid, dict(property=pid, search=bad["search"], seed=bad["seed"], shard=bad["shard"], family=f["family"], case=f["case"], input=f["input"], message=f["message"], known=classes, tier=tier,
                                    failed_obligations=["%s %s %s" % (e["kind"], e["owner"], e["where"]) for _, e in failed],
                                    how="python3 check.py --replay <this file> runs the case again against the real code"))
        say("failing input (%s, %s): %s\n  %s" % (bad["search"], f["family"], f["input"][:2000], f["message"][:2000]))
        for n, e in failed:
            say("failed obligation: %s in %s (%s)" % (e["kind"], e["owner"], e["where"]))
        say("VIOLATION property=%s replay=%s" % (pid, rp))
        violations = 1
    elif failed:
        rp = write_replay(pid, dict(property=pid, failed_obligations=[dict(unit=n, kind=e["kind"], function=e["owner"], source=e["where"], verifier_output=e["rendered"]) for n, e in failed],
                                    searched=cases, note="the verifier gives no counterexample and no failing input was found in the cases searched"))
        for n, e in failed:
            say("failed obligation: %s in %s (%s)" % (e["kind"], e["owner"], e["where"]))
        say("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp))
        violations = 1

    fams = {}
    for o in outs:
        for f in o["families"]:
            d = fams.setdefault(o["search"] + ": " + f["family"], dict(cases=0, sample=""))
            d["cases"] += f["cases"]
            d["sample"] = d["sample"] or f.get("sample", "")[:400]
    level = spec["level"]
    if level == "proof" and (undecided or failed or discharged != total):
        level = "other"
    cov = dict(
        obligations=total, discharged=discharged,
        checker_cmd="; ".join(proofs[n]["cmd"] for n, _ in spec["units"] if proofs[n]["cmd"]) or "none",
        trusted_base=spec.get("trusted", []) + sorted(set(a for n, _ in spec["units"] for a in proofs[n]["assumptions"])),
        back_end="Verus 0.2026.09.13 with its Z3",
        solver_s=round(sum(proofs[n]["smt"] for n, _ in spec["units"]), 2),
        functions_under_contract=functions,
        vacuity={n: proofs[n]["vacuity"] for n, _ in spec["units"]},
        rewoven={n: proofs[n]["changed"] for n, _ in spec["units"] if proofs[n]["changed"]},
        undecided=undecided,
        evaluations=cases, distinct_nontrivial=cases,
        rule="bounded stand-in and counterexample search on the real crate; every case is a distinct draw or an enumerated case: " + ", ".join(spec["searches"]),
        samples=[dict(family=k, **v) for k, v in fams.items()],
        explanation=spec["explanation"],
    )
    json.dump(dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=spec["assumptions"], wall_s=round(time.time() - t0, 2), violations=violations),
              open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    for n, _ in spec["units"]:
        r = proofs[n]
        say("unit %s: %s, %d verified, %d errors, %.1f s%s" % (n, r["status"], r["verified"], r["nerr"], r["wall"], "" if r["vacuity"] is None else ", vacuity %d/%d" % (r["vacuity"]["contradicted"], r["vacuity"]["functions"])))
    say("searched %d cases; %s in %.0f s" % (cases, "VIOLATED" if violations else "held", time.time() - t0))
    sys.exit(1 if violations else 0)


def replay(path):
    d = json.load(open(path))
    if "search" not in d:
        for o in d["failed_obligations"]:
            say(o["verifier_output"])
        sys.exit(1)
    exe, err = build_harness()
    if exe is None:
        say(err)
        sys.exit(2)
    extra = ["--only", d["family"], str(d["case"])] if d["case"] >= 0 else []
    r = run_search(exe, d["search"], d["seed"], 60, d["shard"], d["known"], d["tier"], extra)
    say(json.dumps(r["failure"], indent=1))
    sys.exit(1 if r["failure"] else 0)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        os.makedirs(BUILD, exist_ok=True)
        exe, err = build_harness()
        say(exe or err)
        sys.exit(0 if exe else 1)
    if a and a[0] == "--replay":
        replay(a[1])
    check(a[0])
