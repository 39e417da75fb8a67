"""run.py PROPERTY [--tier quick|thorough] [--sub NAME]      search
   run.py --replay FILE                                      re-run one saved case, no Hypothesis
"""
import argparse
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from pbt import env  # noqa: E402

MARK = "@@REPORT "
PY = "/opt/venv/bin/python"
HARD_S = {"quick": 780, "thorough": 6 * 3600}
SOFT_S = {"quick": 420, "thorough": 5 * 3600}


def child(prop, names, seed, tier, soft):
    from pbt import core

    subs = core.load(prop)
    per = soft / max(1, len(names))
    for n in names:
        print(MARK + json.dumps(core.run_sub(subs[n], seed, tier, per)), flush=True)
    return 0


def list_groups(prop):
    from pbt import core

    groups = {}
    for s in core.load(prop).values():
        groups.setdefault(s.group, []).append(s.name)
    return groups


def replay(path):
    from pbt import core

    data = json.load(open(path))
    s = core.load(data["property"])[data["sub"]]
    v = core.run_case(s, data["case"])
    if v is None:
        print(f"replay of {path}: the property holds on this case")
        return 0
    print(f"VIOLATION property={data['property']} replay={path}\n{v}")
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--sub", action="append")
    ap.add_argument("--replay")
    ap.add_argument("--child", action="store_true")
    ap.add_argument("--groups", action="store_true")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 4))
    a = ap.parse_args()
    tier = a.tier if a.tier in HARD_S else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a.child:
        return child(a.prop, a.sub, seed, tier, SOFT_S[tier])
    if a.groups:
        print(MARK + json.dumps(list_groups(a.prop)))
        return 0
    if a.replay and os.environ.get("VERIF_INNER") == "1":
        return replay(os.path.abspath(a.replay))

    scratch = tempfile.mkdtemp(prefix="verif-run-")
    e = env.child_env()
    e["VERIF_SEED"], e["VERIF_TIER"] = str(seed), tier
    e["TMPDIR"] = scratch
    e["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    e["VERIF_INNER"] = "1"
    try:
        if a.replay:
            return subprocess.call([PY, os.path.join(HERE, "run.py"), "--replay", os.path.abspath(a.replay)],
                                   env=e, cwd=scratch)
        return parent(a, e, scratch, seed, tier)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def parent(a, e, scratch, seed, tier):
    t0 = time.time()
    prop = a.prop
    base = [PY, os.path.join(HERE, "run.py"), prop, "--tier", tier]
    out = subprocess.run(base + ["--groups"], env=e, cwd=scratch, capture_output=True, text=True)
    recs = [l for l in out.stdout.splitlines() if l.startswith(MARK)]
    if out.returncode or not recs:
        sys.stderr.write(out.stdout + out.stderr)
        print(f"ERROR property={prop}: the harness could not start")
        return 3
    groups = json.loads(recs[-1][len(MARK):])
    if a.sub:
        groups = {g: [n for n in ns if n in a.sub] for g, ns in groups.items()}
        groups = {g: ns for g, ns in groups.items() if ns}
    pending = list(groups.items())
    running, reports, errors, cut, crashes = [], [], [], [], {}
    while pending or running:
        while pending and len(running) < a.jobs:
            g, names = pending.pop(0)
            so = open(os.path.join(scratch, f"{g}.out"), "w+")
            se = open(os.path.join(scratch, f"{g}.err"), "w+")
            cmd = base + ["--child"] + [x for n in names for x in ("--sub", n)]
            ec = dict(e)
            if crashes.get(g):  # another memory layout, then other cases (see crashed below)
                ec["PYTHONMALLOC"] = "malloc"
                ec["VERIF_SEED"] = str(seed + 1000003 * (crashes[g] - 1))
            running.append((g, subprocess.Popen(cmd, env=ec, cwd=scratch, stdout=so, stderr=se,
                                                start_new_session=True), so, se))
        time.sleep(0.05)
        for item in list(running):
            g, p, so, se = item
            rc = p.poll()
            late = time.time() - t0 > HARD_S[tier]
            if rc is None and not late:
                continue
            if rc is None:
                import signal

                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                cut.append(g)
            running.remove(item)
            so.seek(0), se.seek(0)
            text, err = so.read(), se.read()
            so.close(), se.close()
            got = [json.loads(l[len(MARK):]) for l in text.splitlines() if l.startswith(MARK)]
            reports.extend(got)
            # A signal: SciPy's SuperLU (spsolve) reads past its buffers on some singular systems, and now and then
            # that kills the interpreter.  The subs without a report run again; a crash that stays is an error.
            todo = [n for n in groups[g] if n not in [r["sub"] for r in got]]
            if rc is not None and rc < 0 and todo and crashes.get(g, 0) < 3:
                crashes[g] = crashes.get(g, 0) + 1
                groups[g] = todo
                pending.append((g, todo))
                print(f"note: group {g} ended with signal {-rc}, running {', '.join(todo)} again")
            elif rc not in (0, None):
                errors.append((g, rc, err[-4000:]))
    # ---- violations
    n_viol = 0
    rdir = os.path.join(VERIF, "replays")
    for r in reports:
        if r["fail"] is None:
            continue
        n_viol += 1
        os.makedirs(rdir, exist_ok=True)
        body = json.dumps(dict(property=prop, sub=r["sub"], case=r["fail"], message=r["msg"]), indent=1)
        h = hashlib.sha1(json.dumps(r["fail"], sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(rdir, f"{prop}-{r['sub']}-{h}.json")
        with open(path, "w") as f:
            f.write(body)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  [{r['sub']}] {r['msg'][:1500]}")
        print(f"  case: {json.dumps(r['fail'])[:1500]}")
    known = {}
    for r in reports:
        known.update(r["known"])
    for k, what in sorted(known.items()):
        print(f"KNOWN-FINDING: property={prop} {what}")
    # ---- evidence
    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=sum(r["evaluations"] for r in reports),
            distinct_nontrivial=sum(r["distinct_nontrivial"] for r in reports),
            rule="; ".join(f"{r['sub']}: {r['rule']}" for r in sorted(reports, key=lambda r: r["sub"])),
            samples=[dict(sub=r["sub"], case=c) for r in sorted(reports, key=lambda r: r["sub"]) for c in r["samples"][:1]],
            per_sub={r["sub"]: dict(evaluations=r["evaluations"], distinct_nontrivial=r["distinct_nontrivial"],
                                    classes=r["classes"], not_run_for_time=r["truncated"], wall_s=r["wall_s"])
                     for r in sorted(reports, key=lambda r: r["sub"])},
            cut_for_time=cut,
        ),
        assumptions=["float64 arithmetic with the tolerances stated in DESIGN.md",
                     "the reference models in /verif/pbt are themselves right"],
        wall_s=round(time.time() - t0, 2),
        violations=n_viol,
    )
    if not a.sub:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", f".{prop}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", f"{prop}.json"))
    for r in sorted(reports, key=lambda r: r["sub"]):
        print(f"{prop}/{r['sub']}: {r['evaluations']} cases, {r['distinct_nontrivial']} non-trivial distinct,"
              f" {r['wall_s']} s" + (f", {r['truncated']} skipped for time" if r["truncated"] else ""))
    for g, rc, err in errors:
        sys.stderr.write(f"--- {prop} group {g} ended with {rc}\n{err}\n")
    if n_viol:
        return 1
    if errors:
        print(f"ERROR property={prop}: harness error in {', '.join(g for g, _, _ in errors)}")
        return 3
    done = {r["sub"] for r in reports}
    if cut:
        print(f"note: {', '.join(cut)} stopped at the time limit; what ran held")
    elif any(n not in done for ns in groups.values() for n in ns):
        print(f"ERROR property={prop}: a sub-property produced no report")
        return 3
    print(f"OK property={prop} {time.time() - t0:.1f} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
