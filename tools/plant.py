"""Confirm planted bugs in scratch copies of /repo: python3 tools/plant.py [-j N] [--no-tests] [--no-check] ID...

For every seeded/<ID>: the patch applies to HEAD and touches original lines only, the stable tests pass with it,
demo.sh exits 0 without and nonzero with it, and whether the check of its property reports it.
Development tool: no check reads seeded/.
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
BASE = "5bbdd25"
ENV = dict(os.environ, HOME="/root", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
           JAX_PLATFORMS="cpu")


def sh(cmd, cwd, env=None, timeout=1800):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    return p.returncode, p.stdout


def copy(tmp, name):
    d = os.path.join(tmp, name)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns("__pycache__"))
    return d


def original(patch):
    """removed lines that stem from our own commits"""
    bad, f, n = [], None, 0
    for line in open(patch):
        if line.startswith("--- a/"):
            f = line[6:].strip()
            rc, out = sh(f"git blame -s HEAD -- {f}", "/repo")
            blame = out.splitlines()
        elif line.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", line).group(1)) - 1
        elif line.startswith("-") and not line.startswith("---"):
            if not blame[n].lstrip("^").startswith(BASE[:6]):
                bad.append(blame[n])
            n += 1
        elif line.startswith(" "):
            n += 1
    return bad


def junit(repo, tmp):
    x = os.path.join(tmp, "junit.xml")
    rc, out = sh(f"/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p vp_seed --timeout=300 "
                 f"--continue-on-collection-errors -o junit_family=xunit2 --junitxml={x} tests", repo,
                 dict(ENV, PYTHONPATH=f"{repo}:/opt/vp/pytest_plugins", OMP_NUM_THREADS="2"))
    o = os.path.join(tmp, "out.json")
    sh(f"/usr/bin/python3 /opt/vp/results.py {o} junit:{x}", repo)
    res = json.load(open(o))
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    passed = set(res.get("passed") or res.get("pass") or [])
    return [s for s in stable if s not in passed]


def one(bid, tests, check, checks=None):
    d = os.path.join(SEED, bid)
    r = {"id": bid}
    tmp = tempfile.mkdtemp(prefix="plant_")
    try:
        r["own"] = original(os.path.join(d, "patch.diff"))
        base, bug = copy(tmp, "base"), copy(tmp, "bug")
        rc, out = sh(f"git apply {d}/patch.diff", bug)
        if rc:
            r["apply"] = out
            return r
        away = os.path.join(tmp, "demo")
        shutil.copytree(d, away, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        r["demo_base"], o0 = sh(f"bash {away}/demo.sh", base, dict(ENV), 300)
        r["demo_bug"], o1 = sh(f"bash {away}/demo.sh", bug, dict(ENV), 300)
        if r["demo_base"] != 0:
            r["out_base"] = o0[-600:]
        if r["demo_bug"] == 0:
            r["out_bug"] = o1[-600:]
        else:
            r["says"] = o1.strip()[-150:]
        if tests:
            r["tests_failed"] = junit(bug, tmp)
        if check:
            prop = json.load(open(os.path.join(d, "meta.json")))["property"]
            v = os.path.join(tmp, "verif")  # the checks write next to themselves
            shutil.copytree(HERE, v, ignore=shutil.ignore_patterns(".git", "seeded", "__pycache__"))
            for p in checks or [prop]:
                rc, out = sh(f"{v}/run {p}", v, dict(ENV, VERIF_REPO=bug, VERIF_SEED=os.environ.get("VERIF_SEED", "1")), 1800)
                r[p] = rc
                r["line_" + p] = [l[:200] for l in out.splitlines() if "VIOLATION" in l][:3] or out[-300:]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return r


def main():
    a = sys.argv[1:]
    j = 3
    if "-j" in a:
        i = a.index("-j"); j = int(a[i + 1]); del a[i:i + 2]
    tests, check = "--no-tests" not in a, "--no-check" not in a
    ids = [x for x in a if not x.startswith("--")] or sorted(os.listdir(SEED))
    with ThreadPoolExecutor(j) as ex:
        for r in ex.map(lambda b: one(b, tests, check), ids):
            prop = [k for k in r if re.fullmatch(r"C\d\d", k)]
            ok = (not r.get("own") and "apply" not in r and r.get("demo_base") == 0 and r.get("demo_bug") != 0
                  and not r.get("tests_failed"))
            print(r["id"], "VALID" if ok else "BAD", *(f"{p}={'CAUGHT' if r[p] == 1 else 'MISSED' if r[p] == 0 else 'ERROR'}" for p in prop), flush=True)
            if not ok or any(r[p] != 1 for p in prop):
                print("   ", json.dumps(r, indent=1), flush=True)


main()
