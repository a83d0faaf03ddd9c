"""Make and confirm planted bugs.

  plant.py make SPEC.py      write /verif/seeded/<id>/ for every spec in SPEC.py (a list BUGS of
                             dicts id, property, edits=[(file, old, new)], demo, needs, breaks)
  plant.py confirm ID...     demo passes clean, fails patched; stable tests pass patched
  plant.py catch ID...       run the property's check (and extra ones: ID:C01,C02) on the patched copy
"""
import json, os, re, runpy, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
BASE = "c540acd"


def sh(cmd, cwd=None, env=None, timeout=900):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, env={**os.environ, **(env or {})},
                           capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def copy(name):
    d = f"/tmp/seed_{name}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh(f"tar -C /repo --exclude=./.git --exclude=__pycache__ -cf - . | tar -C {d} -xf -")
    return d


def make(spec):
    for b in runpy.run_path(spec)["BUGS"]:
        out = os.path.join(SEEDED, b["id"])
        os.makedirs(out, exist_ok=True)
        d = copy("make")
        sh("git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x", d)
        for f, old, new in b["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        _, diff = sh("git diff", d)
        assert diff.strip(), b["id"]
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        blame_check(b["id"], diff)
        demo = b["demo"]
        open(os.path.join(out, "demo.py"), "w").write(
            "import os, sys\nsys.path.insert(0, os.getcwd())\nimport warnings\n"
            "warnings.simplefilter('ignore')\n" + demo.lstrip("\n"))
        open(os.path.join(out, "demo.sh"), "w").write(
            "#!/bin/bash\n# cwd: the repository\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg "
            "OMP_NUM_THREADS=1\nexec /opt/venv/bin/python \"$(dirname \"$0\")/demo.py\" >/dev/null\n")
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        shutil.rmtree(d)
        print("made", b["id"])


def blame_check(i, diff):
    cur, ln, n = None, 0, 0
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            cur = line[6:]
        elif m := re.match(r"@@ -(\d+)", line):
            ln = int(m[1])
        elif line.startswith("-") and not line.startswith("---"):
            _, o = sh(f"git blame -l -L{ln},{ln} {cur}", "/repo")
            n += 1
            if not o.lstrip("^").startswith(BASE):
                print(f"  !! {i}: {cur}:{ln} is not an original line: {line}")
            ln += 1
        elif not line.startswith(("+", "\\", "diff", "index")):
            ln += 1
    if not n:
        print(f"  !! {i}: no original line changed")


def confirm(i):
    d = os.path.join(SEEDED, i)
    c = copy(f"c_{i}")
    a, oa = sh(f"bash {d}/demo.sh", c, timeout=300)
    r, o = sh(f"git apply --unsafe-paths --directory={c} {d}/patch.diff || patch -p1 -d {c} < {d}/patch.diff", c)
    r, o = sh(f"patch -p1 -R --dry-run -f < {d}/patch.diff", c)
    if r:
        return f"{i}: patch does not apply {o}"
    b, ob = sh(f"bash {d}/demo.sh", c, timeout=300)
    s = open("/opt/vp/test.sh").read().replace("tar -C /repo", f"tar -C {c}")
    t = f"/tmp/seed_test_{i}.sh"
    open(t, "w").write(s)
    _, to = sh(f"bash {t} /tmp/seed_test_{i}.json")
    res = json.load(open(f"/tmp/seed_test_{i}.json"))
    bad = [f for f in res["failed"] if f != "tests.test_cloister.TestCloister::test_run"]
    shutil.rmtree(c, ignore_errors=True)
    os.remove(t)
    os.remove(f"/tmp/seed_test_{i}.json")
    ok = a == 0 and b != 0 and not bad and len(res["passed"]) >= 173
    return f"{i}: {'OK' if ok else 'NOT OK'} clean {a} patched {b} ({ob.strip().splitlines()[-1:]}) failed {bad} passed {len(res['passed'])}" + (
        "" if a == 0 else "\n" + oa[-800:])


def catch(arg):
    i, _, extra = arg.partition(":")
    d = os.path.join(SEEDED, i)
    prop = json.load(open(f"{d}/meta.json"))["property"]
    c = copy(f"k_{i}")
    sh(f"patch -p1 -d {c} < {d}/patch.diff")
    out = []
    for p in [prop, *filter(None, extra.split(","))]:
        seed = os.environ.get("VERIF_SEED", "1")
        env = {"PBT_REPO": c, "VERIF_SEED": seed, "PBT_OUT": f"/tmp/seed_out_{i}"}
        r, o = sh(f"python3 check.py {p}", HERE, env)
        v = [x for x in o.splitlines() if x.startswith("VIOLATION")]
        msg = [x for x in o.splitlines() if x.startswith(f"[{p}/") and "case:" not in x]
        out.append(f"{p}:{'CAUGHT' if r == 1 and v else f'missed({r})'} {msg[:2]}")
    shutil.rmtree(c, ignore_errors=True)
    return f"{i}: " + " | ".join(out)


cmd, args = sys.argv[1], sys.argv[2:]
if cmd == "make":
    make(args[0])
else:
    if args == ["all"]:
        args = sorted(os.listdir(SEEDED))
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
        for r in ex.map(confirm if cmd == "confirm" else catch, args):
            print(r, flush=True)
