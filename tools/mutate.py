"""Mutation campaign: small syntactic changes to /repo, run against the checks that cover them.

  mutate.py list FILE                    number of mutants
  mutate.py run OUT.jsonl FILE[:N] ...   up to N (default all) mutants of each file; a mutant is
                                         killed by the first check that reports a violation
  mutate.py show OUT.jsonl               survivors

Works on copies (of /repo and /verif) under /tmp/mut.  JOBS, SEED, SCALE (PBT_SCALE) from the
environment; a survivor is a mutant all listed checks are quiet on, to be judged by hand.
"""
import ast, json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = "/tmp/mut"
PKG = "instancespace/"
CHECKS = {
    "stage_builder.py": ["C01", "C23"],
    "stage_runner.py": ["C02", "C01", "C23"],
    "stages/stage.py": ["C01", "C23"],
    "instance_space.py": ["C22", "C02", "C23", "C21"],
    "data/options.py": ["C03", "C21", "C13"],
    "data/default_options.py": ["C03"],
    "data/metadata.py": ["C04", "C22"],
    "stages/preprocessing.py": ["C05", "C21"],
    "stages/prelim.py": ["C06", "C07", "C08", "C21"],
    "utils/filter.py": ["C09", "C08"],
    "stages/sifted.py": ["C10", "C21"],
    "stages/pilot.py": ["C11", "C21"],
    "stages/cloister.py": ["C12", "C21"],
    "stages/pythia.py": ["C13", "C21"],
    "stages/trace.py": ["C16", "C14", "C21"],
    "data/model.py": ["C15", "C13", "C14", "C21"],
    "model.py": ["C19", "C17", "C21"],
    "_serialisers.py": ["C17", "C18", "C20", "C19"],
}
CMP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="],
       ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"],
       ast.NotIn: ["in"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.BitAnd: "|",
       ast.BitOr: "&", ast.Pow: "*", ast.MatMult: None, ast.FloorDiv: "/", ast.Mod: "+"}
NAMES = {"min": "max", "max": "min", "nanmin": "nanmax", "nanmax": "nanmin", "any": "all",
         "all": "any", "argmin": "argmax", "argmax": "argmin", "nanargmin": "nanargmax",
         "mean": "median", "nanmean": "nanmedian", "median": "mean", "nanmedian": "nanmean",
         "x": "x_raw", "x_raw": "x", "y": "y_raw", "y_raw": "y", "append": "insert0",
         "minimum": "maximum", "maximum": "minimum", "zeros": "ones", "ones": "zeros",
         "isnan": "isfinite", "intersection": "union", "union": "difference",
         "y_hat": "y_sub", "y_bin": "y_hat", "floor": "ceil", "ceil": "floor",
         "good": "best", "best": "good", "x_label": "x_label", "vstack": "hstack",
         "selection0": "selection1", "selection1": "selection0", "nansum": "nanmax",
         "std": "var", "nanstd": "nanvar", "sum": "max", "p": "p", "contains": "covers"}


def mutants(path):
    src = open(path).read()
    lines = src.splitlines(keepends=True)
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()))
    raw = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    out = []

    def put(node, new, what):
        a, b = span(node)
        old = raw[a:b].decode()
        if new == old:
            return
        out.append({"line": node.lineno, "what": what, "old": old[:160], "new": new[:160],
                    "a": a, "b": b, "text": new})

    def visit(n, infn):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for c in n.body:
                visit(c, True)
            return
        if isinstance(n, ast.ClassDef):
            for c in n.body:
                visit(c, infn)
            return
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom, ast.JoinedStr)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            t = ast.unparse(n.value.func)
            if t.startswith(("logger", "logging", "print", "warnings")):
                return
            put(n, "pass", "drop call")
        if isinstance(n, ast.Call) and ast.unparse(n.func).startswith(("logger", "print")):
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                visit(n.value, infn)
            return
        if isinstance(n, ast.AugAssign) and infn:
            put(n, "pass", "drop augassign")
        if isinstance(n, ast.Assign) and infn and isinstance(n.targets[0], ast.Subscript):
            put(n, "pass", "drop subscript assign")
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            put(n.test, f"(not ({ast.unparse(n.test)}))", "negate condition")
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for op in CMP.get(type(n.ops[0]), []):
                put(n, f"({ast.unparse(n.left)} {op} {ast.unparse(n.comparators[0])})", "compare")
        if isinstance(n, ast.BinOp) and BIN.get(type(n.op)):
            put(n, f"({ast.unparse(n.left)} {BIN[type(n.op)]} {ast.unparse(n.right)})", "arith")
        if isinstance(n, ast.BoolOp):
            j = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(" + j.join(f"({ast.unparse(v)})" for v in n.values) + ")", "and/or")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.Invert, ast.USub)):
            put(n, f"({ast.unparse(n.operand)})", "drop unary")
        if isinstance(n, ast.Constant) and infn:
            v = n.value
            if isinstance(v, bool):
                put(n, str(not v), "bool")
            elif isinstance(v, int):
                put(n, str(v + 1), "int+1")
                if v == 1:
                    put(n, "0", "int 0")
            elif isinstance(v, float):
                put(n, repr(v * 1.5 + 0.1 * (v == 0)), "float")
            elif isinstance(v, str) and v:
                put(n, repr(v + "_"), "string")
        if isinstance(n, ast.Call):
            fn = ast.unparse(n.func)
            if fn.split(".")[-1] in ("copy", "deepcopy") and len(n.args) == 1:
                put(n, ast.unparse(n.args[0]), "drop copy")
            elif isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
                put(n, ast.unparse(n.func.value), "drop copy")
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                m = ast.parse(ast.unparse(n), mode="eval").body
                m.args[0], m.args[1] = m.args[1], m.args[0]
                put(n, ast.unparse(m), "swap args")
            if len(n.keywords) >= 1:
                for k in range(len(n.keywords)):
                    m = ast.parse(ast.unparse(n), mode="eval").body
                    del m.keywords[k]
                    put(n, ast.unparse(m), f"drop keyword {n.keywords[k].arg}")
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            if NAMES.get(n.attr, n.attr) != n.attr:
                put(n, f"{ast.unparse(n.value)}.{NAMES[n.attr]}", "name")
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            if NAMES.get(n.id, n.id) != n.id:
                put(n, NAMES[n.id], "name")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and infn:
            if n.slice.lower is not None and n.slice.upper is None or (
                    n.slice.lower is None and n.slice.upper is not None):
                put(n, ast.unparse(n.value), "drop slice")
        if isinstance(n, ast.Continue):
            put(n, "break", "continue->break")
        if isinstance(n, ast.Break):
            put(n, "continue", "break->continue")
        for c in ast.iter_child_nodes(n):
            visit(c, infn)

    for st in ast.parse(src).body:
        visit(st, False)
    seen, res = set(), []
    for m in out:
        new = (raw[:m["a"]] + m["text"].encode() + raw[m["b"]:]).decode()
        if new in seen:
            continue
        seen.add(new)
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        del m["a"], m["b"], m["text"]
        res.append((m, new))
    return res


def slot(i):
    d = f"{ROOT}/w{i}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/repo")
    os.makedirs(d + "/verif")
    for s, t, ex in (("/repo", "repo", "--exclude=./.git"),
                     (HERE, "verif", "--exclude=./.git --exclude=./seeded --exclude=./replays")):
        subprocess.run(f"tar -C {s} {ex} --exclude=__pycache__ -cf - . | tar -C {d}/{t} -xf -",
                       shell=True, check=True)
    return d


def judge(d, f, new, checks):
    p = f"{d}/repo/{PKG}{f}"
    orig = open(f"/repo/{PKG}{f}").read()
    open(p, "w").write(new)
    try:
        for c in checks:
            env = {**os.environ, "PBT_REPO": d + "/repo", "PBT_WORKERS": "1", "PBT_FAST": "1",
                   "PBT_SCALE": os.environ.get("SCALE", "0.3")}
            try:
                r = subprocess.run(["python3", "check.py", c], cwd=d + "/verif", env=env,
                                   capture_output=True, text=True, timeout=1500)
            except subprocess.TimeoutExpired:
                return "timeout " + c, ""
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                return c, r.stdout.splitlines()[0][:160]
            if r.returncode != 0:
                return "error " + c, (r.stderr or r.stdout)[-300:]
        return "", ""
    finally:
        open(p, "w").write(orig)


def main():
    cmd, *rest = sys.argv[1:]
    if cmd == "list":
        for f in rest or CHECKS:
            print(f, len(mutants(f"/repo/{PKG}{f}")))
        return
    if cmd == "show":
        n = 0
        for ln in open(rest[0]):
            r = json.loads(ln)
            n += 1
            if not r["killed"] or r["killed"].startswith(("error", "timeout")):
                print(f"{r['file']}:{r['line']} [{r['what']}] {r['old']!r} -> {r['new']!r}",
                      r["killed"], r["msg"][-200:])
        print(n, "mutants")
        return
    out, *files = rest
    done = set()
    if os.path.exists(out):
        done = {(r["file"], r["line"], r["what"], r["old"], r["new"])
                for r in map(json.loads, open(out))}
    rnd = random.Random(int(os.environ.get("SEED", "1")))
    todo = []
    for spec in files:
        f, _, n = spec.partition(":")
        ms = mutants(f"/repo/{PKG}{f}")
        rnd.shuffle(ms)
        todo += [(f, m, new) for m, new in (ms[:int(n)] if n else ms)]
    rnd.shuffle(todo)
    jobs = int(os.environ.get("JOBS", "8"))
    q = Queue()
    for i in range(jobs):
        q.put(slot(i))
    fh = open(out, "a")

    def one(t):
        f, m, new = t
        if (f, m["line"], m["what"], m["old"], m["new"]) in done:
            return
        d = q.get()
        try:
            k, msg = judge(d, f, new, CHECKS[f])
            fh.write(json.dumps({"file": f, **m, "killed": k, "msg": msg}) + "\n")
            fh.flush()
        finally:
            q.put(d)

    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, todo))
    shutil.rmtree(ROOT, ignore_errors=True)


main()
