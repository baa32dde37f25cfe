"""Mutation run: which small changes to a source file do its checks miss?

usage: mutate.py OUT.jsonl [--n N] [--seed S] FILE CHECK[,CHECK...] [FILE CHECKS ...]
Works on scratch copies under /tmp/w/m; a mutant that survives its checks is run through the stable tests as well."""
import ast
import json
import os
import random
import re
import subprocess
import sys
import shutil

STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
SWAP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"],
        ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
OPS = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*", ast.Div: "*", ast.Mod: "//", ast.Pow: "*"}
CALLS = {"min": "max", "max": "min", "sorted": "list", "any": "all", "all": "any", "deepcopy": "", "append": None}


def candidates(text):
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    start = [0]
    for ln in lines:
        start.append(start[-1] + len(ln.encode()))
    raw = text.encode()

    def span(n):
        return start[n.lineno - 1] + n.col_offset, start[n.end_lineno - 1] + n.end_col_offset

    def src(n):
        a, b = span(n)
        return raw[a:b].decode()

    out = []

    def boring(n):
        s = ast.unparse(n)
        return "logger." in s or s.startswith(("raise ", "assert ", "import ", "from ")) or "tqdm" in s

    def add(n, new, what):
        a, b = span(n)
        out.append((n.lineno, a, b, new, what))

    def visit(n, infn):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if n.name in ("__str__", "__repr__"):
                return
            for i, s in enumerate(n.body):
                if i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                    continue
                visit(s, True)
            return
        if isinstance(n, ast.stmt) and infn:
            if boring(n) and not isinstance(n, (ast.If, ast.For, ast.While, ast.With, ast.Try, ast.AsyncWith, ast.AsyncFor)):
                return
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)) and not (
                    isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant, ast.Yield, ast.YieldFrom))):
                add(n, "pass", "delete statement")
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                pass
            elif isinstance(n, (ast.Continue, ast.Break)):
                add(n, "pass", "delete jump")
            elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
                add(n, "return None", "return None")
        if isinstance(n, (ast.If, ast.While)) and infn:
            if isinstance(n, ast.If):
                add(n.test, "True", "condition True")
            add(n.test, "False", "condition False")
        if isinstance(n, ast.IfExp) and infn:
            add(n.test, "True", "condition True")
            add(n.test, "False", "condition False")
        if isinstance(n, ast.Compare) and infn and len(n.ops) == 1 and type(n.ops[0]) in SWAP:
            for o in SWAP[type(n.ops[0])]:
                add(n, f"({src(n.left)} {o} {src(n.comparators[0])})", "comparison")
        if isinstance(n, ast.BinOp) and infn and type(n.op) in OPS and not isinstance(n.left, (ast.JoinedStr,)) and not (
                isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            add(n, f"({src(n.left)} {OPS[type(n.op)]} {src(n.right)})", "operator")
        if isinstance(n, ast.BoolOp) and infn:
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + o.join("(" + src(v) + ")" for v in n.values) + ")", "and/or")
            for v in n.values:
                add(n, "(" + src(v) + ")", "one operand")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not) and infn:
            add(n, f"({src(n.operand)})", "drop not")
        if isinstance(n, ast.Constant) and infn:
            if isinstance(n.value, bool):
                add(n, str(not n.value), "flag")
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "constant+1")
        if isinstance(n, ast.Call) and infn and isinstance(n.func, ast.Name) and CALLS.get(n.func.id) is not None:
            add(n.func, CALLS[n.func.id], "call")
        for f, v in ast.iter_fields(n):
            if f in ("annotation", "returns", "decorator_list"):
                continue
            for c in v if isinstance(v, list) else [v]:
                if isinstance(c, ast.AST):
                    if isinstance(c, ast.stmt) or not (isinstance(c, ast.expr) and isinstance(n, ast.stmt) and boring(n) and infn
                                                       and not isinstance(n, (ast.If, ast.For, ast.While, ast.With, ast.Try,
                                                                              ast.AsyncWith))):
                        visit(c, infn)

    visit(tree, False)
    good = []
    for ln, a, b, new, what in out:
        t = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
            if ast.dump(ast.parse(t)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        good.append((ln, what, t))
    return good


def sh(cmd, cwd=None, env=None, timeout=1000):
    e = {k: v for k, v in os.environ.items() if k not in ("PYTEST_CURRENT_TEST", "PYTHONPATH")}
    e.update(env or {})
    try:
        r = subprocess.run(["setsid", "-w", "bash", "-c", cmd], cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        return 99, "timeout"
    return r.returncode, r.stdout


def main():
    args = sys.argv[1:]
    out = args.pop(0)
    n, seed, verif = 10, 0, "/verif"
    while args[0].startswith("--"):
        k = args.pop(0)
        if k == "--n":
            n = int(args.pop(0))
        elif k == "--verif":
            verif = args.pop(0)
        else:
            seed = int(args.pop(0))
    todo = []
    for f, checks in zip(args[::2], args[1::2]):
        text = open(f"/repo/mixtera/{f}").read()
        c = candidates(text)
        random.Random(f"{seed}/{f}").shuffle(c)
        print(f, len(c), "candidates")
        todo += [(f, checks.split(","), x) for x in c[:n]]
    done = set()
    if os.path.exists(out):
        done = {tuple(json.loads(l)["id"]) for l in open(out)}
    work = f"/tmp/w/m/{os.path.basename(out)}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(os.path.dirname(work), exist_ok=True)
    sh(f"cp -a /repo {work} && cd {work} && git checkout -q -- .")
    for f, checks, (line, what, t) in todo:
        path = f"{work}/mixtera/{f}"
        orig = open(path).read()
        import hashlib
        ident = (f, line, what, hashlib.md5(t.encode()).hexdigest()[:8])
        if ident in done:
            continue
        open(path, "w").write(t)
        _, diff = sh("git diff -U0 | tail -n +5", work)
        res = None
        for c in checks:
            rc, o = sh(f"bash {verif}/run.sh {c} --no-evidence", env={"VF_REPO": work, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
            if rc == 1:
                res = f"killed by {c}"
                break
            if rc != 0:
                res = f"NO ANSWER {c} {rc}: " + o.strip()[-300:]
                break
        if res is None or res.startswith("NO"):
            rc, o = sh("bash /tmp/w/fulltest.sh . 25", work)
            failed = re.findall(r"^(?:FAILED|ERROR) (\S+)", o, re.M)
            names = [x.replace("/", ".").replace(".py::", ".").replace("::", ".") for x in failed]
            bad = [x for x in names if any(x.split(".")[-1] in s and x.split(".")[-2] in s for s in STABLE)]
            last = o.strip().splitlines()[-1] if o.strip() else "?"
            tests = "tests kill" if bad or "passed" not in last else "TESTS PASS"
            res = f"{tests}: {res or 'SURVIVED'}"
        open(path, "w").write(orig)
        with open(out, "a") as fp:
            fp.write(json.dumps({"id": ident, "res": res, "diff": diff}) + "\n")
    shutil.rmtree(work, ignore_errors=True)


main()
