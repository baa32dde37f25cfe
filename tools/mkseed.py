"""Builds /verif/seeded/<id>/ from a spec file and confirms it in scratch copies of /repo.

usage: mkseed.py SPEC.py [--no-tests] [--no-check]
SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (source of demo.py), and maybe EXTRA = [(path, name beside demo.py)]."""
import json
import os
import runpy
import shutil
import subprocess
import sys

LIB = "/verif/tools/seedlib"
BASE = "f86c661"


def sh(cmd, cwd=None, env=None, timeout=1500):
    e = {k: v for k, v in os.environ.items() if k not in ("PYTEST_CURRENT_TEST", "PYTHONPATH")}
    e.update(env or {})
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout


def main():
    spec = runpy.run_path(sys.argv[1])
    ident, prop = spec["ID"], spec["PROPERTY"]
    work = f"/tmp/w/s/{ident}"
    clean, bad, here = f"{work}/clean", f"{work}/bad", f"{work}/demo"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(here)
    for d in (clean, bad):
        sh(f"cp -a /repo {d}")
        sh("git checkout -q -- .", d)
    for name, old, new in spec["EDITS"]:
        path = f"{bad}/{name}"
        text = open(path).read()
        if text.count(old) != 1:
            sys.exit(f"{ident}: {name}: {text.count(old)} occurrences of {old!r}")
        open(path, "w").write(text.replace(old, new))
    _, diff = sh("git diff", bad)
    # every removed line has to be an original one
    fixes = []
    _, blame0 = sh(f"git log --format=%h {BASE}..HEAD", clean)
    for name, *_ in spec["EDITS"]:
        _, d0 = sh(f"git diff -U0 -- {name}", bad)
        _, bl = sh(f"git blame -s --abbrev=7 {name}", clean)
        lines = bl.splitlines()
        import re
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d0, re.M):
            a, n = int(m[1]), int(m[2] or 1)
            own = [lines[i - 1] for i in range(a, a + n) if not lines[i - 1].startswith("^" + BASE[:7]) and lines[i - 1][:7] in blame0]
            if own:
                fixes += own
            if n == 0:
                fixes.append(f"(pure insertion at {name}:{a})")
    if fixes:
        print(ident, "WARNING own lines:\n  " + "\n  ".join(fixes))
    open(f"{here}/demo.py", "w").write(spec["DEMO"])
    for f in ("standin.py", "demo.sh"):
        shutil.copy(f"{LIB}/{f}", here)
    for src, name in spec.get("EXTRA", []):
        (shutil.copytree if os.path.isdir(src) else shutil.copy)(src, f"{here}/{name}")
    rc0, out0 = sh(f"bash {here}/demo.sh", clean)
    rc1, out1 = sh(f"bash {here}/demo.sh", bad)
    print(ident, "demo clean", rc0, "patched", rc1, "|", out1.strip().splitlines()[-1:] )
    if rc0 != 0 or rc1 == 0:
        print(out0[-3000:], "----", out1[-3000:])
        sys.exit(1)
    if "--no-tests" not in sys.argv:
        rc, out = sh(f"bash /tmp/w/fulltest.sh {bad} 25")
        last = out.strip().splitlines()[-1]
        print(ident, "tests", last)
        import re
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        failed = re.findall(r"^(?:FAILED|ERROR) (\S+)", out, re.M)
        names = {f: f.replace("/", ".").replace(".py::", ".").replace("::", ".") for f in failed}
        print(ident, "failed:", failed, "stable among them:", [f for f, n in names.items() if any(n.split(".")[-1] in s and n.split(".")[-2] in s for s in stable)])
        if "passed" not in last or any(n.split(".")[-1] in s and n.split(".")[-2] in s for n in names.values() for s in stable):
            print(out)
            sys.exit(1)
    dest = f"/verif/seeded/{ident}"
    shutil.rmtree(dest, ignore_errors=True)
    shutil.copytree(here, dest, ignore=shutil.ignore_patterns("__pycache__"))
    open(f"{dest}/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(f"{dest}/meta.json", "w"), indent=1)
    shutil.copy(sys.argv[1], f"/tmp/w/seeds/{ident}.py") if os.path.abspath(sys.argv[1]) != f"/tmp/w/seeds/{ident}.py" else None
    if "--no-check" not in sys.argv:
        rc, out = sh(f"bash /verif/run.sh {prop} --no-evidence", env={"VF_REPO": bad, "VERIF_SEED": "1", "VERIF_TIER": "quick"}, timeout=1000)
        print(ident, "check", prop, "rc", rc, "CAUGHT" if rc == 1 else "MISSED", "|", [l for l in out.splitlines() if "VIOLATION" in l or "rror" in l][:3])
    shutil.rmtree(work, ignore_errors=True)


main()
