"""Make and confirm a planted bug:  seed(id, prop, [(file, old, new)...], demo, needs, what)

The demonstration runs in /repo under the project's interpreter; its folder carries the stand-in packages it needs."""
import json
import os
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = '''"""stand-ins for the third-party packages that are not installed here"""
import importlib
import os
import sys
import types
import warnings

warnings.simplefilter("ignore")
sys.path.insert(0, os.getcwd())
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
try:
    import iris  # noqa
except ImportError:
    import miniris
    sys.modules.update(miniris.modules())


class Stub(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        v = type(n, (), {})
        setattr(self, n, v)
        return v


for n in ("cartopy", "cartopy.crs", "pandas", "clize", "clize.parameters", "stratify", "pysteps", "timezonefinder", "pytz",
          "statsmodels", "statsmodels.api", "sigtools", "sigtools.wrappers", "treelite_runtime", "lightgbm"):
    try:
        importlib.import_module(n)
    except Exception:
        m = Stub(n)
        m.__path__ = []
        sys.modules[n] = m
        if "." in n:
            setattr(sys.modules[n.rsplit(".", 1)[0]], n.rsplit(".", 1)[1], m)
'''
SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1
here=$(cd "$(dirname "$0")" && pwd)
exec /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def seed(id, prop, edits, demo, needs, what, tests=None):
    d = os.path.join(HERE, "seeded", id)
    w = tempfile.mkdtemp(prefix="seed")
    try:
        repo = os.path.join(w, "repo")
        sh(["git", "clone", "-q", "/repo", repo], w)
        for f, old, new in edits:
            p = os.path.join(repo, f)
            s = open(p).read()
            assert s.count(old) == 1, "%s: %d matches in %s" % (id, s.count(old), f)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=repo, stdout=subprocess.PIPE, text=True).stdout
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write("import demo_env  # noqa\n" + demo.lstrip("\n"))
        open(os.path.join(d, "demo_env.py"), "w").write(ENV)
        shutil.copy(os.path.join(HERE, "stubs", "miniris.py"), d)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        a = sh([os.path.join(d, "demo.sh")], "/repo")
        b = sh([os.path.join(d, "demo.sh")], repo)
        ok = a.returncode == 0 and b.returncode != 0
        print(id, "OK" if ok else "BAD", a.returncode, b.returncode)
        if a.returncode:
            print("  unchanged:", a.stdout[-1500:])
        print("  patched:", b.stdout.strip().splitlines()[-1:] if b.stdout else "")
        if tests:
            t = sh(["bash", "-c", "cd %s && PYTHONDONTWRITEBYTECODE=1 VERIF_REPO=%s timeout 800 %s %s %s | tail -4" % (
                repo, repo, PY, os.path.join(HERE, "tools", "upstream.py"), tests)], repo)
            print("  tests:", t.stdout.strip()[-600:])
        shutil.rmtree(os.path.join(d, "__pycache__"), ignore_errors=True)
        return ok
    finally:
        shutil.rmtree(w)
