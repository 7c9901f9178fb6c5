"""Build a private copy of /repo's working tree (Python package and C++ extension)."""
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
CACHE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), ".cache")


def _src_files():
    out = []
    for root in ("coniii", "cpp"):
        for d, dirs, files in os.walk(os.path.join(REPO, root)):
            dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "build", ".git"))
            for f in sorted(files):
                if f.endswith((".pyc", ".so", ".nbi", ".nbc")):
                    continue
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    out += [f for f in ("setup.py", "README.md", "LICENSE.txt", "MANIFEST.in") if os.path.exists(os.path.join(REPO, f))]
    return out


def cpp_hash():
    h = hashlib.sha256()
    for f in _src_files():
        if f.startswith("cpp/") or f in ("setup.py",):
            h.update(f.encode())
            with open(os.path.join(REPO, f), "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:24]


def build(scratch):
    """Copy the sources to `scratch`/tree, compile the extension there; return the tree path."""
    tree = os.path.join(scratch, "tree")
    for f in _src_files():
        dst = os.path.join(tree, f)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        shutil.copyfile(os.path.join(REPO, f), dst)
    so = "samplers_ext.cpython-312-x86_64-linux-gnu.so"
    key = cpp_hash()
    cached = os.path.join(CACHE, key, so)
    target = os.path.join(tree, "coniii", so)
    if not os.path.exists(cached):
        env = dict(os.environ, CONDA_PREFIX="/usr", PYTHONDONTWRITEBYTECODE="1", PIP_NO_INDEX="1")
        r = subprocess.run([PY, "setup.py", "-q", "build_ext", "--inplace", "--force"], cwd=tree, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not os.path.exists(target):
            sys.stderr.write(r.stdout)
            raise SystemExit("the C++ extension did not build")
        try:
            os.makedirs(os.path.dirname(cached), exist_ok=True)
            fd, tmp = tempfile.mkstemp(dir=os.path.dirname(cached))
            os.close(fd)
            shutil.copyfile(target, tmp)
            os.replace(tmp, cached)
        except OSError:
            pass
    else:
        shutil.copyfile(cached, target)
    return tree
