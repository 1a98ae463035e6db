"""Cython sources as Python syntax trees (parsed by Cython itself, out of process)."""
import ast
import glob
import hashlib
import json
import os
import subprocess
import tempfile

INTERPRETERS = ("/opt/venv-pypy/bin/python", "python3")
_CACHE = {}


class FrontEndError(Exception):
    pass


def load(path):
    path = os.path.abspath(path)
    if path not in _CACHE:
        _fill(os.path.dirname(os.path.dirname(path)))
    if path not in _CACHE:
        raise FrontEndError("could not parse " + path)
    return _CACHE[path]


def _fill(root):
    files = sorted(glob.glob(os.path.join(root, "**", "*.pyx"), recursive=True))
    h = hashlib.sha256()
    here = os.path.dirname(os.path.abspath(__file__))
    for f in files + [os.path.join(here, "pyx_dump.py")]:
        h.update(f.encode() + b"\0" + open(f, "rb").read())
    cdir = os.path.join(os.path.dirname(here), ".cache")
    cfile = os.path.join(cdir, h.hexdigest() + ".json")
    data = None
    if os.path.exists(cfile):
        try:
            with open(cfile) as fh:
                data = json.load(fh)
        except ValueError:
            data = None
    if data is None:
        err = ""
        for exe in INTERPRETERS:
            if "/" in exe and not os.path.exists(exe):
                continue
            with tempfile.TemporaryDirectory() as d:
                r = subprocess.run([exe, "-B", os.path.join(here, "pyx_dump.py")] + files, cwd=d,
                                   capture_output=True, text=True)
            if r.returncode == 0:
                data = json.loads(r.stdout)
                break
            err += r.stderr[-2000:]
        if data is None:
            raise FrontEndError("Cython front end failed: " + err)
        try:
            os.makedirs(cdir, exist_ok=True)
            tmp = cfile + ".%d" % os.getpid()
            with open(tmp, "w") as fh:
                json.dump(data, fh)
            os.replace(tmp, cfile)
        except OSError:
            pass
    for f, d in data.items():
        _CACHE[os.path.abspath(f)] = build(d)


def build(d):
    if isinstance(d, list):
        return [build(x) for x in d]
    if not isinstance(d, dict):
        return d
    kw = {k: build(v) for k, v in d.items() if k not in ("_", "lineno")}
    cls = getattr(ast, d["_"])
    kw = {k: v for k, v in kw.items() if k in cls._fields}
    n = cls(**kw)
    if "lineno" in d:
        n.lineno = d["lineno"]
        n.col_offset = 0
        n.end_lineno = d["lineno"]
        n.end_col_offset = 0
    return n
