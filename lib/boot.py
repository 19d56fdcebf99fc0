"""
Environment for every check: builds the extension of /repo's working tree in
/verif/.build (never in /repo) and imports hmmlearn from /repo/src with it.
"""
import glob
import hashlib
import importlib.util
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
PY = "/opt/venv/bin/python"


class BuildError(Exception):
    pass


def _includes():
    import pybind11
    import sysconfig
    return [pybind11.get_include(), sysconfig.get_paths()["include"]]


def build_ext(sanitize=False):
    """Compile /repo/ext into /verif/.build/<hash>/ and return the .so path."""
    files = sorted(
        f for f in glob.glob(os.path.join(REPO, "ext", "**"), recursive=True)
        if os.path.isfile(f))
    h = hashlib.sha256(b"san4" if sanitize else b"opt3")
    for f in files:
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    out = os.path.join(VERIF, ".build", h.hexdigest()[:20])
    so = os.path.join(out, "_hmmc.so")
    if not os.path.exists(so):
        os.makedirs(out, exist_ok=True)
        tmp = f"{so}.{os.getpid()}.tmp"
        sources = [f for f in files if f.endswith((".cpp", ".cc", ".c"))]
        flags = (["-O1", "-g", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
                  "-fsanitize=address,undefined", "-fno-sanitize=alignment",
                  "-fno-sanitize-recover=undefined"]
                 if sanitize else ["-O2", "-g0"])
        cmd = ["g++", "-shared", "-fPIC", "-std=c++11", "-fvisibility=hidden",
               "-w", *flags, *(f"-I{i}" for i in _includes()),
               *sources, "-o", tmp]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            raise BuildError(f"extension does not compile:\n{p.stderr[-3000:]}")
        os.replace(tmp, so)
    return so


def load_hmmlearn(sanitize=False):
    so = build_ext(sanitize)
    sys.dont_write_bytecode = True
    sys.path.insert(0, SRC)
    spec = importlib.util.spec_from_file_location("hmmlearn._hmmc", so)
    mod = importlib.util.module_from_spec(spec)
    sys.modules["hmmlearn._hmmc"] = mod
    spec.loader.exec_module(mod)
    import hmmlearn
    hmmlearn._hmmc = mod
    if not os.path.abspath(hmmlearn.__file__).startswith(SRC + os.sep):
        raise BuildError(f"hmmlearn imported from {hmmlearn.__file__}")
    import logging
    import warnings
    import hmmlearn.base
    import hmmlearn.hmm
    import hmmlearn.vhmm
    import hmmlearn.stats
    import hmmlearn.utils
    logging.getLogger("hmmlearn").setLevel(logging.CRITICAL + 1)
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    return hmmlearn


def enable_hypothesis():
    if HYP not in sys.path:
        sys.path.append(HYP)
