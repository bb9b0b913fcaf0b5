"""
Builds the native extensions from /repo's *current* sources, outside /repo, and
installs them under the names the package imports. Builds are cached by a digest
of source and flags under /verif/.cache (not in git).
"""
import glob
import hashlib
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
from concurrent.futures import ThreadPoolExecutor

import numpy

from . import core

EXTS = {
    "Utilities._akima": "Utilities/akima.c",
    "Utilities._maputils": "Utilities/maputils.f90",
    "PressureInterface._pressureProfile": "PressureInterface/pressureProfile.f90",
    "wind._windmodels": "wind/windmodels.f90",
}
SUFFIX = sysconfig.get_config_var("EXT_SUFFIX")
F2PY = os.path.join(os.path.dirname(numpy.__file__), "f2py", "src")
INC = ["-I" + sysconfig.get_path("include"), "-I" + numpy.get_include(),
       "-I" + os.path.join(numpy.get_include(), "numpy"), "-I" + F2PY]
CACHE = os.path.join(core.VERIF, ".cache", "ext")

PLAIN = ["-O2", "-g", "-fPIC"]
SAN = ["-O1", "-g", "-fPIC", "-fno-omit-frame-pointer",
       "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


class BuildError(Exception):
    pass


def _build(name, san):
    src = os.path.join(core.REPO, EXTS[name])
    flags = SAN if san else PLAIN
    with open(src, "rb") as f:
        text = f.read()
    dig = hashlib.sha256(text + repr((flags, name, sys.version, numpy.__version__)).encode()).hexdigest()[:24]
    out = os.path.join(CACHE, dig, name.rsplit(".", 1)[1] + SUFFIX)
    if os.path.exists(out):
        return out
    mod = name.rsplit(".", 1)[1]
    work = tempfile.mkdtemp(prefix="verif-ext-", dir="/tmp")
    try:
        def sh(*cmd):
            r = subprocess.run(cmd, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise BuildError("%s: %s" % (name, r.stdout.decode(errors="replace")[-2000:]))
        cc = ["gcc", *flags, "-w", *INC, "-c"]
        ccplain = ["gcc", *PLAIN, "-w", *INC, "-c"]
        fc = ["gfortran", *flags] + (["-fcheck=bounds"] if san else []) + ["-c"]
        if src.endswith(".c"):
            sh(*cc, src, "-o", "source.o")
            ld = "gcc"
        else:
            sh(sys.executable, "-W", "ignore", "-m", "numpy.f2py", "--quiet", "-m", mod, src)
            sh(*fc, src, "-o", "source.o")
            for c in glob.glob(work + "/*.c") + [F2PY + "/fortranobject.c"]:
                sh(*ccplain, c, "-o", os.path.basename(c)[:-2] + ".o")
            for f in glob.glob(work + "/*-f2pywrappers*.f*"):
                sh(*fc, f, "-o", os.path.basename(f).rsplit(".", 1)[0] + ".o")
            ld = "gfortran"
        link = ["-fsanitize=address,undefined"] if san else []
        sh(ld, "-shared", *link, *sorted(glob.glob(work + "/*.o")), "-o", "out.so")
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d.tmp" % os.getpid()
        shutil.copyfile(os.path.join(work, "out.so"), tmp)
        os.replace(tmp, out)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return out


def build(names=None, san=False):
    names = list(names or EXTS)
    with ThreadPoolExecutor(len(names)) as ex:
        return dict(zip(names, ex.map(lambda n: _build(n, san), names)))


def hide():
    """Make the package fall back to its pure Python code."""
    for name in EXTS:
        sys.modules[name] = None


def load(name, path):
    loader = importlib.machinery.ExtensionFileLoader(name, path)
    spec = importlib.util.spec_from_file_location(name, path, loader=loader)
    mod = importlib.util.module_from_spec(spec)
    loader.exec_module(mod)
    return mod


def install(names=None, san=False):
    """Fresh builds of the extensions, visible to the package's own imports."""
    paths = build(names, san)
    mods = {}
    for name, path in paths.items():
        mods[name] = load(name, path)
        sys.modules[name] = mods[name]
    return mods


def clear(names=None):
    for name in names or EXTS:
        sys.modules.pop(name, None)


if __name__ == "__main__":
    build()
    build(san=True)
