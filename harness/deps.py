"""Makes Hypothesis importable from the interpreter that has PyMC (which does not ship it)."""
import os, sys, tempfile

_SRC = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
_NAMES = ["hypothesis", "_hypothesis_ftz_detector.py", "_hypothesis_globals.py", "sortedcontainers"]


def ensure():
    try:
        import hypothesis  # noqa: F401
        return
    except ImportError:
        pass
    d = os.path.join(os.environ.get("VERIF_SCRATCH") or tempfile.mkdtemp(), "deps")
    os.makedirs(d, exist_ok=True)
    if os.path.isdir(os.path.join(_SRC, "hypothesis")):
        for n in _NAMES:
            if os.path.exists(os.path.join(_SRC, n)) and not os.path.lexists(os.path.join(d, n)):
                os.symlink(os.path.join(_SRC, n), os.path.join(d, n))
    else:
        import glob, zipfile
        for pat in ("hypothesis-*-cp312-*", "sortedcontainers-*"):
            for w in glob.glob("/opt/veriftools/wheels/" + pat + ".whl")[:1]:
                zipfile.ZipFile(w).extractall(d)
    sys.path.append(d)
    import hypothesis  # noqa: F401


ensure()
