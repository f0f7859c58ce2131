"""Process set-up shared by the checks: import paths, scratch dirs, warnings."""
import atexit
import os
import shutil
import sys
import tempfile
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_owner = None


def setup():
    global _owner
    src = os.path.join(REPO, "src")
    sys.path.insert(0, src)
    if HYP not in sys.path:
        sys.path.append(HYP)  # last: numpy & co. stay those of /opt/venv
    d = tempfile.mkdtemp(prefix="verif_pycba_")
    os.environ["MPLCONFIGDIR"] = d
    os.environ["VERIF_SCRATCH"] = d
    _owner = os.getpid()

    def _clean():
        if os.getpid() == _owner:
            shutil.rmtree(d, ignore_errors=True)

    atexit.register(_clean)
    warnings.simplefilter("ignore")
    import pycba

    here = os.path.realpath(pycba.__file__)
    if not here.startswith(os.path.realpath(src) + os.sep):
        print(f"harness error: pycba imported from {here}", file=sys.stderr)
        sys.exit(2)
