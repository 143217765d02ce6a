"""Import the real tealish package from /repo's working tree, leaving no trace in it."""
import os
import sys

sys.dont_write_bytecode = True
REPO = os.environ.get("TLV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if REPO not in sys.path:
    sys.path.insert(0, REPO)
_site = "/opt/venv/lib/python3.12/site-packages"
if _site not in sys.path:
    sys.path.append(_site)


class _Quiet:
    """tealish writes warnings to stderr; keep them out of the check's output"""

    def __enter__(self):
        self.old = sys.stderr
        sys.stderr = open(os.devnull, "w")

    def __exit__(self, *a):
        sys.stderr.close()
        sys.stderr = self.old


def quiet():
    return _Quiet()
