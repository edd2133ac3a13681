"""Import plumbing: /repo first (code under test), the toolchain's site-packages last (hypothesis)."""
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def setup():
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    if TOOLS not in sys.path:
        sys.path.append(TOOLS)
    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.CRITICAL)
    import enterprise

    where = os.path.dirname(os.path.dirname(os.path.abspath(enterprise.__file__)))
    if os.path.realpath(where) != os.path.realpath(REPO):
        raise RuntimeError("enterprise imported from %s, not %s" % (where, REPO))
