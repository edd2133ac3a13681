ID = "R04-cwd-from-env"
PROP = "R04"
EDITS = [("enterprise/pulsar.py", "        cwd = os.getcwd()\n", '        cwd = os.environ.get("PWD") or os.getcwd()\n')]
NEEDS = "a program that changed directory (os.chdir does not update PWD) before loading a pulsar"
BREAKS = "the working directory after the call is the one the process was started in, not the one before the call"
DEMO = '''
from demolib import *
import os, tempfile
from enterprise.pulsar import Pulsar
with tempfile.TemporaryDirectory() as d:
    d = os.path.realpath(d)
    for n in ("a.par", "a.tim"):
        open(os.path.join(d, n), "w").write("\\n")
    start = os.getcwd()
    os.environ["PWD"] = start
    work = os.path.join(d, "work")
    os.mkdir(work)
    os.chdir(work)
    try:
        Pulsar(os.path.join(d, "a.par"), os.path.join(d, "a.tim"), timing_package="none_such")
    except Exception:
        pass
    now = os.getcwd()
    os.chdir(start)
    check(now == work, now)
'''
