"""Beside every demo.py that needs the C library: builds acados from the current directory (the repository)
into a scratch folder and runs the rest of the demo inside that environment."""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))


def enter(shims=(), c_library=True):
    """returns in the child process, with the environment set up and a scratch directory as cwd"""
    if os.environ.get("DEMO_CHILD"):
        os.chdir(os.environ["DEMO_CHILD"])
        sys.path.insert(0, HERE)
        return
    repo = os.getcwd()
    w = tempfile.mkdtemp(prefix="demo_")
    try:
        os.environ["VERIF_REPO"] = repo
        os.environ["VERIF_CACHE"] = os.path.join(w, "obj")
        sys.path.insert(0, os.path.join(HERE, "rig"))
        import build
        prefix = os.path.join(w, "acados")
        if not c_library:
            build.light(prefix)
        else:
            build.build(prefix)
            for s in shims:
                build.build_shim(prefix, s)
        e = build.env(prefix)
        e["PYTHONPATH"] = e["PYTHONPATH"] + ":" + HERE
        os.makedirs(os.path.join(w, "cwd"))
        e["DEMO_CHILD"] = os.path.join(w, "cwd")
        r = subprocess.run([build.PY, os.path.abspath(sys.argv[0])], env=e, timeout=280)
        rc = r.returncode
    finally:
        shutil.rmtree(w, ignore_errors=True)
    sys.exit(rc if rc >= 0 else 99)
