""" Process set-up shared by every check: import paths, hypothesis, scratch directory. """
import functools
import inspect
import os
import shutil
import sys
import tempfile
import zipfile

ROOT = None
REPO = "/repo"
SCRATCH = None


def _hypothesis_path():
    """ Make hypothesis importable next to the repository's own environment (which does not have it). """
    try:
        import hypothesis  # noqa: F401
        return
    except ImportError:
        pass
    version = f"{sys.version_info[0]}.{sys.version_info[1]}"
    site = f"/opt/veriftools/pyvenv/lib/python{version}/site-packages"
    if os.path.isdir(os.path.join(site, "hypothesis")):
        # Only the packages hypothesis needs: never shadow or extend what /repo imports.
        target = os.path.join(SCRATCH, "site")
        os.makedirs(target, exist_ok=True)
        for name in os.listdir(site):
            if name in ("hypothesis", "sortedcontainers", "_hypothesis_globals.py", "_hypothesis_pytestplugin.py",
                        "_hypothesis_ftz_detector.py", "attr", "attrs"):
                os.symlink(os.path.join(site, name), os.path.join(target, name))
        sys.path.append(target)
        import hypothesis  # noqa: F401
        return
    wheels = "/opt/veriftools/wheels"
    target = os.path.join(SCRATCH, "wheels")
    os.makedirs(target, exist_ok=True)
    tag = f"cp{sys.version_info[0]}{sys.version_info[1]}"
    for name in os.listdir(wheels):
        if name.startswith(("sortedcontainers-", "attrs-")) or (name.startswith("hypothesis-") and f"-{tag}-" in name):
            with zipfile.ZipFile(os.path.join(wheels, name)) as archive:
                archive.extractall(target)
    sys.path.append(target)
    import hypothesis  # noqa: F401


def setup(root):
    """ Prepare the process. Everything written goes under a scratch directory that is removed at exit. """
    global ROOT, SCRATCH
    ROOT = root
    SCRATCH = tempfile.mkdtemp(prefix="vcheck_run_")
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(SCRATCH, "hyp")
    _hypothesis_path()
    os.chdir(SCRATCH)
    # The decorated views of a class are searched in its source again and again: the text of a function is remembered
    inspect.getsource = functools.lru_cache(maxsize=None)(inspect.getsource)
    if REPO not in sys.path:
        sys.path.insert(1, REPO)


def cleanup():
    if SCRATCH and os.path.isdir(SCRATCH) and SCRATCH.startswith(tempfile.gettempdir()):
        os.chdir("/")
        shutil.rmtree(SCRATCH, ignore_errors=True)
