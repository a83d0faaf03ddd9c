"""Put Hypothesis on sys.path for /opt/venv's Python, and /repo first.

/opt/venv (the interpreter the repository's dependencies live in) has no Hypothesis.  Only
the pure-Python pieces it needs are exposed from the verification venv, through symlinks in
/verif/.deps (git-ignored), so that nothing else of that venv (its numpy, say) shadows the
repository's own dependencies.
"""
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEPS = os.path.join(HERE, ".deps")
SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WHEELS = "/opt/veriftools/wheels"
NEEDED = ["hypothesis", "sortedcontainers", "_hypothesis_globals.py",
          "_hypothesis_ftz_detector.py"]
REPO = os.environ.get("PBT_REPO", "/repo")


def _from_site() -> bool:
    if not all(os.path.exists(os.path.join(SITE, n)) for n in NEEDED[:2]):
        return False
    os.makedirs(DEPS, exist_ok=True)
    for n in NEEDED:
        src, dst = os.path.join(SITE, n), os.path.join(DEPS, n)
        if os.path.exists(src) and not os.path.lexists(dst):
            try:
                os.symlink(src, dst)
            except FileExistsError:
                pass
    return True


def _from_wheels() -> None:
    os.makedirs(DEPS, exist_ok=True)
    subprocess.run([sys.executable, "-m", "pip", "install", "--quiet", "--no-index",
                    "--find-links", WHEELS, "--no-deps", "--target", DEPS,
                    "hypothesis", "sortedcontainers"], check=True)


def provision() -> None:
    sys.path.insert(0, REPO)
    sys.path.append(DEPS)
    try:
        if not _from_site():
            _from_wheels()
        import hypothesis  # noqa: F401
    except Exception:
        _from_wheels()
        import importlib
        importlib.invalidate_caches()
        import hypothesis  # noqa: F401
    # Hypothesis keeps caches (a .hypothesis folder) where it is told to
    from hypothesis import configuration
    configuration.set_hypothesis_home_dir(
        os.path.join(tempfile.gettempdir(), "pbt_hypothesis_home"))
