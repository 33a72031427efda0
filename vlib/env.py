"""Locate the tree under test, build its C++ extensions, make hypothesis importable.

The python part of xboa is imported straight from the working tree (/repo, or
$XBOA_REPO when the machinery itself is being tested against a scratch copy).
The three C++ extension modules are compiled from that same working tree with
the project's own setup.py into a cache directory keyed by the content of the
sources; a meta path finder makes `xboa.core._hitcore` etc. resolve to those
freshly built modules, so a stale .so lying in the tree is never used.
"""
import hashlib
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("XBOA_REPO", "/repo"))
VENV_PYTHON = "/opt/venv/bin/python"
CACHE = os.environ.get("XBOA_VERIF_CACHE", os.path.join(VERIF, ".cache"))
HYP_SITE = ["/opt/veriftools/pyvenv/lib/python3.12/site-packages"]
WHEELS = "/opt/veriftools/wheels"


class HarnessError(Exception):
    """The machinery (not the code under test) failed."""


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def tier():
    return "thorough" if os.environ.get("VERIF_TIER", "quick") == "thorough" else "quick"


def _core_files():
    out = []
    base = os.path.join(REPO, "xboa", "core")
    for root, dirs, files in os.walk(base):
        dirs.sort()
        for name in sorted(files):
            if name.endswith((".cc", ".hh", ".h", ".c", ".cpp", ".hpp", ".inl")):
                out.append(os.path.join(root, name))
    out.append(os.path.join(REPO, "setup.py"))
    return out


def core_hash(extra=""):
    h = hashlib.sha256()
    h.update((sys.version + extra).encode())
    for path in _core_files():
        h.update(os.path.relpath(path, REPO).encode() + b"\0")
        with open(path, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def build_ext(flavour="plain"):
    """Build the extension modules; return the directory that holds them.

    flavour: plain | asan (address + undefined behaviour sanitizers)
    """
    flags = {"plain": "", "asan": "-fsanitize=address,undefined "
             "-fno-sanitize-recover=undefined -fno-omit-frame-pointer -g -O1"}[flavour]
    key = core_hash(flavour + flags)
    target = os.path.join(CACHE, "ext-%s-%s" % (flavour, key))
    if os.path.isdir(target) and ext_map(target):
        return target
    os.makedirs(CACHE, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="build-", dir=CACHE)
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", CC="gcc", CXX="g++", PYTHONPATH="",
               PYTHONHASHSEED="0")
    if flags:
        env["CFLAGS"] = flags
        env["CXXFLAGS"] = flags
        env["LDFLAGS"] = "-fsanitize=address,undefined"
    lib = os.path.join(tmp, "lib")
    cmd = [VENV_PYTHON, "setup.py", "-q", "build_ext", "--force",
           "--build-lib", lib, "--build-temp", os.path.join(tmp, "tmp")]
    proc = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True)
    if proc.returncode != 0 or len(ext_map(lib)) < 3:
        shutil.rmtree(tmp, ignore_errors=True)
        raise HarnessError("could not build the extensions:\n" + proc.stdout[-3000:])
    try:
        os.rename(lib, target)
    except OSError:
        if not os.path.isdir(target):
            raise
    shutil.rmtree(tmp, ignore_errors=True)
    _prune(target)
    return target


def _prune(keep):
    try:
        dirs = [os.path.join(CACHE, d) for d in os.listdir(CACHE) if d.startswith("ext-")]
        dirs.sort(key=os.path.getmtime)
        for d in dirs[:-24]:
            if d != keep:
                shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def ext_map(libdir):
    """{module name: path} of the extension modules below libdir"""
    suffix = sysconfig.get_config_var("EXT_SUFFIX") or ".so"
    out = {}
    for root, _, files in os.walk(libdir):
        for name in files:
            if name.endswith(".so"):
                stem = name[:-len(suffix)] if name.endswith(suffix) else name.split(".")[0]
                rel = os.path.relpath(root, libdir)
                pkg = "" if rel == "." else rel.replace(os.sep, ".") + "."
                out[pkg + stem] = os.path.join(root, name)
    return out


class _ExtFinder:
    def __init__(self, mapping):
        self.mapping = mapping

    def find_spec(self, name, path=None, target=None):
        if name in self.mapping:
            fname = self.mapping[name]
            loader = importlib.machinery.ExtensionFileLoader(name, fname)
            return importlib.util.spec_from_file_location(name, fname, loader=loader)
        return None


def install_xboa(libdir):
    """Make `import xboa` give the working tree with the freshly built extensions."""
    sys.dont_write_bytecode = True
    if REPO not in sys.path or sys.path.index(REPO) != 0:
        sys.path.insert(0, REPO)
    sys.meta_path.insert(0, _ExtFinder(ext_map(libdir)))
    import xboa
    import xboa.core
    if os.path.abspath(os.path.dirname(os.path.dirname(xboa.__file__))) != REPO:
        raise HarnessError("xboa imported from %s, not from %s" % (xboa.__file__, REPO))


def install_hypothesis(scratch):
    """hypothesis is not in the project's venv: link it (only it) into scratch."""
    try:
        import hypothesis  # noqa
        return
    except ImportError:
        pass
    dest = os.path.join(scratch, "pydeps")
    os.makedirs(dest, exist_ok=True)
    for site in HYP_SITE:
        if not os.path.isdir(os.path.join(site, "hypothesis")):
            continue
        for name in os.listdir(site):
            if name in ("hypothesis", "sortedcontainers", "attr", "attrs") or \
                    name.startswith("_hypothesis_"):
                try:
                    os.symlink(os.path.join(site, name), os.path.join(dest, name))
                except FileExistsError:
                    pass
        break
    else:
        proc = subprocess.run([VENV_PYTHON, "-m", "pip", "install", "-q", "--no-index",
                               "--find-links", WHEELS, "--target", dest, "hypothesis"],
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if proc.returncode:
            raise HarnessError("hypothesis is not available:\n" + proc.stdout)
    sys.path.append(dest)
    try:
        import hypothesis  # noqa
    except ImportError as exc:
        raise HarnessError("hypothesis is not importable: %s" % exc)
