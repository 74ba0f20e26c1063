"""Imports svgio from the repository's working tree, without writing anything there."""
import decimal, gc, os, random, sys

REPO = os.environ.get("SVGIO_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, "out")

sys.dont_write_bytecode = True
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)

from . import simlock  # noqa: E402

simlock.install()

# no byte code cache for the library itself: always the current source
sys.pycache_prefix = "/nonexistent/pycache"
import svgio  # noqa: E402
from svgio import nodes, path, basic  # noqa: E402
sys.pycache_prefix = None

_where = os.path.realpath(os.path.dirname(svgio.__file__))
if _where != os.path.realpath(os.path.join(REPO, "svgio")):
    raise SystemExit("svgio imported from %s, not from %s" % (_where, REPO))
SVGIO_DIR = os.path.dirname(os.path.abspath(svgio.__file__)) + os.sep

try:  # optional accelerators: loaded once, before the workers fork
    import numpy  # noqa: E402,F401
    import scipy.integrate  # noqa: E402,F401
    import scipy.special  # noqa: E402,F401
except ImportError:
    numpy = None


def settings():
    """What the whole process shares and the library has no business changing."""
    d = {"recursion limit": sys.getrecursionlimit(), "working directory": os.getcwd(), "garbage collection": gc.isenabled(), "random numbers": hash(random.getstate()),
         "decimal context": repr(decimal.getcontext()), "switch interval": sys.getswitchinterval(), "standard streams": (id(sys.stdout), id(sys.stderr))}
    if numpy is not None:
        d["numpy errors"] = sorted(numpy.geterr().items())
    return d


def changed_settings(before):
    now = settings()
    return ["%s: %s, was %s" % (k, str(now[k])[:100], str(before[k])[:100]) for k in before if now[k] != before[k]]


def restore_settings():
    """Back to the settings the process began with, so that runs do not depend on those before them."""
    sys.setrecursionlimit(_start["recursion limit"])
    if numpy is not None:
        numpy.seterr(**dict(_start["numpy errors"]))


def is_svgio(filename):
    return filename.startswith(SVGIO_DIR)


def preload_xml():
    # The library imports this lazily; do it here so that no run pays for it.
    import xml.etree.ElementTree  # noqa: F401
    try:
        import xml.etree.cElementTree  # noqa: F401
    except ImportError:
        pass


preload_xml()
_start = settings()
