"""Property-based testing harness for emtpb/dsch.

Importing this package makes the code under test (from /repo, or from the
directory named by VERIF_REPO) and Hypothesis importable.
"""
import os
import sys
import warnings

REPO = os.path.abspath(os.environ.get('VERIF_REPO', '/repo'))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
try:
    import hypothesis  # noqa: F401
except ImportError:
    # Appended last: only what the interpreter itself lacks comes from there.
    for _dir in ('/opt/veriftools/pyvenv/lib/python3.12/site-packages',):
        if os.path.isdir(_dir):
            sys.path.append(_dir)

warnings.simplefilter('ignore')

import dsch  # noqa: E402

_where = os.path.dirname(os.path.dirname(os.path.abspath(dsch.__file__)))
if _where != REPO:
    raise ImportError('dsch was imported from {}, not {}'.format(_where, REPO))


class Violation(Exception):
    """The property under test does not hold for the current case."""


def require(condition, message, *args):
    """Raise a Violation unless the condition holds."""
    if not condition:
        raise Violation(message.format(*args) if args else message)
