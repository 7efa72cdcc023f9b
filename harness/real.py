"""The implementation under test, imported from /repo's working tree."""

import inspect
import os
import sys
import warnings
from dataclasses import fields, is_dataclass

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
os.environ.setdefault("MPLBACKEND", "Agg")
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402
import conjugate  # noqa: E402

assert os.path.abspath(conjugate.__file__).startswith(os.path.abspath(REPO) + "/"), conjugate.__file__
from conjugate import distributions as D  # noqa: E402
from conjugate import models as M  # noqa: E402

from .core import Mismatch, Timeout, crash_info  # noqa: E402


def params(obj):
    """The parameters of a distribution by name (not its plot bounds or anything cached)."""
    if is_dataclass(obj):
        ns = [f.name for f in fields(obj) if f.init]
    else:
        ns = [n for n in inspect.signature(type(obj).__init__).parameters if n != "self" and hasattr(obj, n)]
    return {n: getattr(obj, n) for n in ns if not n.startswith("_") and n not in ("max_value", "min_value")}


# While a journal is kept, every call is remembered with its result, so that it
# can be repeated at the end of a history.
JOURNAL = None


def call(what, fn, *a, res=None, **k):
    """Call the implementation; an exception is a departure from the specification."""
    if res is not None:
        res.impl_calls += 1
    # (the caller may overwrite its arrays later)
    kept = {n: np.copy(v) if isinstance(v, np.ndarray) else v for n, v in k.items()} if JOURNAL is not None else None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                out = fn(*a, **k)
                if JOURNAL is not None:
                    JOURNAL.append((what, fn, a, kept, out))
                return out
    except (Timeout, MemoryError):
        raise
    except Exception as e:
        raise Mismatch(f"{what} raised", **crash_info(e)) from e
