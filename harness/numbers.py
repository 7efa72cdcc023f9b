"""Values that work like numbers, in place of floats.

A system encodes the arguments of the specification in another number system
and decodes what the implementation makes of them. Some systems come with the
operations a caller supplies (logarithm, maximum, sine, ...), which fit their
encoding and nothing else.
"""

import math
import sqlite3
from fractions import Fraction

import numpy as np

from .core import Mismatch
from .real import params


class Num:
    """A number type of the user's: arithmetic, powers and order, nothing else."""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"Num({self.v!r})"

    __hash__ = None


def _raw(x):
    if isinstance(x, Num):
        return x.v
    if isinstance(x, (int, float, Fraction, np.integer, np.floating)):
        return float(x)
    return None


def _op(f):
    def forward(self, other):
        o = _raw(other)
        return NotImplemented if o is None else Num(f(self.v, o))

    def backward(self, other):
        o = _raw(other)
        return NotImplemented if o is None else Num(f(o, self.v))

    return forward, backward


for _n, _f in {
    "add": lambda a, b: a + b,
    "sub": lambda a, b: a - b,
    "mul": lambda a, b: a * b,
    "truediv": lambda a, b: a / b,
    "pow": lambda a, b: a**b,
}.items():
    _a, _b = _op(_f)
    setattr(Num, f"__{_n}__", _a)
    setattr(Num, f"__r{_n}__", _b)
Num.__neg__ = lambda s: Num(-s.v)
Num.__pos__ = lambda s: s
Num.__abs__ = lambda s: Num(abs(s.v))
for _n, _f in {
    "lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "gt": lambda a, b: a > b,
    "ge": lambda a, b: a >= b, "eq": lambda a, b: a == b, "ne": lambda a, b: a != b,
}.items():
    setattr(Num, f"__{_n}__", (lambda f: lambda s, o: NotImplemented if _raw(o) is None else f(s.v, _raw(o)))(_f))


def unwrap(x):
    if isinstance(x, Num):
        return float(x.v)
    if isinstance(x, (Fraction, int, float, np.integer, np.floating)):
        return float(x)
    raise Mismatch("a result is not a number of the kind that was passed", got=repr(x)[:200], type=type(x).__name__)


class Boxed:
    """Exact fractions or user numbers: scalars, and object arrays."""

    def __init__(self, layout, box):
        self.box = box

    def encode(self, v, exact, role, form, tail):
        """v: float scalar or array; exact: the same values as fractions."""
        if form % 4 == 0:
            return v  # mixed with floats
        if not np.ndim(v):
            return self.box(exact[0])
        src = np.asarray(v)
        out = np.empty(src.shape, dtype=object)
        for i in np.ndindex(src.shape):
            out[i] = self.box(src[i])
        return out

    def decode(self, value, shape, tail):
        if isinstance(value, (list, tuple)) and tail:
            value = np.stack([np.broadcast_to(self.decode(v, shape, ()), shape) for v in value], axis=-1)
            return value
        a = np.asarray(value, dtype=object)
        out = np.empty(a.shape)
        for i in np.ndindex(a.shape):
            out[i] = unwrap(a[i])
        return out

    def lift(self, f):
        """A function of floats as a function of these numbers."""

        def g(*xs):
            if not any(np.ndim(x) for x in xs):
                return self.box(f(*[unwrap(x.item() if isinstance(x, np.ndarray) else x) for x in xs]))
            return np.frompyfunc(lambda *t: self.box(f(*[unwrap(x) for x in t])), len(xs), 1)(*xs)

        return g

    def settle(self, obj):
        return obj


def to_fraction(v):
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, Fraction):
        return v
    return Fraction(v)


class SeriesNumbers:
    """pandas series labelled by lane, in any order of the labels."""

    def __init__(self, layout):
        import pandas

        self.pd = pandas
        self.n = layout["r"] * layout["c"]
        self.names = [f"lane{i}" for i in range(self.n)]

    def encode(self, v, exact, role, form, tail):
        if tail:
            a = np.asarray(v, dtype=float)
            return [self.encode(np.ascontiguousarray(a[..., i]) if a.ndim > 1 else float(a[i]), None, role, form, ()) for i in range(a.shape[-1])]
        if not np.ndim(v):
            return v
        order = [(form * 7 + i * (1 if form % 2 else self.n - 1)) % self.n for i in range(self.n)]
        return self.pd.Series([np.asarray(v)[i] for i in order], index=[self.names[i] for i in order])

    def decode(self, value, shape, tail):
        if tail:
            return np.stack([np.broadcast_to(self.decode(v, shape, ()), shape) for v in value], axis=-1)
        if isinstance(value, self.pd.Series):
            if sorted(value.index) != sorted(self.names):
                raise Mismatch("labels were lost", got=repr(list(value.index))[:200])
            return value.reindex(self.names).to_numpy(dtype=float)
        if np.ndim(value):
            raise Mismatch("labels were lost", got=repr(value)[:200])
        return np.asarray(value, dtype=float)

    def lift(self, f):
        def g(*xs):
            if not any(isinstance(x, self.pd.Series) for x in xs):
                return f(*[float(x) for x in xs])
            if len(xs) == 1:
                return xs[0].map(f)
            df = self.pd.DataFrame({i: (x if isinstance(x, self.pd.Series) else self.pd.Series(x, index=self.names)) for i, x in enumerate(xs)})
            return df.apply(lambda r: f(*r), axis=1)

        return g

    def settle(self, obj):
        return obj


class SqlNumbers:
    """Columns of a table; results are read by asking the database."""

    def __init__(self, layout):
        from pypika import Field, Table

        self.n = layout["r"] * layout["c"]
        self.table = Table("t")
        self.Field = Field
        self.columns = []
        self.functions = {"POW": (2, lambda a, b: float(a) ** b)}

    def column(self, vals):
        self.columns.append([float(v) for v in vals])
        return self.Field(f"c{len(self.columns) - 1}", table=self.table)

    def encode(self, v, exact, role, form, tail):
        if tail:
            a = np.asarray(v, dtype=float)
            return [self.encode(np.ascontiguousarray(a[..., i]) if a.ndim > 1 else float(a[i]), None, role, form, ()) for i in range(a.shape[-1])]
        if not np.ndim(v):
            v = v.item() if isinstance(v, (np.generic, np.ndarray)) else v
            # (PyPika writes "a - -1" as a comment)
            if v < 0 or form % 2:
                return self.column([v] * self.n)
            return v
        return self.column(list(np.asarray(v)))

    def is_term(self, v):
        from pypika.terms import Term

        return isinstance(v, Term)

    def evaluate(self, terms):
        db = sqlite3.connect(":memory:")
        try:
            for name, (k, f) in self.functions.items():
                db.create_function(name, k, f)
            cols = ["lane INTEGER"] + [f"c{i} REAL" for i in range(len(self.columns))]
            db.execute(f"CREATE TABLE t ({', '.join(cols)})")
            for lane in range(self.n):
                row = [lane] + [c[lane] for c in self.columns]
                db.execute(f"INSERT INTO t VALUES ({', '.join('?' * len(row))})", row)
            out = []
            for t in terms:
                sql = f"SELECT {t.get_sql(quote_char=chr(34), with_namespace=False)} FROM t ORDER BY lane"
                try:
                    out.append([r[0] for r in db.execute(sql).fetchall()])
                except sqlite3.Error as e:
                    raise Mismatch("the database refuses the expression", error=str(e), sql=sql[:600]) from e
            return out
        finally:
            db.close()

    def decode(self, value, shape, tail):
        if tail:
            return np.stack([np.broadcast_to(self.decode(v, shape, ()), shape) for v in value], axis=-1)
        if self.is_term(value):
            got = self.evaluate([value])[0]
            if any(not isinstance(g, (int, float)) for g in got):
                raise Mismatch("the database has no value for the expression", got=repr(got), sql=str(value)[:600])
            return np.array(got, dtype=float).reshape(shape if shape else ())if self.n > 1 or shape else np.float64(got[0])
        if np.ndim(value):
            raise Mismatch("not a database expression", got=repr(value)[:200])
        return np.asarray(value, dtype=float)

    def lift(self, f):
        from pypika import CustomFunction

        name = f"F{len(self.functions)}"
        k = f.__code__.co_argcount
        self.functions[name] = (k, f)
        return CustomFunction(name, [f"x{i}" for i in range(k)])

    def settle(self, obj):
        """Long expressions are stored in the table, as a user would."""
        for k, v in list(params(obj).items()):
            if self.is_term(v) and len(str(v)) > 1500:
                setattr(obj, k, self.column(self.evaluate([v])[0]))
        return obj


def system(name, layout):
    if name == "fraction":
        return Boxed(layout, to_fraction)
    if name == "user":
        return Boxed(layout, lambda v: Num(float(v)))
    if name == "series":
        return SeriesNumbers(layout)
    if name == "sql":
        return SqlNumbers(layout)
    raise KeyError(name)
