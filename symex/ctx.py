"""The interface harnesses are written against.

`SymCtx` hands out symbolic inputs and lets the solver decide the obligations; `ConcreteCtx` replays one
witness (a dictionary name -> value) on the real, un-instrumented code.  A harness is the same function in
both worlds.
"""

import base64
import dataclasses
import datetime
import enum
import json
import math


class Outcome:
    """Result of `ctx.attempt`."""

    def __init__(self, ok, value=None, exc=None):
        self.ok = ok
        self.value = value
        self.exc = exc

    @property
    def exc_type(self):
        return None if self.exc is None else type(self.exc)

    def __repr__(self):
        return f"returned {self.value!r}" if self.ok else f"raised {type(self.exc).__name__}"


class Violation(BaseException):
    """Raised by ConcreteCtx when an obligation is false."""


class Discard(BaseException):
    """Raised by ConcreteCtx when an assumption is false (the witness is not one)."""


# -- describing values --------------------------------------------------------------------------------


def describe(x, conc=None):
    """JSON-able picture of a result, equal for equal results of the symbolic and the concrete run."""
    if conc is not None:
        x = conc(x)
    if x is None or x is True or x is False:
        return x
    t = type(x)
    if isinstance(x, enum.Enum):
        return f"{t.__qualname__}.{x.name}"
    if t is int:
        return f"int:{x}" if abs(x) < 10**60 else f"int:{x % 1000000007}:{x.bit_length()}"
    if t is float:
        return f"float:{x!r}"
    if t is str:
        return "str:" + x
    if t is bytes:
        return "bytes:" + x.hex()
    if isinstance(x, BaseException):
        return f"exc:{t.__name__}"
    if isinstance(x, Outcome):
        return ["returned", describe(x.value, conc)] if x.ok else ["raised", t_name(x.exc)]
    if isinstance(x, dict):
        return [clsname(x, "dict"), sorted(([describe(k, conc), describe(v, conc)] for k, v in x.items()), key=repr)]
    if isinstance(x, (list, tuple)):
        return [clsname(x, "list"), [describe(v, conc) for v in x]]
    if isinstance(x, (set, frozenset)):
        return [clsname(x, "set"), sorted((describe(v, conc) for v in x), key=repr)]
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return [t.__qualname__, [[f.name, describe(getattr(x, f.name, "<unset>"), conc)] for f in dataclasses.fields(x)]]
    if isinstance(x, type):
        return f"type:{x.__qualname__}"
    if t.__module__ in ("decimal", "uuid", "datetime", "pathlib", "pathlib._local", "fractions"):
        return f"{t.__name__}:{x}"
    if t.__module__.startswith("nr."):
        return f"{t.__name__}:{x}"
    return f"<{t.__qualname__}>"


def clsname(x, default):
    t = type(x)
    if t.__name__ == "XDict":
        return x.pycls.__qualname__
    return {"XDict": "dict", "XSet": "set", "XFrozen": "frozenset"}.get(t.__name__, t.__qualname__)


def t_name(exc):
    return type(exc).__name__


# -- witness encoding ---------------------------------------------------------------------------------


def encode(v):
    if v is None or v is True or v is False:
        return v
    if isinstance(v, int):
        return {"int": str(v)}
    if isinstance(v, float):
        return {"float": repr(v)}
    if isinstance(v, str):
        return {"str": v}
    raise TypeError(v)


def decode(v):
    if isinstance(v, dict):
        if "int" in v:
            return int(v["int"])
        if "float" in v:
            return float(v["float"])
        if "str" in v:
            return v["str"]
    return v


SPECIAL_FLOATS = {
    "nan": math.nan, "inf": math.inf, "-inf": -math.inf, "-0.0": -0.0, "0.1": 0.1, "1e300": 1e300, "near": 2.9999999999999996, "5e-324": 5e-324,
}
DEFAULT_FLOATS = ("fin", "nan", "inf", "0.1", "1e300", "-0.0", "near")

JSON_KINDS = ("null", "bool", "int", "float", "str", "list", "dict")
SCALAR_KINDS = ("null", "bool", "int", "float", "str")


class BaseCtx:
    def flag(self, name):
        return self.choice(name, [False, True])

    def pick(self, name, n):
        """An index below *n*."""
        return self.choice(name, list(range(n)))

    def subset(self, name, items):
        return [x for x in items if self.flag(f"{name}.{x}")]


class ConcreteCtx(BaseCtx):
    symbolic = False

    def __init__(self, witness):
        self.w = witness
        self.observations = []
        self.covered = set()
        self.failures = []

    def _get(self, name, default):
        v = self.w.get(name, None)
        return default if name not in self.w else decode(v)

    def bool(self, name):
        return self._get(name, False)

    def int(self, name, lo=None, hi=None):
        d = 0
        if lo is not None and d < lo:
            d = lo
        if hi is not None and d > hi:
            d = hi
        return self._get(name, d)

    def str(self, name, nonempty=False, pool=None):
        if pool is not None:
            return pool[self._get(name, 0)]
        return self._get(name, "a" if nonempty else "")

    def float(self, name, kinds=DEFAULT_FLOATS):
        k = self.choice(name + ".fk", list(kinds))
        if k == "fin":
            return self._get(name, 0) / 8
        return SPECIAL_FLOATS[k]

    def choice(self, name, options):
        return options[self._get(name, 0)]

    def opaque(self, name, tname):
        from .opaque import TYPES

        return TYPES[tname].pool[self._get(name, 0)]

    def lazy(self, name, kinds):
        label = self._get(name + ".kind", kinds[0][0])
        for lab, cls, mk in kinds:
            if lab == label:
                return mk()
        raise Discard(f"no kind {label}")

    def distinct(self, items):
        if len(set(items)) != len(items):
            raise Discard("keys not distinct")

    def mkdict(self, entries):
        return dict(entries)

    def json_text(self, value):
        """The JSON text of *value*."""
        return json.dumps(value)

    def is_json_text(self, text, value, **k):
        """*text* is the JSON text of *value*, written with these options."""
        return type(text) is str and text == json.dumps(value, **k)

    def assume(self, cond):
        if not cond:
            raise Discard("assumption")

    def check(self, cond, msg, detail=None):
        if not cond:
            d = detail() if callable(detail) else detail
            self.failures.append(msg if d is None else f"{msg}: {d}")
            raise Violation(self.failures[-1])

    def cover(self, label):
        self.covered.add(label)

    def observe(self, x):
        self.observations.append(describe(x))

    def attempt(self, fn, *a, observe=True, **k):
        try:
            r = Outcome(True, fn(*a, **k))
        except Exception as exc:  # noqa: BLE001
            r = Outcome(False, exc=exc)
        if observe:
            self.observe(r)
        return r

    def cut(self, why):
        raise Discard(why)

    def nofork_and(self, *conds):
        return all(conds)


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, engine):
        import z3

        from . import values

        self.z3 = z3
        self.v = values
        self.E = engine

    def _reg(self, name, kind, expr):
        if name in self.E.inputs:
            from .engine import EngineError

            raise EngineError(f"input {name} created twice")
        self.E.inputs[name] = (kind, expr)

    def bool(self, name):
        e = self.z3.Bool(name)
        self._reg(name, "bool", e)
        return self.v.SBool(e)

    def int(self, name, lo=None, hi=None):
        e = self.z3.Int(name)
        self._reg(name, "int", e)
        if lo is not None:
            self.E.assume(e >= lo)
        if hi is not None:
            self.E.assume(e <= hi)
        return self.v.SInt(e)

    def enum_int(self, name, cls):
        """An arbitrary member of an IntEnum."""
        e = self.z3.Int(name)
        self._reg(name, "int", e)
        self.E.assume(self.z3.Or([e == int(m) for m in cls]))
        return self.v.SInt(e, cls)

    def str(self, name, nonempty=False, pool=None):
        if pool is not None:
            i = self.pick(name, len(pool))
            return pool[i]
        e = self.z3.String(name)
        self._reg(name, "str", e)
        if nonempty:
            self.E.assume(e != self.v.strval(""))
        return self.v.SStr(e)

    def float(self, name, kinds=DEFAULT_FLOATS):
        k = self.choice(name + ".fk", list(kinds))
        if k == "fin":
            e = self.z3.Int(name)
            self._reg(name, "int", e)
            b = self.v.FLOAT_BOUND
            self.E.assume(self.z3.And(e <= b, e >= -b))
            return self.v.SFloat(e)
        return SPECIAL_FLOATS[k]

    def choice(self, name, options):
        i = self.E.choose(len(options), name)
        self._reg(name, "const", i)
        return options[i]

    def opaque(self, name, tname):
        from .opaque import TYPES

        e = self.z3.Int(name)
        self._reg(name, "opaque", (e, TYPES[tname]))
        return self.v.SObj(TYPES[tname], e)

    def lazy(self, name, kinds):
        v = self.v.SVal(name, kinds)
        if name + ".kind" in self.E.lazies:
            from .engine import EngineError

            raise EngineError(f"input {name} created twice")
        self.E.lazies[name + ".kind"] = v
        return v

    def distinct(self, items):
        es = [x.e if self.v.is_sym(x) else self.v.strval(x) for x in items]
        if len(es) > 1:
            self.E.assume(self.z3.Distinct(*es))

    def json_text(self, value):
        return self.v.SStr(self.z3.FreshConst(self.z3.StringSort(), "json"), ("json", value))

    def is_json_text(self, text, value, **k):
        if type(text) is str:
            from .hooks import deep_realize

            return text == json.dumps(deep_realize(value), **k)
        if type(text) is not self.v.SStr or text.origin is None or text.origin[0] != "jsontext":
            return False
        if {**JSON_OPTIONS, **text.origin[2]} != {**JSON_OPTIONS, **k}:
            return False
        return same_tree(text.origin[1], value, not k.get("sort_keys"))

    def mkdict(self, entries):
        d = self.v.XDict()
        d._go_sym()
        d.sym = [[k, v] for k, v in entries]
        if not any(self.v.symkey(k) for k, _ in entries):
            return self.v.XDict(entries)
        return d

    def assume(self, cond):
        self.E.assume(self.v.bexpr(cond))

    def check(self, cond, msg, detail=None):
        E = self.E
        if type(cond) is self.v.SVal:
            cond = cond.resolve()
        e = cond.e if type(cond) is self.v.SBool else self.z3.BoolVal(bool(cond))

        def on_violation(model):
            d = None
            E.record_violation(self, msg, e, model)

        E.check_holds(e, on_violation)

    def cover(self, label):
        self.E.path_cover.add(label)

    def observe(self, x):
        self.E.observations.append(x)

    def attempt(self, fn, *a, observe=True, **k):
        try:
            r = Outcome(True, fn(*a, **k))
        except Exception as exc:  # noqa: BLE001
            r = Outcome(False, exc=exc)
        if observe:
            self.observe(r)
        return r

    def cut(self, why):
        self.E.cut(why)

    def nofork_and(self, *conds):
        return self.v.and_(*conds)


def enum_int(ctx, name, cls):
    if ctx.symbolic:
        return ctx.enum_int(name, cls)
    return cls(ctx._get(name, int(list(cls)[0])))


# -- JSON payloads ------------------------------------------------------------------------------------


JSON_OPTIONS = {
    "skipkeys": False, "ensure_ascii": True, "check_circular": True, "allow_nan": True, "cls": None,
    "indent": None, "separators": None, "default": None, "sort_keys": False,
}


def same_tree(a, b, ordered):
    from .values import SVal, and_, or_, pytype

    a = a.resolve() if type(a) is SVal else a
    b = b.resolve() if type(b) is SVal else b
    if pytype(a) is not pytype(b) and not isinstance(a, dict):
        return False
    if isinstance(a, dict):
        if not isinstance(b, dict) or len(a) != len(b):
            return False
        if ordered:
            return and_(*[and_(k == l, same_tree(x, y, ordered)) for (k, x), (l, y) in zip(a.items(), b.items())])
        return and_(*[k in b and same_tree(x, b[k], ordered) for k, x in a.items()])
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and and_(*[same_tree(x, y, ordered) for x, y in zip(a, b)])
    if a is b:
        return True
    if pytype(a) is float:
        return or_(a == b, and_(a != a, b != b))
    return a == b


def json_value(ctx, name, depth=1, width=2, kinds=JSON_KINDS, floats=DEFAULT_FLOATS, inner=None, nonempty_keys=False):
    """An arbitrary JSON value: containers up to *width* entries, nested up to *depth* levels."""
    sub = inner if inner is not None else (JSON_KINDS if depth > 1 else SCALAR_KINDS)

    def mk_list():
        n = ctx.pick(name + ".len", width + 1)
        return [json_value(ctx, f"{name}[{i}]", depth - 1, width, sub, floats) for i in range(n)]

    def mk_dict():
        n = ctx.pick(name + ".len", width + 1)
        keys = [ctx.str(f"{name}.k{i}") for i in range(n)]
        ctx.distinct(keys)
        return ctx.mkdict([(k, json_value(ctx, f"{name}.v{i}", depth - 1, width, sub, floats)) for i, k in enumerate(keys)])

    table = {
        "null": (type(None), lambda: None),
        "bool": (bool, lambda: ctx.bool(name)),
        "int": (int, lambda: ctx.int(name)),
        "float": (float, lambda: ctx.float(name, floats)),
        "str": (str, lambda: ctx.str(name)),
        "list": (list, mk_list if depth > 0 else lambda: []),
        "dict": (dict, mk_dict if depth > 0 else lambda: {}),
    }
    return ctx.lazy(name, [(k,) + table[k] for k in kinds])


def payload(ctx, name, nkeys, value, extra=()):
    """A mapping with exactly *nkeys* arbitrary distinct string keys (plus the fixed entries *extra*)."""
    keys = [ctx.str(f"{name}.k{i}") for i in range(nkeys)]
    ctx.distinct(keys + [k for k, _ in extra])
    return ctx.mkdict(list(extra) + [(k, value(f"{name}.v{i}")) for i, k in enumerate(keys)])
