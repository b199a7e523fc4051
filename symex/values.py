"""Symbolic values: thin proxies around z3 terms that behave like the Python values they stand for.

Every proxy reports the class it stands for through `__class__`, so `isinstance` works also inside C code.
Operators build z3 terms; `bool()` of a symbolic truth value is a branch of the exploration.
"""

import re as _re
import sys

import z3

from . import engine as _eng

_SV = {}


def eng():
    return _eng.CURRENT


def strval(s):
    r = _SV.get(s)
    if r is None:
        r = _SV[s] = z3.StringVal(s)
    return r


_ESC = _re.compile(r"\\u\{([0-9a-fA-F]+)\}|\\x([0-9a-fA-F]{2})|\\u([0-9a-fA-F]{4})")


def pystr(v):
    """Python text of a z3 string value."""
    return _ESC.sub(lambda m: chr(int(m.group(1) or m.group(2) or m.group(3), 16)), v.as_string())


# -- limits and helpers -------------------------------------------------------------------------------

FLOAT_SCALE = 8
FLOAT_BOUND = 2**52
I2F_OVERFLOW = 2**1024 - 2**970


class Sym:
    """Base class of scalar proxies."""

    __slots__ = ("e",)
    _cls = object

    def __repr__(self):
        return "<sym>"

    def __str__(self):
        return "<sym>"

    def __format__(self, spec):
        return "<sym>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce_ex__(self, proto):
        raise _eng.EngineError("attempt to pickle a symbolic value")


def is_sym(x):
    return isinstance(type(x), type) and issubclass(type(x), Sym)


def realize(x):
    """A concrete Python value for a scalar proxy: forks over the values the solver proposes."""
    if not issubclass(type(x), Sym):
        return x
    if type(x) is SVal:
        return realize(x.resolve())
    return x._realize()


def _realize_term(e, pyval, mk):
    E = eng()
    c = E.consts.get(e.get_id())
    if c is not None:
        return pyval(c)
    E.stats.realizations += 1
    for _ in range(E.realize_limit):
        v = E.next_value(e)
        if E.branch(e == v):
            return pyval(v)
    E.stats.realization_cuts += 1
    E.cut("concretisation limit: only the first %d values of a symbolic value handed to opaque code" % E.realize_limit)


class SBool(Sym):
    __slots__ = ()
    _cls = bool

    def __init__(self, e):
        self.e = e

    __class__ = property(lambda self: bool)

    def __bool__(self):
        return eng().branch(self.e)

    def _realize(self):
        return eng().branch(self.e)

    def _int(self):
        return SInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __eq__(self, o):
        if type(o) is SBool:
            return SBool(self.e == o.e)
        if o is True:
            return self
        if o is False:
            return SBool(z3.Not(self.e))
        if type(o) in (int, float, SInt, SFloat):
            return self._int() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __hash__(self):
        return hash(self._realize())

    def __int__(self):
        return int(self._realize())

    __index__ = __int__

    def __float__(self):
        return float(self._realize())

    def __and__(self, o):
        if type(o) in (bool, SBool):
            return sbool(z3.And(self.e, bexpr(o)))
        return self._realize() & o

    __rand__ = __and__

    def __or__(self, o):
        if type(o) in (bool, SBool):
            return sbool(z3.Or(self.e, bexpr(o)))
        return self._realize() | o

    __ror__ = __or__

    def __xor__(self, o):
        if type(o) in (bool, SBool):
            return sbool(z3.Xor(self.e, bexpr(o)))
        return self._realize() ^ o

    __rxor__ = __xor__

    def __invert__(self):
        return ~self._realize()

    def __add__(self, o):
        return self._int() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._int() - o

    def __rsub__(self, o):
        return o - self._int()

    def __mul__(self, o):
        return self._int() * o

    __rmul__ = __mul__

    def __mod__(self, o):
        return self._int() % o

    def __lt__(self, o):
        return self._int() < o

    def __le__(self, o):
        return self._int() <= o

    def __gt__(self, o):
        return self._int() > o

    def __ge__(self, o):
        return self._int() >= o

    def __neg__(self):
        return -self._int()

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        return getattr(self._realize(), n)


def sbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def bexpr(b):
    if type(b) is SBool:
        return b.e
    if type(b) is bool:
        return z3.BoolVal(b)
    return z3.BoolVal(bool(b))


def not_(b):
    if type(b) is SBool:
        return SBool(z3.Not(b.e))
    return not b


def and_(*bs):
    es = []
    for b in bs:
        if type(b) is SBool:
            es.append(b.e)
        elif not b:
            return False
    if not es:
        return True
    return SBool(z3.And(*es)) if len(es) > 1 else SBool(es[0])


def or_(*bs):
    es = []
    for b in bs:
        if type(b) is SBool:
            es.append(b.e)
        elif b:
            return True
    if not es:
        return False
    return SBool(z3.Or(*es)) if len(es) > 1 else SBool(es[0])


class SInt(Sym):
    __slots__ = ("pycls",)
    _cls = int

    def __init__(self, e, pycls=int):
        self.e = e
        self.pycls = pycls

    __class__ = property(lambda self: self.pycls)

    @staticmethod
    def _c(o):
        t = type(o)
        if t is SInt:
            return o.e
        if t is bool:
            return z3.IntVal(int(o))
        if t is SBool:
            return o._int().e
        if t is int or (isinstance(o, int) and not issubclass(t, Sym)):
            return z3.IntVal(int(o))
        return None

    def _realize(self):
        v = _realize_term(self.e, lambda v: v.as_long(), None)
        return v if self.pycls is int else self.pycls(v)

    def _cmp(self, o, f):
        if type(o) is SVal:
            o = o.resolve()
        c = self._c(o)
        if c is not None:
            k = eng().consts.get(self.e.get_id())
            if k is not None and z3.is_int_value(c):
                return z3.is_true(z3.simplify(f(k, c)))
            return sbool(f(self.e, c))
        if type(o) in (float, SFloat):
            if type(o) is float and (o != o or o in (float("inf"), float("-inf"))):
                return None
            fe = SFloat._c(o)
            if fe is None:
                if type(o) is float and o == int(o):
                    return sbool(f(self.e, z3.IntVal(int(o))))
                return None
            return sbool(f(self.e * FLOAT_SCALE, fe))
        return NotImplemented

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is None else r

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def _ord(self, o, f):
        r = self._cmp(o, f)
        if r is None:
            return f(self._realize(), o)
        return r

    def __lt__(self, o):
        return self._ord(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._ord(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._ord(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._ord(o, lambda a, b: a >= b)

    def __hash__(self):
        return hash(self._realize())

    def __bool__(self):
        return eng().branch(self.e != 0)

    def __index__(self):
        return int(self._realize())

    def __int__(self):
        return int(self._realize())

    def __float__(self):
        return float(self._realize())

    def __trunc__(self):
        return SInt(self.e)

    __floor__ = __ceil__ = __trunc__

    def __round__(self, n=None):
        return SInt(self.e) if n is None else round(self._realize(), n)

    def _bin(self, o, f, pyf):
        if type(o) is SVal:
            o = o.resolve()
        c = self._c(o)
        if c is not None:
            return SInt(f(self.e, c))
        if type(o) in (float, SFloat):
            return pyf(int_to_float(self), o)
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, lambda a, b: b - a)

    def __mul__(self, o):
        if type(o) in (str, list, tuple, bytes):
            return o * self._realize()
        if type(o) in (float, SFloat):
            return int_to_float(self) * o
        c = self._c(o)
        if c is None:
            return NotImplemented
        if not z3.is_int_value(c):
            return self._realize() * realize(o)
        return SInt(self.e * c)

    __rmul__ = __mul__

    def __mod__(self, o):
        if type(o) is float:
            return int_to_float(self) % o
        c = self._c(o)
        if c is None:
            return NotImplemented
        if z3.is_int_value(c) and c.as_long() > 0:
            return SInt(self.e % c)
        return self._realize() % realize(o)

    def __floordiv__(self, o):
        c = self._c(o)
        if c is None:
            return NotImplemented
        if z3.is_int_value(c) and c.as_long() > 0:
            return SInt(self.e / c)
        return self._realize() // realize(o)

    def __truediv__(self, o):
        return self._realize() / realize(o)

    def __neg__(self):
        return SInt(-self.e)

    def __pos__(self):
        return SInt(self.e)

    def __abs__(self):
        return SInt(z3.If(self.e < 0, -self.e, self.e))

    @property
    def value(self):
        if self.pycls is int:
            raise AttributeError("value")
        return SInt(self.e)

    @property
    def real(self):
        return SInt(self.e)

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return SInt(self.e)

    @property
    def denominator(self):
        return 1

    def is_integer(self):
        return True

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        return getattr(self._realize(), n)


class SFloat(Sym):
    """A finite double that is a multiple of 1/8 and below 2**49 in magnitude; `e` is the Int 8*value.
    (nan, infinities, -0.0, huge and tiny values are concrete alternatives chosen by the input generator.)"""

    __slots__ = ()
    _cls = float

    def __init__(self, e):
        self.e = e

    __class__ = property(lambda self: float)

    @staticmethod
    def _c(o):
        t = type(o)
        if t is SFloat:
            return o.e
        if t is float:
            if o != o or o in (float("inf"), float("-inf")):
                return None
            n = o * FLOAT_SCALE
            if n == int(n):
                return z3.IntVal(int(n))
            return None
        c = SInt._c(o)
        return None if c is None else c * FLOAT_SCALE

    def _realize(self):
        return _realize_term(self.e, lambda v: v.as_long(), None) / FLOAT_SCALE

    def __eq__(self, o):
        if type(o) is SVal:
            o = o.resolve()
        c = self._c(o)
        if c is not None:
            return sbool(self.e == c)
        if type(o) is float:
            return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def _ord(self, o, f):
        if type(o) is SVal:
            o = o.resolve()
        c = self._c(o)
        if c is not None:
            return sbool(f(self.e, c))
        if type(o) is float:
            if o != o:
                return False
            if o in (float("inf"), float("-inf")):
                return f(0.0, o)
            return f(self._realize(), o)
        return NotImplemented

    def __lt__(self, o):
        return self._ord(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._ord(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._ord(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._ord(o, lambda a, b: a >= b)

    def __hash__(self):
        return hash(self._realize())

    def __bool__(self):
        return eng().branch(self.e != 0)

    def __float__(self):
        return self._realize()

    def __int__(self):
        return int(self._realize())

    def trunc(self):
        q = z3.IntVal(FLOAT_SCALE)
        return SInt(z3.If(self.e >= 0, self.e / q, -((-self.e) / q)))

    def __trunc__(self):
        return self.trunc()

    def __floor__(self):
        return SInt(self.e / z3.IntVal(FLOAT_SCALE))

    def __ceil__(self):
        return SInt(-((-self.e) / z3.IntVal(FLOAT_SCALE)))

    def __round__(self, n=None):
        return round(self._realize(), n)

    def is_integer(self):
        return sbool(self.e % FLOAT_SCALE == 0)

    def _mod(self, o):
        c = self._c(o)
        if c is not None and z3.is_int_value(z3.simplify(c)) and z3.simplify(c).as_long() > 0:
            return SFloat(self.e % z3.simplify(c))
        return self._realize() % realize(o)

    __mod__ = _mod

    def __floordiv__(self, o):
        return self._realize() // realize(o)

    def __add__(self, o):
        c = self._c(o)
        return SFloat(self.e + c) if c is not None else self._realize() + realize(o)

    __radd__ = __add__

    def __sub__(self, o):
        c = self._c(o)
        return SFloat(self.e - c) if c is not None else self._realize() - realize(o)

    def __rsub__(self, o):
        c = self._c(o)
        return SFloat(c - self.e) if c is not None else realize(o) - self._realize()

    def __mul__(self, o):
        return self._realize() * realize(o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._realize() / realize(o)

    def __neg__(self):
        return SFloat(-self.e)

    def __abs__(self):
        return SFloat(z3.If(self.e < 0, -self.e, self.e))

    @property
    def real(self):
        return self

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        return getattr(self._realize(), n)


def int_to_float(x):
    """float(int): exact below 2**49, OverflowError from 2**1024-2**970, in between outside the bound."""
    if type(x) is SBool:
        x = x._int()
    E = eng()
    if E.branch(z3.And(x.e <= FLOAT_BOUND // FLOAT_SCALE, x.e >= -(FLOAT_BOUND // FLOAT_SCALE))):
        return SFloat(x.e * FLOAT_SCALE)
    big = z3.IntVal(I2F_OVERFLOW)
    if E.branch(z3.Or(x.e >= big, x.e <= -big)):
        raise OverflowError("int too large to convert to float")
    # representative of the middle range
    if E.branch(x.e == 2**53 + 1):
        return float(2**53 + 1)
    E.cut("int-to-float of magnitudes between 2**49 and 2**1024 (one representative kept)")


# -- strings ------------------------------------------------------------------------------------------

_FOLD = {}


def _fold_tables(meth):
    t = _FOLD.get(meth)
    if t is None:
        t = {}
        f = getattr(str, meth)
        for cp in range(0x30000):
            if 0xD800 <= cp < 0xE000:
                continue
            c = chr(cp)
            r = f(c)
            t.setdefault(r, []).append(c)
        _FOLD[meth] = t
    return t


def _fold_regex(const, meth):
    """Regex of the strings s (without multi-character foldings) with s.lower()/upper()/casefold() == const."""
    t = _fold_tables(meth)
    parts = []
    for ch in const:
        opts = t.get(ch, [])
        if not opts:
            return None
        rs = [z3.Re(strval(c)) for c in opts]
        parts.append(z3.Union(*rs) if len(rs) > 1 else rs[0])
    if not parts:
        return z3.Re(strval(""))
    return z3.Concat(*parts) if len(parts) > 1 else parts[0]


class SStr(Sym):
    __slots__ = ("origin",)
    _cls = str

    def __init__(self, e, origin=None):
        self.e = e
        self.origin = origin

    __class__ = property(lambda self: str)

    def const(self):
        c = eng().consts.get(self.e.get_id())
        if c is not None:
            return pystr(c)
        if z3.is_string_value(self.e):
            return pystr(self.e)
        return None

    def _realize(self):
        c = self.const()
        if c is not None:
            return c
        if self.origin is not None:
            kind = self.origin[0]
            if kind in ("int", "float", "bool"):
                return str(realize(self.origin[1]))
        return _realize_term(self.e, pystr, None)

    def __eq__(self, o):
        t = type(o)
        if t is SVal:
            return o.__eq__(self)
        if t is SStr:
            a, b = self.const(), o.const()
            if a is not None and b is not None:
                return a == b
            if a is not None:
                return o == a
            if b is not None:
                o = b
            else:
                if self.e.eq(o.e):
                    return True
                if self.origin is not None and o.origin is not None:
                    k, k2 = self.origin[0], o.origin[0]
                    if k in ("int", "float", "bool") and k2 in ("int", "float", "bool"):
                        return self.origin[1] == o.origin[1] if k == k2 else False
                return sbool(self.e == o.e)
        elif t is not str:
            if t is SFold:
                return o.__eq__(self)
            if not issubclass(t, str):
                return NotImplemented
            o = str(o) if t.__str__ is str.__str__ else str.__str__(o)
        c = self.const()
        if c is not None:
            return c == o
        if self.origin is not None and self.origin[0] in ("int", "float", "bool"):
            k, src = self.origin
            try:
                v = {"int": int, "float": float, "bool": lambda s: {"True": True, "False": False}[s]}[k](o)
            except (ValueError, KeyError):
                return False
            if str(v) != o or o == "-0.0":
                return False
            return src == v
        return sbool(self.e == strval(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def _str_arg(self, o):
        if type(o) is SVal:
            o = o.resolve()
        if type(o) is SStr:
            return o.e
        if isinstance(o, str):
            return strval(str(o))
        return None

    def __lt__(self, o):
        c = self._str_arg(o)
        return NotImplemented if c is None else sbool(self.e < c)

    def __le__(self, o):
        c = self._str_arg(o)
        return NotImplemented if c is None else sbool(self.e <= c)

    def __gt__(self, o):
        c = self._str_arg(o)
        return NotImplemented if c is None else sbool(c < self.e)

    def __ge__(self, o):
        c = self._str_arg(o)
        return NotImplemented if c is None else sbool(c <= self.e)

    def __hash__(self):
        return hash(self._realize())

    def __bool__(self):
        c = self.const()
        if c is not None:
            return bool(c)
        return not eng().branch(self.e == strval(""))

    def __len__(self):
        return len(self._realize())

    def length(self):
        c = self.const()
        return len(c) if c is not None else SInt(z3.Length(self.e))

    def __iter__(self):
        return iter(self._realize())

    def __contains__(self, o):
        c = self._str_arg(o)
        if c is None:
            raise TypeError("'in <string>' requires string as left operand, not " + type(o).__name__)
        k = self.const()
        if k is not None and z3.is_string_value(c):
            return pystr(c) in k
        return eng().branch(z3.Contains(self.e, c))

    def __getitem__(self, i):
        c = self.const()
        if c is not None:
            return c[i]
        if type(i) is int:
            n = z3.Length(self.e)
            if i >= 0:
                if not eng().branch(n > i):
                    raise IndexError("string index out of range")
                return SStr(z3.SubString(self.e, i, 1))
            if not eng().branch(n >= -i):
                raise IndexError("string index out of range")
            return SStr(z3.SubString(self.e, n + i, 1))
        if type(i) is slice and i.step is None and type(i.start) in (int, type(None)) and i.stop is None:
            st = i.start or 0
            if st >= 0:
                return SStr(z3.SubString(self.e, st, z3.Length(self.e)))
        return self._realize()[i]

    def __add__(self, o):
        c = self._str_arg(o)
        return NotImplemented if c is None else SStr(z3.Concat(self.e, c))

    def __radd__(self, o):
        c = self._str_arg(o)
        return NotImplemented if c is None else SStr(z3.Concat(c, self.e))

    def __mod__(self, o):
        return self._realize() % o

    def __mul__(self, o):
        return self._realize() * o

    def startswith(self, p, *a):
        if a or (isinstance(p, tuple) and any(is_sym(x) for x in p)):
            return self._realize().startswith(realize(p), *a)
        if isinstance(p, tuple):
            return or_(*[self.startswith(x) for x in p])
        c = self.const()
        if c is not None and isinstance(p, str) and not is_sym(p):
            return c.startswith(p)
        return sbool(z3.PrefixOf(self._str_arg(p), self.e))

    def endswith(self, p, *a):
        if a or (isinstance(p, tuple) and any(is_sym(x) for x in p)):
            return self._realize().endswith(realize(p), *a)
        if isinstance(p, tuple):
            return or_(*[self.endswith(x) for x in p])
        c = self.const()
        if c is not None and isinstance(p, str) and not is_sym(p):
            return c.endswith(p)
        return sbool(z3.SuffixOf(self._str_arg(p), self.e))

    def lower(self):
        c = self.const()
        return c.lower() if c is not None else SFold(self, ("lower",))

    def upper(self):
        c = self.const()
        return c.upper() if c is not None else SFold(self, ("upper",))

    def casefold(self):
        c = self.const()
        return c.casefold() if c is not None else SFold(self, ("casefold",))

    def strip(self, *a):
        c = self.const()
        if c is not None or a:
            return self._realize().strip(*a)
        return SFold(self, ("strip",))

    def removeprefix(self, p):
        p = realize(p)
        if self.startswith(p):
            return SStr(z3.SubString(self.e, len(p), z3.Length(self.e)))
        return self

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        if not hasattr(str, n):
            raise AttributeError(f"'str' object has no attribute {n!r}")
        r = self._realize()
        return getattr(r, n)


_WS = None


def _ws_star():
    global _WS
    if _WS is None:
        ws = [chr(c) for c in range(0x30000) if chr(c).isspace()]
        _WS = z3.Star(z3.Union(*[z3.Re(strval(c)) for c in ws]))
    return _WS


class SFold(Sym):
    """s.lower() / s.upper() / s.casefold() / s.strip() (and combinations), compared lazily."""

    __slots__ = ("base", "ops")
    _cls = str

    def __init__(self, base, ops):
        self.base = base
        self.ops = ops
        self.e = base.e

    __class__ = property(lambda self: str)

    def _realize(self):
        r = self.base._realize()
        for o in self.ops:
            r = getattr(r, o)()
        return r

    def __eq__(self, o):
        o = realize(o)
        if type(o) is not str:
            return NotImplemented
        folds = [x for x in self.ops if x != "strip"]
        if len(set(folds)) > 1:
            return self._realize() == o
        if folds:
            if getattr(o, folds[0])() != o:
                return False
            r = _fold_regex(o, folds[0])
            if r is None:
                return False
        else:
            r = z3.Re(strval(o))
        if "strip" in self.ops:
            if o.strip() != o:
                return False
            r = z3.Concat(_ws_star(), r, _ws_star())
        return sbool(z3.InRe(self.base.e, r))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __hash__(self):
        return hash(self._realize())

    def __bool__(self):
        return bool(not_(self == ""))

    def lower(self):
        return SFold(self.base, self.ops + ("lower",))

    def upper(self):
        return SFold(self.base, self.ops + ("upper",))

    def casefold(self):
        return SFold(self.base, self.ops + ("casefold",))

    def strip(self, *a):
        if a:
            return self._realize().strip(*a)
        return SFold(self.base, self.ops + ("strip",))

    def __len__(self):
        return len(self._realize())

    def __iter__(self):
        return iter(self._realize())

    def __getitem__(self, i):
        return self._realize()[i]

    def __contains__(self, x):
        return realize(x) in self._realize()

    def __add__(self, o):
        return self._realize() + realize(o)

    def __radd__(self, o):
        return realize(o) + self._realize()

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        return getattr(self._realize(), n)


# int(text) and float(text) are uninterpreted partial functions of the text (so every text is covered); witnesses
# use the samples below.
_I_OK = z3.Function("int_text_ok", z3.StringSort(), z3.BoolSort())
_I_VAL = z3.Function("int_text", z3.StringSort(), z3.IntSort())
_F_KIND = z3.Function("float_text_kind", z3.StringSort(), z3.IntSort())
_F_VAL = z3.Function("float_text", z3.StringSort(), z3.IntSort())
INT_TEXTS = ["0", "5", "-12", "007", " 3", "1_0", "+4", "12345678901234567890", "-0", "42\n", "1", "2", "10", "100"]
NOT_INT_TEXTS = ["x", "", "1.5", "-", "1e3", "0x10", "no", "nan", "True", "1 2", "--1", "a", "b"]
FLOAT_TEXTS = [
    ["x", "", "-", "1,5", "0x1", "no", "a", "b", "True"], ["1.5", "-0.25", "2", "1e3", "0", " 7 ", "-3", "1_0.0", "+4", "5", "10"],
    ["nan", "NaN", "-nan"], ["inf", "Infinity", "1e999"], ["-inf", "-INF"], ["0.1", "1e-1"],
]


def str_to_int(s):
    E = eng()
    c = s.const()
    if c is not None:
        return int(c)
    if s.origin is not None and s.origin[0] == "int":
        return s.origin[1]
    if s.origin is not None and s.origin[0] in ("bool", "float"):
        return int(s._realize())
    if E.branch(_I_OK(s.e)):
        E.opaque_events.append(("int", s.e, _I_VAL(s.e)))
        return SInt(_I_VAL(s.e))
    E.opaque_events.append(("int", s.e, None))
    raise ValueError("invalid literal for int() with base 10: <sym>")


def str_to_float(s):
    E = eng()
    c = s.const()
    if c is not None:
        return float(c)
    if s.origin is not None and s.origin[0] == "float":
        return s.origin[1]
    if s.origin is not None and s.origin[0] in ("int", "bool"):
        return float(s._realize())
    k = _F_KIND(s.e)
    for i, v in ((1, None), (2, float("nan")), (3, float("inf")), (4, float("-inf")), (5, 0.1)):
        if E.branch(k == i):
            E.opaque_events.append(("float", s.e, i, _F_VAL(s.e)))
            if i == 1:
                n = _F_VAL(s.e)
                E.assume(z3.And(n <= FLOAT_BOUND, n >= -FLOAT_BOUND))
                return SFloat(n)
            return v
    E.opaque_events.append(("float", s.e, 0, None))
    raise ValueError("could not convert string to float: <sym>")


def int_to_str(x):
    if type(x) is SBool:
        return SStr(z3.If(x.e, strval("True"), strval("False")), ("bool", x))
    return SStr(z3.If(x.e >= 0, z3.IntToStr(x.e), z3.Concat(strval("-"), z3.IntToStr(-x.e))), ("int", x))


_FSTR = z3.Function("float_str", z3.IntSort(), z3.StringSort())


FSTR_SAMPLES = [0, 8, -8, 12, -20, 1, 16, 24, 800, -7, 8 * 10**6]


def float_to_str(x):
    e = _FSTR(x.e)
    E = eng()
    E.assume(z3.Contains(e, strval(".")))
    E.opaque_events.append(("fstr", x.e, e))
    return SStr(e, ("float", x))


# -- opaque objects -----------------------------------------------------------------------------------


class OpaqueType:
    """A class whose values the code under check only passes around (Decimal, UUID, Path, date, bytes ...)."""

    def __init__(self, name, cls, pool):
        self.name = name
        self.cls = cls
        self.pool = list(pool)
        self.fmts = {}
        self.base = len(self.pool)  # (what a witness may name; the pool grows on demand)

    def index(self, obj):
        for i, p in enumerate(self.pool):
            if type(p) is type(obj) and p == obj and repr(p) == repr(obj):
                return i
        self.pool.append(obj)
        return len(self.pool) - 1

    def fmt(self, name):
        f = self.fmts.get(name)
        if f is None:
            f = self.fmts[name] = z3.Function(f"fmt_{self.name}_{name}", z3.IntSort(), z3.StringSort())
        return f


class SObj(Sym):
    """An arbitrary value of an opaque type; `e` is an Int that names it."""

    __slots__ = ("ot", "pool0")

    def __init__(self, ot, e):
        self.ot = ot
        self.e = e

    __class__ = property(lambda self: self.ot.cls)

    @property
    def _cls(self):
        return self.ot.cls

    def _realize(self):
        E = eng()
        n = len(self.ot.pool)
        for i in range(n):
            if E.branch(self.e == i):
                return self.ot.pool[i]
        E.cut(f"concretised {self.ot.name} outside its sample pool")

    def __eq__(self, o):
        if type(o) is SVal:
            o = o.resolve()
        if type(o) is SObj:
            if o.ot is not self.ot:
                return NotImplemented
            return True if self.e.eq(o.e) else sbool(self.e == o.e)
        if isinstance(o, self.ot.cls) and not is_sym(o):
            return sbool(self.e == self.ot.index(o))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __hash__(self):
        return hash(self._realize())

    def __bool__(self):
        return bool(self._realize())

    def __len__(self):
        return len(self._realize())

    def __iter__(self):
        return iter(self._realize())

    def __getitem__(self, i):
        return self._realize()[i]

    def __lt__(self, o):
        return self._realize() < realize(o)

    def __gt__(self, o):
        return self._realize() > realize(o)

    def __le__(self, o):
        return self._realize() <= realize(o)

    def __ge__(self, o):
        return self._realize() >= realize(o)

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        if not hasattr(self.ot.cls, n):
            raise AttributeError(n)
        return getattr(self._realize(), n)

    def text(self, fmt="str", real=str):
        E = eng()
        e = self.ot.fmt(fmt)(self.e)
        E.opaque_events.append(("fmt", self.ot, self.e, e, real))
        return SStr(e, ("fmt", self.ot, fmt, self))


class SEncoded(Sym):
    """bytes that are the ASCII form of an opaque object (base64 output)."""

    __slots__ = ("obj", "fmtname", "real")
    _cls = bytes

    def __init__(self, obj, fmtname, real):
        self.obj = obj
        self.e = obj.e
        self.fmtname = fmtname
        self.real = real

    __class__ = property(lambda self: bytes)

    def decode(self, encoding="utf-8", errors="strict"):
        return self.obj.text(self.fmtname, self.real)

    def _realize(self):
        return self.real(self.obj._realize()).encode("ascii")

    def __eq__(self, o):
        return self._realize() == realize(o)

    def __hash__(self):
        return hash(self._realize())

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        return getattr(self._realize(), n)


class OpaqueParse:
    """text -> object, known only through: deterministic, may fail with one of `excs`, and inverse of `fmt`."""

    def __init__(self, name, ot, real, excs, good, bad, inverse_of=None, total=False):
        self.name = name
        self.ot = ot
        self.real = real
        self.excs = tuple(excs)
        self.good = list(good)
        self.bad = list(bad)
        self.inverse_of = inverse_of
        self.total = total
        self.funcs = {}

    def _f(self, sort):
        k = str(sort)
        r = self.funcs.get(k)
        if r is None:
            r = self.funcs[k] = (
                z3.Function(f"ok_{self.name}_{k}", sort, z3.BoolSort()),
                z3.Function(f"parse_{self.name}_{k}", sort, z3.IntSort()),
                z3.Function(f"exc_{self.name}_{k}", sort, z3.IntSort()),
            )
        return r

    def __call__(self, s):
        E = eng()
        if type(s) is SFold:
            s = s._realize()
        if type(s) is SStr:
            c = s.const()
            if c is not None:
                s = c
            elif s.origin is not None and s.origin[0] == "fmt" and s.origin[1] is self.ot and (
                s.origin[2] == self.inverse_of
            ):
                return s.origin[3]
        if not is_sym(s):
            return self.real(s)
        ok, parse, exc = self._f(s.e.sort())
        if self.total or E.branch(ok(s.e)):
            E.opaque_events.append(("ok", self, s, parse(s.e)))
            return SObj(self.ot, parse(s.e))
        i = 0
        while i < len(self.excs) - 1 and not E.branch(exc(s.e) == i):
            i += 1
        E.opaque_events.append(("bad", self, s, self.excs[i]))
        raise self.excs[i]("<opaque failure>")


# -- the lazy JSON value ------------------------------------------------------------------------------


class SVal(Sym):
    """A value whose kind is still open; kinds is a list of (label, class, factory)."""

    __slots__ = ("name", "kinds", "val", "done")

    def __init__(self, name, kinds):
        self.name = name
        self.kinds = list(kinds)
        self.done = False
        self.val = None
        self.e = None
        if len(self.kinds) == 1:
            self.resolve()

    @property
    def __class__(self):
        return pytype(self.resolve())

    def resolve(self):
        if not self.done:
            i = eng().choose(len(self.kinds), ("kind", self.name, tuple(k[0] for k in self.kinds)))
            self.kinds = [self.kinds[i]]
            self.val = self.kinds[0][2]()
            self.done = True
        return self.val

    def narrow(self, pred):
        """Fork on whether the kind satisfies *pred(class)*."""
        if self.done:
            return bool(pred(pytype(self.val)))
        yes = [k for k in self.kinds if pred(k[1])]
        if not yes:
            return False
        if len(yes) == len(self.kinds):
            r = True
        else:
            no = [k for k in self.kinds if not pred(k[1])]
            i = eng().choose(2, ("narrow", self.name, tuple(k[0] for k in yes), tuple(k[0] for k in no)))
            self.kinds = yes if i == 0 else no
            r = i == 0
        if len(self.kinds) == 1:
            self.resolve()
        return r

    def _realize(self):
        return realize(self.resolve())

    def __eq__(self, o):
        if o is self:
            r = self.resolve()
            return r == r
        if type(o) is SVal:
            a = self.resolve()
            return o.__eq__(a)
        if not self.done:
            if o is None:
                return self.narrow(lambda c: c is type(None))
            t = pytype(o)
            if t in (bool, int, float) or isinstance(o, (int, float)):
                if not self.narrow(lambda c: issubclass(c, (int, float))):
                    return False
            elif issubclass(t, str):
                if not self.narrow(lambda c: issubclass(c, str)):
                    return False
            elif t in (list, dict, tuple):
                if not self.narrow(lambda c: c is t):
                    return False
        r = self.resolve() == o
        return r

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __hash__(self):
        return hash(self.resolve())

    def __bool__(self):
        return bool(self.resolve())

    def __iter__(self):
        return iter(self.resolve())

    def __len__(self):
        return len(self.resolve())

    def __contains__(self, x):
        return x in self.resolve()

    def __getitem__(self, k):
        from . import hooks

        return hooks.getitem(self.resolve(), k)

    def __setitem__(self, k, v):
        self.resolve()[k] = v

    def __delitem__(self, k):
        del self.resolve()[k]

    def __lt__(self, o):
        return self.resolve() < o

    def __le__(self, o):
        return self.resolve() <= o

    def __gt__(self, o):
        return self.resolve() > o

    def __ge__(self, o):
        return self.resolve() >= o

    def __add__(self, o):
        return self.resolve() + o

    def __radd__(self, o):
        return o + self.resolve()

    def __sub__(self, o):
        return self.resolve() - o

    def __mul__(self, o):
        return self.resolve() * o

    def __mod__(self, o):
        return self.resolve() % o

    def __floordiv__(self, o):
        return self.resolve() // o

    def __or__(self, o):
        return self.resolve() | o

    def __ror__(self, o):
        return o | self.resolve()

    def __neg__(self):
        return -self.resolve()

    def __int__(self):
        return int(self._realize())

    __index__ = __int__

    def __float__(self):
        return float(self._realize())

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        return getattr(self.resolve(), n)


def resolve(x):
    return x.resolve() if type(x) is SVal else x


def pytype(x):
    t = type(x)
    if issubclass(t, Sym):
        if t is SVal:
            return pytype(x.resolve())
        if t is SInt:
            return x.pycls
        return x._cls
    if t is XDict:
        return x.pycls
    if t is XSet:
        return set
    if t is XFrozen:
        return frozenset
    return t


# -- containers ---------------------------------------------------------------------------------------


def norm(k):
    """Replace a proxy that is known to be one value on this path by that value."""
    t = type(k)
    if t is SVal:
        return norm(k.resolve())
    if t is SStr:
        c = k.const()
        return k if c is None else c
    if t is SInt and k.pycls is int:
        c = eng().consts.get(k.e.get_id())
        return k if c is None else c.as_long()
    return k


def symkey(k):
    """Does *k* contain an undetermined scalar?"""
    t = type(k)
    if issubclass(t, Sym):
        return True
    if t is tuple:
        return any(symkey(x) for x in k)
    if t is XFrozen:
        return True
    return False


def hashable_check(k):
    k = resolve(k)
    if type(k) in (list, dict, set, XDict, XSet):
        raise TypeError(f"unhashable type: '{pytype(k).__name__}'")
    if type(k) is tuple:
        for x in k:
            hashable_check(x)
    elif not is_sym(k) and type(k) is not XFrozen:
        hash(k)


def keyeq(a, b):
    if a is b:
        return True
    r = a == b
    return bool(r)


_MISSING = object()


class XDict(dict):
    """dict that also admits symbolic keys (then it is an ordered association list in `sym`)."""

    __slots__ = ("sym", "pycls")

    def __init__(self, *a, **kw):
        self.sym = None
        self.pycls = dict  # the class this dictionary is an instance of (dict or OrderedDict)
        dict.__init__(self)
        if a:
            self.update(a[0])
        if kw:
            self.update(kw)

    def _go_sym(self):
        if self.sym is None:
            self.sym = [[k, v] for k, v in dict.items(self)]
            dict.clear(self)

    def _find(self, key):
        for i, kv in enumerate(self.sym):
            if keyeq(norm(kv[0]), key):
                return i
        return None

    def _get(self, key, default=_MISSING):
        key = norm(key)
        if self.sym is None:
            if not symkey(key):
                return dict.get(self, key, default)
            hashable_check(key)
            for k, v in dict.items(self):
                if keyeq(k, key):
                    return v
            return default
        hashable_check(key)
        i = self._find(key)
        return default if i is None else self.sym[i][1]

    def __getitem__(self, key):
        r = self._get(key)
        if r is _MISSING:
            raise KeyError(key)
        return r

    def get(self, key, default=None):
        return self._get(key, default)

    def __contains__(self, key):
        return self._get(key) is not _MISSING

    def __setitem__(self, key, value):
        key = norm(key)
        if self.sym is None:
            if not symkey(key):
                dict.__setitem__(self, key, value)
                return
            hashable_check(key)
            for k in list(dict.keys(self)):
                if keyeq(k, key):
                    dict.__setitem__(self, k, value)
                    return
            self._go_sym()
            self.sym.append([key, value])
            return
        hashable_check(key)
        i = self._find(key)
        if i is None:
            self.sym.append([key, value])
        else:
            self.sym[i][1] = value

    def setdefault(self, key, default=None):
        r = self._get(key)
        if r is _MISSING:
            self[key] = default
            return default
        return r

    def pop(self, key, *default):
        key = norm(key)
        if self.sym is None:
            if not symkey(key):
                return dict.pop(self, key, *default)
            for k in list(dict.keys(self)):
                if keyeq(k, key):
                    return dict.pop(self, k)
        else:
            i = self._find(key)
            if i is not None:
                return self.sym.pop(i)[1]
        if default:
            return default[0]
        raise KeyError(key)

    def __delitem__(self, key):
        self.pop(key)

    def move_to_end(self, key, last=True):
        v = self.pop(key)
        if last:
            self[key] = v
        else:
            rest = list(self.items())
            self.clear()
            self[key] = v
            self.update(rest)

    def popitem(self):
        if self.sym is None:
            return dict.popitem(self)
        if not self.sym:
            raise KeyError("popitem(): dictionary is empty")
        return tuple(self.sym.pop())

    def clear(self):
        self.sym = None
        dict.clear(self)

    def copy(self):
        r = XDict(self)
        r.pycls = self.pycls
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy

        r = XDict()
        r.pycls = self.pycls
        memo[id(self)] = r
        for k, v in self.items():
            r[copy.deepcopy(k, memo)] = copy.deepcopy(v, memo)
        return r

    def __reduce_ex__(self, proto):
        return (XDict, (), None, None, iter(list(self.items())))

    def update(self, *a, **kw):
        for src in a:
            src = resolve(src)
            if hasattr(src, "keys"):
                for k in src.keys():
                    self[k] = src[k]
            else:
                for k, v in src:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def __len__(self):
        return dict.__len__(self) if self.sym is None else len(self.sym)

    def __bool__(self):
        return len(self) != 0

    def __iter__(self):
        if self.sym is None:
            return dict.__iter__(self)
        return iter([kv[0] for kv in self.sym])

    def __reversed__(self):
        return iter(list(self)[::-1])

    def keys(self):
        return XKeys(self)

    def values(self):
        return dict.values(self) if self.sym is None else [kv[1] for kv in self.sym]

    def items(self):
        if self.sym is None:
            return dict.items(self)
        return XItems(self)

    def __eq__(self, o):
        o = resolve(o)
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        from . import hooks

        for k, v in self.items():
            if type(o) is XDict:
                w = o._get(k)
            else:
                w = hooks.dict_get(o, k, _MISSING)
            if w is _MISSING:
                return False
            if v is not w and not (v == w):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __or__(self, o):
        r = XDict(self)
        r.update(o)
        return r

    def __ror__(self, o):
        r = XDict(o)
        r.update(self)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __repr__(self):
        if self.sym is None:
            return dict.__repr__(self)
        return "{" + ", ".join(f"{k!r}: {v!r}" for k, v in self.sym) + "}"

    @classmethod
    def fromkeys(cls, it, v=None):
        r = XDict()
        for k in it:
            r[k] = v
        return r


class XItems:
    def __init__(self, d):
        self.d = d

    def __iter__(self):
        return iter([tuple(kv) for kv in self.d.sym]) if self.d.sym is not None else iter(dict.items(self.d))

    def __len__(self):
        return len(self.d)

    def __reversed__(self):
        return iter(list(self)[::-1])


class XKeys:
    def __init__(self, d):
        self.d = d

    __class__ = property(lambda self: type({}.keys()))

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __contains__(self, k):
        return k in self.d

    def __reversed__(self):
        return iter(list(self)[::-1])

    def _set(self):
        return XSet(self)

    def __sub__(self, o):
        return self._set() - XSet(o)

    def __rsub__(self, o):
        return XSet(o) - self._set()

    def __and__(self, o):
        return self._set() & XSet(o)

    __rand__ = __and__

    def __or__(self, o):
        return self._set() | XSet(o)

    __ror__ = __or__

    def __xor__(self, o):
        return self._set() ^ XSet(o)

    __rxor__ = __xor__

    def isdisjoint(self, o):
        return self._set().isdisjoint(o)

    def __eq__(self, o):
        return self._set() == o

    def __ne__(self, o):
        return not (self._set() == o)

    def __le__(self, o):
        return self._set() <= o

    def __lt__(self, o):
        return self._set() < o

    def __ge__(self, o):
        return self._set() >= o

    def __gt__(self, o):
        return self._set() > o

    __hash__ = None

    def __repr__(self):
        return f"dict_keys({list(self)!r})"

    @property
    def mapping(self):
        return self.d


def _is_setlike(o):
    return isinstance(o, (set, frozenset)) or type(o) is XKeys or isinstance(o, type({}.keys()))


class XSet(set):
    """set that also admits symbolic elements."""

    __slots__ = ("sym",)

    def __init__(self, it=()):
        self.sym = None
        set.__init__(self)
        for x in resolve(it):
            self.add(x)

    def _go_sym(self):
        if self.sym is None:
            self.sym = list(set.__iter__(self))
            set.clear(self)

    def _elems(self):
        return list(set.__iter__(self)) if self.sym is None else list(self.sym)

    def add(self, x):
        x = norm(x)
        if self.sym is None and not symkey(x):
            set.add(self, x)
            return
        hashable_check(x)
        for y in self._elems():
            if keyeq(norm(y), x):
                return
        self._go_sym()
        self.sym.append(x)

    def __contains__(self, x):
        x = norm(x)
        if self.sym is None and not symkey(x):
            return set.__contains__(self, x)
        hashable_check(x)
        for y in self._elems():
            if keyeq(norm(y), x):
                return True
        return False

    def discard(self, x):
        x = norm(x)
        if self.sym is None and not symkey(x):
            set.discard(self, x)
            return
        for i, y in enumerate(self._elems()):
            if keyeq(norm(y), x):
                if self.sym is None:
                    set.discard(self, y)
                else:
                    del self.sym[i]
                return

    def remove(self, x):
        n = len(self)
        self.discard(x)
        if len(self) == n:
            raise KeyError(x)

    def pop(self):
        if self.sym is None:
            return set.pop(self)
        if not self.sym:
            raise KeyError("pop from an empty set")
        return self.sym.pop(0)

    def clear(self):
        self.sym = None
        set.clear(self)

    def copy(self):
        return XSet(self)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return XSet(self)

    def __len__(self):
        return set.__len__(self) if self.sym is None else len(self.sym)

    def __bool__(self):
        return len(self) != 0

    def __iter__(self):
        return set.__iter__(self) if self.sym is None else iter(list(self.sym))

    def update(self, *its):
        for it in its:
            for x in resolve(it):
                self.add(x)

    def difference(self, *its):
        r = XSet()
        for x in self:
            if not any(_in(x, it) for it in its):
                r.add(x)
        return r

    def intersection(self, *its):
        r = XSet()
        for x in self:
            if all(_in(x, it) for it in its):
                r.add(x)
        return r

    def union(self, *its):
        r = XSet(self)
        r.update(*its)
        return r

    def symmetric_difference(self, it):
        o = XSet(it)
        return (self - o) | (o - self)

    def difference_update(self, *its):
        for it in its:
            for x in list(resolve(it)):
                self.discard(x)

    def intersection_update(self, *its):
        r = self.intersection(*its)
        self.clear()
        self.update(r)

    def isdisjoint(self, it):
        return not any(x in self for x in resolve(it))

    def issubset(self, it):
        return all(_in(x, it) for x in self)

    def issuperset(self, it):
        return all(x in self for x in resolve(it))

    def __sub__(self, o):
        return self.difference(o) if _is_setlike(o) else NotImplemented

    def __rsub__(self, o):
        return XSet(o).difference(self) if _is_setlike(o) else NotImplemented

    def __and__(self, o):
        return self.intersection(o) if _is_setlike(o) else NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        return self.union(o) if _is_setlike(o) else NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        return self.symmetric_difference(o) if _is_setlike(o) else NotImplemented

    __rxor__ = __xor__

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        o = resolve(o)
        if not _is_setlike(o):
            return NotImplemented
        return len(self) == len(o) and all(_in(x, o) for x in self)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __le__(self, o):
        return len(self) <= len(o) and self.issubset(o)

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    __hash__ = None

    def __repr__(self):
        return "{" + ", ".join(repr(x) for x in self) + "}" if len(self) else "set()"


def _in(x, it):
    from . import hooks

    return hooks.contains(it, x)


class XFrozen(frozenset):
    __slots__ = ("sym",)

    def __new__(cls, it=()):
        tmp = XSet(it)
        if tmp.sym is None:
            return frozenset(tmp)
        self = frozenset.__new__(cls)
        self.sym = tmp
        return self

    def __init__(self, it=()):
        pass

    def __iter__(self):
        return iter(self.sym)

    def __len__(self):
        return len(self.sym)

    def __contains__(self, x):
        return x in self.sym

    def __eq__(self, o):
        return self.sym == o

    def __ne__(self, o):
        return self.sym != o

    def __hash__(self):
        return hash(frozenset(realize(x) for x in self.sym))

    def __repr__(self):
        return f"frozenset({self.sym!r})"

    def _bin(op):
        def f(self, o):
            r = getattr(self.sym, op)(o)
            return XFrozen(r) if isinstance(r, set) else r

        return f

    for _op in ("__sub__", "__and__", "__or__", "__xor__", "__rsub__", "__rand__", "__ror__", "__rxor__", "__le__",
                "__lt__", "__ge__", "__gt__", "issubset", "issuperset", "isdisjoint"):
        locals()[_op] = _bin(_op)
    del _op
