"""What the instrumented source calls instead of the plain operation (see instrument.py).

`call` routes the built-ins the code under check uses to models that accept symbolic values; everything
else is called as it is.  C code that cannot take a proxy gets concrete values (realize), which forks over
the values the solver proposes.
"""

import base64
import binascii
import builtins
import collections
import copy
import dataclasses
import enum
import functools
import itertools
import json
import math
import operator
import types

import z3

from . import engine as _eng
from .values import (
    OpaqueParse, SBool, SEncoded, SFloat, SFold, SInt, SObj, SStr, SVal, Sym, XDict, XFrozen, XItems, XKeys, XSet,
    _MISSING, and_, eng, float_to_str, hashable_check, int_to_float, int_to_str, is_sym, keyeq, norm, not_, or_,
    pytype, realize, resolve, sbool, str_to_float, str_to_int, strval, symkey,
)

PROXY_CONTAINERS = (XDict, XSet, XFrozen, XKeys, XItems)


def has_sym(x):
    t = type(x)
    if issubclass(t, Sym):
        return True
    if t is XDict or t is XSet:
        return x.sym is not None
    if t is XFrozen:
        return True
    if t in (tuple, list):
        for y in x:
            if issubclass(type(y), Sym):
                return True
    return False


def deep_realize(x, depth=0):
    t = type(x)
    if issubclass(t, Sym):
        x = realize(x)
        t = type(x)
    if t in (XDict, dict):
        r = {deep_realize(k): deep_realize(v) for k, v in x.items()}
        return collections.OrderedDict(r) if t is XDict and x.pycls is collections.OrderedDict else r
    if t is list:
        return [deep_realize(y) for y in x]
    if t is tuple:
        return tuple(deep_realize(y) for y in x)
    if t in (XSet, set):
        return {deep_realize(y) for y in x}
    if t in (XFrozen, frozenset):
        return frozenset(deep_realize(y) for y in x)
    if t is XKeys:
        return dict.fromkeys(deep_realize(y) for y in x).keys()
    return x


# -- statements ---------------------------------------------------------------------------------------


def is_(a, b):
    if type(a) is SVal or type(b) is SVal:
        if type(b) is SVal and type(a) is not SVal:
            a, b = b, a
        if a is b:
            return True
        if b is None:
            return a.narrow(lambda c: c is type(None))
        if type(b) is bool:
            if not a.narrow(lambda c: c is bool):
                return False
            return bool(resolve(a) == b)
        return resolve(a) is resolve(b)
    if type(a) is SBool and type(b) is bool:
        return bool(a == b)
    if type(b) is SBool and type(a) is bool:
        return bool(a == b)
    if type(a) is SInt and a.pycls is not int:
        return bool(a == b)
    if type(b) is SInt and b.pycls is not int:
        return bool(a == b)
    return a is b


def is_not(a, b):
    return not is_(a, b)


_DICT_VIEWS = (type({}.keys()), type({}.items()), type({}.values()))


def contains(c, x):
    c = resolve(c)
    tc = type(c)
    if tc in (XDict, XSet, XFrozen, XKeys):
        return x in c
    if tc in (dict, set, frozenset, types.MappingProxyType, type({}.keys())) or (
        isinstance(c, (dict, set, frozenset)) and tc.__contains__ in (dict.__contains__, set.__contains__)
    ):
        x = norm(x)
        if symkey(x):
            hashable_check(x)
            return any(keyeq(k, x) for k in list(c))
        return x in c
    if tc is str:
        x = resolve(x)
        if type(x) is SStr:
            k = x.const()
            if k is not None:
                return k in c
            return eng().branch(z3.Contains(strval(c), x.e))
        if is_sym(x) and pytype(x) is not str:
            raise TypeError(f"'in <string>' requires string as left operand, not {pytype(x).__name__}")
        return realize(x) in c
    if issubclass(tc, Sym):
        if pytype(c) in (int, float, bool, type(None)):
            raise TypeError(f"argument of type '{pytype(c).__name__}' is not iterable")
        return x in c
    if tc is enum.EnumMeta and is_sym(x):
        return any(keyeq(m.value, x) for m in c)
    return x in c


def not_contains(c, x):
    return not contains(c, x)


def dict_get(d, key, default):
    key = norm(key)
    if symkey(key):
        hashable_check(key)
        for k in list(d):
            if keyeq(k, key):
                return d[k]
        return default
    try:
        return d[key]
    except KeyError:
        return default


def getitem(o, k):
    o = resolve(o)
    to = type(o)
    if to is XDict:
        return o[k]
    if has_sym(k) or type(k) is XFrozen:
        k = norm(k)
        if isinstance(o, (dict, types.MappingProxyType)):
            r = dict_get(o, k, _MISSING)
            if r is _MISSING:
                if hasattr(to, "__missing__"):
                    return o[realize(k)]
                raise KeyError(k)
            return r
        if isinstance(o, enum.EnumMeta):
            if pytype(k) is str:
                for n, m in o.__members__.items():
                    if keyeq(n, k):
                        return m
            raise KeyError(k)
        if issubclass(to, Sym):
            if pytype(o) in (int, float, bool, type(None)):
                raise TypeError(f"'{pytype(o).__name__}' object is not subscriptable")
            return o[k]
        if isinstance(o, (list, tuple, str, bytes)):
            if pytype(k) not in (int, bool, slice):
                raise TypeError(f"{to.__name__} indices must be integers or slices, not {pytype(k).__name__}")
            if type(k) is SInt:
                n = len(o)
                for i in range(n):
                    if keyeq(k, i):
                        return o[i]
                for i in range(1, n + 1):
                    if keyeq(k, -i):
                        return o[-i]
                raise IndexError(f"{to.__name__} index out of range")
            return o[realize(k)]
    elif issubclass(to, Sym) and pytype(o) in (int, float, bool, type(None)):
        raise TypeError(f"'{pytype(o).__name__}' object is not subscriptable")
    return o[k]


def iter_(x):
    x = resolve(x)
    if issubclass(type(x), Sym):
        if not hasattr(pytype(x), "__iter__"):
            raise TypeError(f"'{pytype(x).__name__}' object is not iterable")
    return x


def match_(x, exact=False):
    """The subject of a match statement: of a known kind, and so are the items of a display."""
    if type(x) in (tuple, list):
        return type(x)(match_(v, exact) for v in x)
    x = resolve(x)
    return bool(x) if exact and isinstance(x, SBool) else x


def fstr(parts):
    """parts: str constants or (value, conversion, format spec)"""
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        v, conv, spec = p
        v = resolve(v)
        if type(v) in (SStr, SFold) and conv in (-1, 115) and not spec:
            c = v.const() if type(v) is SStr else None
            out.append(v if c is None else c)
        elif type(v) in (SInt, SBool) and conv in (-1, 115) and not spec:
            out.append(SInt.__str__(v) if type(v) is SInt and v.pycls is not int else int_to_str(v))
        elif is_sym(v):
            out.append(_placeholder(v, conv))
        else:
            if conv == 114:
                v = repr(v)
            elif conv == 115:
                v = str(v)
            elif conv == 97:
                v = ascii(v)
            out.append(format(v, spec))
    return concat(out)


def _placeholder(v, conv):
    return "<sym>"


def concat(parts):
    if not any(is_sym(p) for p in parts):
        return "".join(parts)
    merged = []
    for p in parts:
        if type(p) is SFold:
            p = p._realize()
        if merged and type(p) is str and type(merged[-1]) is str:
            merged[-1] += p
        elif type(p) is not str or p:
            merged.append(p)
    if len(merged) == 1:
        return merged[0]
    es = [p.e if is_sym(p) else strval(p) for p in merged]
    return SStr(z3.Concat(*es))


def mkdict(*items):
    """items: (k, v) pairs; a 1-tuple is a ** expansion"""
    d = XDict()
    for it in items:
        if len(it) == 1:
            d.update(it[0])
        else:
            d[it[0]] = it[1]
    return d


def mkdict_iter(it):
    d = XDict()
    for k, v in it:
        d[k] = v
    return d


def mkset(*items):
    s = XSet()
    for it in items:
        if type(it) is Star:
            s.update(it.x)
        else:
            s.add(it)
    return s


class Star:
    def __init__(self, x):
        self.x = x


def mkset_iter(it):
    return XSet(it)


def binop(op, a, b):
    a, b = resolve(a), resolve(b)
    if isinstance(a, (set, frozenset)) or type(a) in _DICT_VIEWS or type(a) is XKeys:
        if type(b) in (XSet, XFrozen, XKeys) or any(symkey(x) for x in a):
            if type(a) not in (XSet, XKeys, XFrozen):
                a = XSet(a)
    return op(a, b)


OPS = {"Sub": operator.sub, "BitAnd": operator.and_, "BitOr": operator.or_, "BitXor": operator.xor}


# -- models of built-ins ------------------------------------------------------------------------------


def _isinstance(x, cls):
    if type(x) is SVal and not x.done:
        return x.narrow(lambda c: issubclass(c, cls))
    x = resolve(x)
    if issubclass(type(x), Sym) or (type(x) is XDict and x.pycls is not dict):
        return issubclass(pytype(x), cls)
    return isinstance(x, cls)


def _type(*a, **k):
    if len(a) == 1 and not k:
        return pytype(a[0])
    return type(*a, **k)


def _len(x):
    x = resolve(x)
    if type(x) is SStr:
        return x.length()
    if issubclass(type(x), Sym) and not hasattr(pytype(x), "__len__"):
        raise TypeError(f"object of type '{pytype(x).__name__}' has no len()")
    return len(x)


def _str(*a, **k):
    if len(a) == 1 and not k:
        x = resolve(a[0])
        t = type(x)
        if t is SStr or t is SFold:
            return x
        if t is SInt:
            return int_to_str(x) if x.pycls is int else str(realize(x))
        if t is SBool:
            return int_to_str(x)
        if t is SFloat:
            return float_to_str(x)
        if t is SObj:
            return x.text("str", str)
        if t is SEncoded:
            return str(realize(x))
        m = t.__str__
        if type(m) is types.FunctionType and not issubclass(t, BaseException):
            r = m(x)  # (may be symbolic)
            if type(r) is SStr or type(r) is SFold:
                return r
            if not isinstance(r, str):
                raise TypeError(f"__str__ returned non-string (type {type(r).__name__})")
            return r
        return str(x)
    if a and type(a[0]) is SEncoded:
        return a[0].decode(*a[1:], **k)
    return str(*[realize(x) for x in a], **k)


def _repr(x):
    x = resolve(x)
    if is_sym(x):
        return "<sym>"
    return repr(x)


def _int(*a, **k):
    if len(a) == 1 and not k:
        x = resolve(a[0])
        t = type(x)
        if t is SInt:
            return SInt(x.e)
        if t is SBool:
            return x._int()
        if t is SFloat:
            return x.trunc()
        if t is SStr:
            return str_to_int(x)
        if is_sym(x):
            x = realize(x)
        return int(x)
    if not a:
        return int(**k)
    return int(*[realize(x) for x in a], **k)


def _float(*a):
    if a:
        x = resolve(a[0])
        t = type(x)
        if t is SFloat:
            return x
        if t is SInt or t is SBool:
            return int_to_float(x)
        if t is SStr:
            return str_to_float(x)
        if is_sym(x):
            x = realize(x)
        return float(x)
    return float()


def _bool(*a):
    if a:
        x = resolve(a[0])
        if type(x) is SBool:
            return x
        if type(x) in (SInt, SFloat):
            return sbool(x.e != 0)
        return bool(x)
    return False


def _dict(*a, **k):
    d = XDict()
    if a:
        d.update(resolve(a[0]))
    d.update(k)
    return d


def _set(*a):
    return XSet(iter_(a[0])) if a else XSet()


def _frozenset(*a):
    return XFrozen(iter_(a[0])) if a else frozenset()


def _list(*a):
    return list(iter_(a[0])) if a else []


def _tuple(*a):
    return tuple(iter_(a[0])) if a else ()


def _hash(x):
    return hash(x)


def _getattr(o, n, *d):
    return getattr(resolve(o), realize(n) if is_sym(n) else n, *d)


def _hasattr(o, n):
    return hasattr(resolve(o), realize(n) if is_sym(n) else n)


def _round(x, *a, **k):
    return round(resolve(x), *a, **k)


def _abs(x):
    return abs(resolve(x))


def _callable_wrap(f):
    """A Python-level callable that goes through `call` (for map(str, ...), sorted(key=len) ...)."""
    if f is None or isinstance(f, types.FunctionType):
        return f
    return functools.partial(call, f)


def _map(f, *its):
    return map(_callable_wrap(f), *[iter_(i) for i in its])


def _filter(f, it):
    return filter(_callable_wrap(f), iter_(it))


def _sorted(it, *, key=None, reverse=False):
    return sorted(iter_(it), key=_callable_wrap(key), reverse=reverse)


def _minmax(f):
    def g(*a, **k):
        if "key" in k:
            k["key"] = _callable_wrap(k["key"])
        if len(a) == 1:
            a = (iter_(a[0]),)
        return f(*a, **k)

    return g


def _all(it):
    for x in iter_(it):
        if not x:
            return False
    return True


def _any(it):
    for x in iter_(it):
        if x:
            return True
    return False


def _pass_resolved(f):
    def g(*a, **k):
        return f(*[iter_(x) if type(x) is SVal else x for x in a], **k)

    return g


def _isnan(x):
    x = resolve(x)
    if type(x) in (SFloat, SInt, SBool):
        return False
    return math.isnan(realize(x))


def _isinf(x):
    x = resolve(x)
    if type(x) in (SFloat, SInt, SBool):
        return False
    return math.isinf(realize(x))


def _isfinite(x):
    x = resolve(x)
    if type(x) in (SFloat, SInt, SBool):
        return True
    return math.isfinite(realize(x))


def _trunc(x):
    x = resolve(x)
    return x.trunc() if type(x) is SFloat else math.trunc(x)


def _floor(x):
    x = resolve(x)
    return x.__floor__() if type(x) in (SFloat, SInt) else math.floor(x)


def _ceil(x):
    x = resolve(x)
    return x.__ceil__() if type(x) in (SFloat, SInt) else math.ceil(x)


def _modf(x):
    x = resolve(x)
    if type(x) is SFloat:
        i = SFloat(x.trunc().e * 8)
        return (SFloat(x.e - i.e), i)
    return math.modf(realize(x))


def _fmod(x, y):
    x = resolve(x)
    if type(x) is SFloat and y == 1:
        return _modf(x)[0]
    return math.fmod(realize(x), realize(y))


def _issubclass(a, b):
    a = {XDict: dict, XSet: set, XFrozen: frozenset}.get(a, a) if isinstance(a, type) else a
    return issubclass(a, b)


def _deepcopy(x, *a):
    return copy.deepcopy(resolve(x), *a)


def _copy(x):
    return copy.copy(resolve(x))


def _join_contains(f):
    return f


# -- opaque functions ---------------------------------------------------------------------------------

OPAQUE_CALLS = {}  # id(callable) -> OpaqueParse or function
OPAQUE_METHODS = []  # (predicate(self), method name) -> handler


def register_opaque(f, handler):
    OPAQUE_CALLS[id(f)] = (f, handler)


# -- call ---------------------------------------------------------------------------------------------

SPECIAL = {}


def special(f, h):
    SPECIAL[id(f)] = h


for _f, _h in [
    (isinstance, _isinstance), (type, _type), (len, _len), (str, _str), (repr, _repr), (int, _int),
    (float, _float), (bool, _bool), (dict, _dict), (set, _set), (frozenset, _frozenset), (list, _list),
    (tuple, _tuple), (hash, _hash), (getattr, _getattr), (hasattr, _hasattr), (round, _round), (abs, _abs),
    (map, _map), (filter, _filter), (sorted, _sorted), (max, _minmax(max)), (min, _minmax(min)), (all, _all),
    (any, _any), (enumerate, _pass_resolved(enumerate)), (zip, _pass_resolved(zip)), (iter, _pass_resolved(iter)),
    (reversed, _pass_resolved(reversed)), (sum, _pass_resolved(sum)), (next, _pass_resolved(next)),
    (math.isnan, _isnan), (math.isinf, _isinf), (math.isfinite, _isfinite), (math.trunc, _trunc),
    (math.floor, _floor), (math.ceil, _ceil), (math.modf, _modf), (math.fmod, _fmod), (issubclass, _issubclass),
    (copy.deepcopy, _deepcopy), (copy.copy, _copy), (dict.fromkeys, XDict.fromkeys),
]:
    special(_f, _h)

_PASS_BUILTINS = {
    id(f)
    for f in (
        id, callable, print, setattr, delattr, vars, dir, object.__setattr__, itertools.chain.from_iterable, globals,
        locals, super, builtins.__import__,
    )
}
_PASS_TYPES = {
    id(t)
    for t in (
        enumerate, zip, map, filter, reversed, list, tuple, slice, property, staticmethod, classmethod, super, object,
        functools.partial, types.SimpleNamespace, itertools.chain, itertools.islice, itertools.repeat, itertools.count,
        itertools.takewhile, itertools.dropwhile, itertools.starmap, itertools.zip_longest, itertools.cycle,
        itertools.tee, itertools.product, types.MappingProxyType, collections.deque, type, types.GenericAlias,
        itertools.filterfalse, itertools.accumulate, itertools.groupby, itertools.compress,
    )
}


def _str_method(s, name, a, k):
    """A method of a real str called with symbolic arguments."""
    if name == "join" and len(a) == 1:
        parts = list(iter_(a[0]))
        out = []
        for i, p in enumerate(parts):
            p = resolve(p)
            if not issubclass(pytype(p), str):
                raise TypeError(f"sequence item {i}: expected str instance, {pytype(p).__name__} found")
            if i:
                out.append(s)
            out.append(p)
        return concat(out) if out else ""
    if name == "startswith" and len(a) == 1 and type(a[0]) is SStr:
        return sbool(z3.PrefixOf(a[0].e, strval(s)))
    if name == "endswith" and len(a) == 1 and type(a[0]) is SStr:
        return sbool(z3.SuffixOf(a[0].e, strval(s)))
    if name == "format" or name == "__mod__":
        return getattr(s, name)(*[("<sym>" if is_sym(x) else x) for x in a], **k)
    if name == "__eq__" and len(a) == 1:
        return a[0] == s
    if name == "__contains__":
        return contains(s, a[0])
    return getattr(s, name)(*[realize(x) for x in a], **{n: realize(x) for n, x in k.items()})


def _dict_method(d, name, a, k, f):
    if name == "get":
        return dict_get(d, a[0], a[1] if len(a) > 1 else k.get("default"))
    if name == "__getitem__":
        return getitem(d, a[0])
    if name == "__contains__":
        return contains(d, a[0])
    if name in ("pop", "setdefault"):
        key = norm(a[0])
        if symkey(key):
            for x in list(d):
                if keyeq(x, key):
                    return f(x, *a[1:])
            if name == "pop":
                if len(a) > 1:
                    return a[1]
                raise KeyError(key)
            return f(realize(key), *a[1:])
        return f(key, *a[1:])
    if name == "update":
        for x in a:
            x = resolve(x)
            for kk, v in (x.items() if hasattr(x, "items") else x):
                d[norm(kk)] = v
        for kk, v in k.items():
            d[kk] = v
        return None
    return f(*a, **k)


def _set_method(s, name, a, k, f):
    if name in ("add", "discard", "remove", "__contains__"):
        if name == "__contains__":
            return contains(s, a[0])
        x = norm(a[0])
        if symkey(x):
            for y in list(s):
                if keyeq(y, x):
                    return f(y)
            if name == "discard":
                return None
            return f(realize(x))
        return f(x)
    r = getattr(XSet(s), name)(*a, **k)
    return r


_PLAIN = (types.FunctionType, types.MethodType)


def call(f, /, *a, **k):
    h = SPECIAL.get(id(f))
    if h is not None:
        return h(*a, **k)
    o = OPAQUE_CALLS.get(id(f))
    if o is not None and any(issubclass(type(x), Sym) for x in a):
        return o[1](*[resolve(x) for x in a], **k)
    tf = type(f)
    if tf is types.FunctionType:
        return f(*a, **k)
    if tf is types.MethodType:
        if a and issubclass(type(a[0]), Sym):
            o = OPAQUE_CALLS.get(id(f.__func__))
            if o is not None:
                return o[1](f.__self__, *[resolve(x) for x in a], **k)
            for pred, hh in OPAQUE_METHODS:
                if pred(f.__self__, f.__name__):
                    return hh(f.__self__, f.__name__, *[resolve(x) for x in a], **k)
        return f(*a, **k)
    if tf is types.BuiltinFunctionType or tf is types.MethodWrapperType:
        return _builtin_call(f, a, k)
    if isinstance(f, type):
        if a or k:
            return _type_call(f, a, k)
        return f()
    if tf is types.MethodDescriptorType or tf is types.ClassMethodDescriptorType or tf is types.WrapperDescriptorType:
        # str.lower(x), dict.get(d, k), object.__setattr__(o, n, v)
        if a:
            self = resolve(a[0])
            if issubclass(type(self), Sym) or type(self) in PROXY_CONTAINERS or any(has_sym(x) for x in a[1:]):
                if f.__objclass__ is object:
                    return f(*a, **k)
                return call(getattr(self, f.__name__), *a[1:], **k)
        return f(*a, **k)
    return f(*a, **k)


def _builtin_call(f, a, k):
    s = getattr(f, "__self__", None)
    ts = type(s)
    if id(f) in _PASS_BUILTINS:
        return f(*a, **k)
    if s is not None and ts is not types.ModuleType:
        if not any(has_sym(x) or type(x) in PROXY_CONTAINERS for x in a) and not k:
            if ts is str and f.__name__ == "join":
                return _str_method(s, "join", a, k)
            return f(*a)
        n = f.__name__
        if ts is str:
            return _str_method(s, n, a, k)
        if isinstance(s, (dict, types.MappingProxyType)) and ts is not XDict:
            return _dict_method(s, n, a, k, f)
        if isinstance(s, (set, frozenset)) and ts not in (XSet, XFrozen):
            return _set_method(s, n, a, k, f)
        if isinstance(s, (list, tuple)) or ts in (types.GeneratorType, collections.deque):
            if n in ("extend", "__iadd__"):
                a = tuple(iter_(x) for x in a)
            return f(*a, **k)
        if ts in (XDict, XSet):
            return f(*a, **k)
        if isinstance(s, type) or ts in (object,):
            return f(*a, **k)
        if isinstance(s, BaseException):
            return f(*a, **k)
        for pred, hh in OPAQUE_METHODS:
            if pred(s, n):
                return hh(s, n, *[resolve(x) for x in a], **k)
        return f(*[deep_realize(x) for x in a], **{n: deep_realize(x) for n, x in k.items()})
    if any(has_sym(x) or type(x) in PROXY_CONTAINERS for x in a) or any(
        has_sym(x) or type(x) in PROXY_CONTAINERS for x in k.values()
    ):
        mod = getattr(f, "__module__", None)
        if mod in ("_operator", "operator"):
            n = f.__name__
            if n in ("contains",):
                return contains(a[0], a[1])
            if n == "getitem":
                return getitem(a[0], a[1])
            if n == "is_":
                return is_(a[0], a[1])
            return f(*[resolve(x) for x in a])
        if mod in ("_functools", "functools", "itertools", "_thread", "_abc", "_weakref", "gc"):
            return f(*a, **k)
        return f(*[deep_realize(x) for x in a], **{n: deep_realize(x) for n, x in k.items()})
    return f(*a, **k)


_HEAP = 1 << 9  # Py_TPFLAGS_HEAPTYPE


def _type_call(f, a, k):
    if id(f) in _PASS_TYPES:
        return f(*[resolve(x) if type(x) is SVal else x for x in a], **k)
    if isinstance(f, enum.EnumMeta) and len(a) == 1 and not k:
        x = norm(a[0])
        if is_sym(x):
            for m in f:
                if keyeq(m.value, x):
                    return m
            raise ValueError(f"<sym> is not a valid {f.__qualname__}")
        return f(x)
    if issubclass(f, BaseException):
        return f(*a, **k)
    if f is collections.OrderedDict or (issubclass(f, dict) and hasattr(f, "__total__") and not issubclass(f, XDict)):
        r = _dict(*a, **k)
        if f is collections.OrderedDict:
            r.pycls = f
        return r
    syms = any(has_sym(x) or type(x) in PROXY_CONTAINERS for x in a) or any(
        has_sym(x) or type(x) in PROXY_CONTAINERS for x in k.values()
    )
    if not syms:
        return f(*a, **k)
    if issubclass(f, (dict, set, frozenset, str, bytes, int, float, collections.deque)) or f.__module__ in (
        "decimal", "_decimal", "uuid", "pathlib", "datetime", "_pydatetime", "fractions", "array", "_collections",
    ):
        if issubclass(f, (list, tuple, collections.deque)):
            return f(*[resolve(x) for x in a], **k)
        if "__init__" in f.__dict__ and isinstance(f.__dict__["__init__"], types.FunctionType) and not issubclass(
            f, (str, bytes, int, float)
        ):
            return f(*[resolve(x) for x in a], **k)
        if issubclass(f, dict) and len(a) == 1 and not k:
            src = resolve(a[0])
            if not isinstance(src, dict) and not hasattr(src, "__iter__"):
                raise TypeError(f"'{pytype(src).__name__}' object is not iterable")
            r = f()
            for kk, v in (src.items() if hasattr(src, "items") else src):
                r[realize(norm(kk)) if symkey(norm(kk)) else norm(kk)] = v
            return r
        return f(*[deep_realize(x) for x in a], **{n: deep_realize(x) for n, x in k.items()})
    return f(*a, **k)


def callkw(f, a, kws):
    """call with ** expansions: kws is a list of (name, value) or (mapping,)"""
    k = {}
    for it in kws:
        if len(it) == 2:
            k[it[0]] = it[1]
        else:
            m = resolve(it[0])
            for kk in m.keys():
                v = m[kk]
                kk = norm(kk)
                if is_sym(kk):
                    if pytype(kk) is not str:
                        raise TypeError("keywords must be strings")
                    kk = realize(kk)
                if kk in k:
                    raise TypeError(f"got multiple values for keyword argument '{kk}'")
                k[kk] = v
    return call(f, *a, **k)


def enter(name):
    E = _eng.CURRENT
    if E is not None:
        E.functions.add(name)
