"""Type descriptors with an independent reference semantics (the oracle), written from the documentation.

A descriptor knows its Python type hint (`hint`), how to make an arbitrary conforming Python value
(`gen`), what loading a JSON value must give (`ref_load`, raising Bad when it must be refused) and what
dumping must give (`ref_dump`).
"""

import base64
import collections
import dataclasses
import datetime
import decimal
import enum
import math
import pathlib
import types
import typing as t
import uuid

from nr.date import duration

from databind.core import ConversionError
from databind.core.settings import (
    Alias,
    DateFormat,
    ExtraKeys,
    Flattened,
    Remainder,
    Required,
    SerializeDefaults,
    Strict,
    Union,
)
from symex.api import conj, disj, neg
from symex.ctx import DEFAULT_FLOATS, JSON_KINDS, SCALAR_KINDS, json_value

MOD = __name__


class Bad(Exception):
    """The reference refuses the value."""


class Unspecified(Exception):
    """The reference says nothing about this case."""


def same(a, b):
    """Equal and of the same types, all the way down (a symbolic truth value)."""
    if a is b:
        return True
    ta = type(a)
    if ta is not type(b):
        return False
    if ta is float or ta is decimal.Decimal:
        return disj(a == b, conj(a != a, b != b))
    if ta is list or ta is tuple or ta is collections.deque:
        if len(a) != len(b):
            return False
        return conj(*[same(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict):
        if len(a) != len(b):
            return False
        parts = []
        for k in a:
            if k not in b:
                return False
            parts.append(same(a[k], b[k]))
        return conj(*parts)
    if ta is set or ta is frozenset:
        return a == b
    if isinstance(a, tuple):
        if len(a) != len(b):
            return False
        return conj(*[same(x, y) for x, y in zip(a, b)])
    if dataclasses.is_dataclass(a) and not isinstance(a, type) and not isinstance(a, duration):
        parts = []
        for f in dataclasses.fields(a):
            x = getattr(a, f.name, NOVAL)
            y = getattr(b, f.name, NOVAL)
            if x is NOVAL or y is NOVAL:
                if x is not y:
                    return False
                continue
            parts.append(same(x, y))
        return conj(*parts)
    return a == b


NOVAL = object()
NODEF = object()


@dataclasses.dataclass
class S:
    """Ambient settings of the reference."""

    strict: bool = True
    extra: bool = False
    serialize_defaults: bool = True


class T:
    cls = None

    def gen(self, ctx, name):
        raise NotImplementedError

    def ref_load(self, v, s):
        raise NotImplementedError

    def ref_dump(self, x, s):
        raise NotImplementedError

    def __repr__(self):
        return type(self).__name__


class TAny(T):
    hint = t.Any

    def gen(self, ctx, name):
        return json_value(ctx, name, depth=1, width=1)

    def ref_load(self, v, s):
        return v

    def ref_dump(self, x, s):
        return x


class TObject(TAny):
    hint = object


class TBool(T):
    hint = bool

    def gen(self, ctx, name):
        return ctx.bool(name)

    def ref_load(self, v, s):
        if type(v) is bool:
            return v
        if not s.strict and type(v) is str:
            w = v.lower()
            if w == "yes" or w == "true" or w == "on" or w == "enabled":
                return True
            if w == "no" or w == "false" or w == "off" or w == "disabled":
                return False
        raise Bad

    def ref_dump(self, x, s):
        if type(x) is bool:
            return x
        raise Bad


class TInt(T):
    hint = int

    def gen(self, ctx, name):
        return ctx.int(name)

    def ref_load(self, v, s):
        if type(v) is int:
            return v
        if type(v) is float:
            if math.isnan(v) or math.isinf(v):
                raise Bad
            if v.is_integer():
                return int(v)
            raise Bad
        if not s.strict and type(v) is str:
            try:
                return int(v)
            except ValueError:
                raise Bad
        raise Bad

    def ref_dump(self, x, s):
        if type(x) is int:
            return x
        if type(x) is float:
            return self.ref_load(x, s)
        raise Bad


class TFloat(T):
    hint = float

    def __init__(self, kinds=DEFAULT_FLOATS):
        self.kinds = kinds

    def gen(self, ctx, name):
        return ctx.float(name, self.kinds)

    def ref_load(self, v, s):
        if type(v) is float:
            return v
        if type(v) is int:
            try:
                return float(v)
            except OverflowError:
                raise Bad
        if not s.strict and type(v) is str:
            try:
                return float(v)
            except ValueError:
                raise Bad
        raise Bad

    def ref_dump(self, x, s):
        if type(x) is float or type(x) is int:
            return self.ref_load(x, s)
        raise Bad


class TStr(T):
    hint = str

    def gen(self, ctx, name):
        return ctx.str(name)

    def ref_load(self, v, s):
        if type(v) is str:
            return v
        if not s.strict and (type(v) is int or type(v) is float or type(v) is bool):
            return str(v)
        raise Bad

    def ref_dump(self, x, s):
        if type(x) is str:
            return x
        raise Bad


class TBytes(T):
    hint = bytes

    def gen(self, ctx, name):
        return ctx.opaque(name, "bytes")

    def ref_load(self, v, s):
        if type(v) is str:
            try:
                return base64.b64decode(v)
            except ValueError:
                raise Bad
        raise Bad

    def ref_dump(self, x, s):
        if type(x) is bytes:
            return base64.b64encode(x).decode("ascii")
        raise Bad


class TOpaque(T):
    """A type represented as text through a library codec."""

    def __init__(self, oname, hint, cls, parse, excs):
        self.oname = oname
        self.hint = hint
        self.cls = cls
        self.parse = parse
        self.excs = excs

    def gen(self, ctx, name):
        return ctx.opaque(name, self.oname)

    def ref_load(self, v, s):
        if type(v) is str:
            try:
                return self.parse(v)
            except self.excs:
                raise Bad
        if self.oname == "duration" and isinstance(v, dict):
            raise Unspecified("object form of durations", True)
        if self.oname == "decimal" and not s.strict and type(v) in (int, float):
            return decimal.Decimal(v)
        raise Bad

    def ref_dump(self, x, s):
        if isinstance(x, self.cls):
            return str(x)
        raise Bad

    def __repr__(self):
        return f"TOpaque({self.oname})"


def parse_decimal(v):
    return decimal.Decimal(v)


def parse_uuid(v):
    return uuid.UUID(v)


def parse_path(v):
    return pathlib.Path(v)


def parse_purepath(v):
    return pathlib.PurePath(v)


def parse_duration(v):
    return duration.parse(v)


def TDecimal():
    return TOpaque("decimal", decimal.Decimal, decimal.Decimal, parse_decimal, decimal.InvalidOperation)


def TUuid():
    return TOpaque("uuid", uuid.UUID, uuid.UUID, parse_uuid, ValueError)


def TPath():
    return TOpaque("path", pathlib.Path, pathlib.Path, parse_path, ValueError)


def TPurePath():
    return TOpaque("purepath", pathlib.PurePath, pathlib.PurePath, parse_purepath, ValueError)


def TDuration():
    return TOpaque("duration", duration, duration, parse_duration, ValueError)


class TDateTime(T):
    """date, time, datetime in the default ISO format."""

    def __init__(self, what):
        self.what = what
        self.hint = {"date": datetime.date, "time": datetime.time, "datetime": datetime.datetime}[what]

    def gen(self, ctx, name):
        return ctx.opaque(name, self.what)

    def _fmt(self):
        from nr.date.format_sets import ISO_8601

        return ISO_8601

    def ref_load(self, v, s):
        if isinstance(v, self.hint):
            return v
        if type(v) is str:
            try:
                return getattr(self._fmt(), "parse_" + self.what)(v)
            except ValueError:
                raise Bad
        raise Bad

    def ref_dump(self, x, s):
        if isinstance(x, self.hint):
            return getattr(self._fmt(), "format_" + self.what)(x)
        raise Bad

    def __repr__(self):
        return f"TDateTime({self.what})"


class TLit(T):
    def __init__(self, *values):
        self.values = values
        self.hint = t.Literal[values]

    def gen(self, ctx, name):
        return ctx.choice(name, list(self.values))

    def ref_load(self, v, s):
        if v is not None and type(v) not in (bool, int, float, str):
            raise Unspecified("a value of another type that is equal to the literal")
        for x in self.values:
            if type(x) is type(v) or (type(x) in (int, float) and type(v) in (int, float)):
                if x == v:
                    return x
        raise Bad

    ref_dump = ref_load

    def __repr__(self):
        return f"TLit{self.values!r}"


class Color(enum.Enum):
    RED = 1
    GREEN = 2
    BLUE = 3


class Pet(enum.Enum):
    CAT = enum.auto()
    LION: t.Annotated[int, Alias("KITTY", "BIG")] = enum.auto()
    DOG: t.Annotated[int, Alias("HOUND")] = enum.auto()


class Level(enum.IntEnum):
    LOW = 1
    MID = 5
    TOP = 100


class TEnum(T):
    def __init__(self, cls, aliases=None):
        self.cls = self.hint = cls
        self.aliases = aliases or {}

    def gen(self, ctx, name):
        return ctx.choice(name, list(self.cls))

    def ref_load(self, v, s):
        if type(v) is not str:
            raise Bad
        for m in self.cls:
            for a in self.aliases.get(m.name, ()):
                if v == a:
                    return m
        for n, m in self.cls.__members__.items():
            if v == n:
                return m
        raise Bad

    def ref_dump(self, x, s):
        if type(x) is self.cls:
            a = self.aliases.get(x.name)
            return a[0] if a else x.name
        raise Bad

    def __repr__(self):
        return f"TEnum({self.cls.__name__})"


def TPet():
    return TEnum(Pet, {"LION": ("KITTY", "BIG"), "DOG": ("HOUND",)})


class TIntEnum(T):
    def __init__(self, cls=Level):
        self.cls = self.hint = cls

    def gen(self, ctx, name):
        return ctx.choice(name, list(self.cls))

    def ref_load(self, v, s):
        if type(v) is int or type(v) is self.cls:
            for m in self.cls:
                if v == m.value:
                    return m
        raise Bad

    def ref_dump(self, x, s):
        if type(x) is self.cls:
            return x.value
        raise Bad

    def __repr__(self):
        return f"TIntEnum({self.cls.__name__})"


class TOpt(T):
    def __init__(self, inner):
        self.inner = inner
        # (Optional[Union[A, B]] and Optional[Union[B, A]] are the same object, as the typing module caches by equality)
        self.hint = t.Union[tuple(m.hint for m in inner.members) + (None,)] if type(inner) is TUnion else t.Optional[inner.hint]

    def gen(self, ctx, name):
        if ctx.flag(name + ".none"):
            return None
        return self.inner.gen(ctx, name)

    def ref_load(self, v, s):
        if v is None:
            return None
        return self.inner.ref_load(v, s)

    def ref_dump(self, x, s):
        if x is None:
            return None
        return self.inner.ref_dump(x, s)

    def __repr__(self):
        return f"TOpt({self.inner!r})"


class TSeq(T):
    """List / Set / FrozenSet / variadic tuple / other one-argument collections."""

    def __init__(self, inner, kind="list", width=2):
        self.inner = inner
        self.kind = kind
        self.width = width
        h = inner.hint
        self.hint = {
            "list": lambda: t.List[h],
            "blist": lambda: list[h],
            "set": lambda: t.Set[h],
            "frozenset": lambda: t.FrozenSet[h],
            "vtuple": lambda: t.Tuple[h, ...],
            "deque": lambda: t.Deque[h],
            "sequence": lambda: t.Sequence[h],
            "collection": lambda: t.Collection[h],
        }[kind]()
        self.cls = {
            "list": list, "blist": list, "set": set, "frozenset": frozenset, "vtuple": tuple,
            "deque": collections.deque, "sequence": collections.abc.Sequence, "collection": collections.abc.Collection,
        }[kind]

    def build(self, items):
        if self.kind in ("list", "blist", "sequence", "collection"):
            return list(items)
        return self.cls(items)

    def gen(self, ctx, name):
        n = ctx.pick(name + ".len", self.width + 1)
        items = [self.inner.gen(ctx, f"{name}[{i}]") for i in range(n)]
        return self.build(items)

    def ref_load(self, v, s):
        if type(v) is not list and type(v) is not tuple and type(v) is not set and type(v) is not frozenset:
            raise Bad
        return self.build([self.inner.ref_load(x, s) for x in v])

    def ref_dump(self, x, s):
        if not isinstance(x, self.cls) or (isinstance(x, (str, bytes, bytearray, dict)) and self.kind in ("sequence", "collection")):
            raise Bad
        return [self.inner.ref_dump(y, s) for y in x]

    def __repr__(self):
        return f"TSeq({self.kind},{self.inner!r})"


class TTuple(T):
    def __init__(self, *items):
        self.items = items
        self.hint = t.Tuple[tuple(i.hint for i in items)]

    def gen(self, ctx, name):
        return tuple([i.gen(ctx, f"{name}[{k}]") for k, i in enumerate(self.items)])

    def ref_load(self, v, s):
        if type(v) is not list and type(v) is not tuple:
            raise Bad
        if len(v) != len(self.items):
            raise Bad
        return tuple([i.ref_load(x, s) for i, x in zip(self.items, v)])

    def ref_dump(self, x, s):
        if type(x) is not tuple or len(x) != len(self.items):
            raise Bad
        return [i.ref_dump(y, s) for i, y in zip(self.items, x)]

    def __repr__(self):
        return f"TTuple{self.items!r}"


class TDict(T):
    def __init__(self, key, value, kind="dict", width=2):
        self.key = key
        self.value = value
        self.kind = kind
        self.width = width
        self.hint = {
            "dict": lambda: t.Dict[key.hint, value.hint],
            "bdict": lambda: dict[key.hint, value.hint],
            "mapping": lambda: t.Mapping[key.hint, value.hint],
            "ordered": lambda: t.OrderedDict[key.hint, value.hint],
        }[kind]()

    def gen(self, ctx, name):
        n = ctx.pick(name + ".len", self.width + 1)
        keys = [self.key.gen(ctx, f"{name}.k{i}") for i in range(n)]
        for i in range(n):
            for j in range(i):
                ctx.assume(neg(keys[i] == keys[j]))
        d = {}
        for i in range(n):
            d[keys[i]] = self.value.gen(ctx, f"{name}.v{i}")
        return collections.OrderedDict(d) if self.kind == "ordered" else d

    def ref_load(self, v, s):
        if not isinstance(v, dict):
            raise Bad
        out = {}
        for k, x in v.items():
            x = self.value.ref_load(x, s)
            out[self.key.ref_load(k, s)] = x
        return collections.OrderedDict(out) if self.kind == "ordered" else out

    def ref_dump(self, x, s):
        if not isinstance(x, dict):
            raise Bad
        out = {}
        for k, y in x.items():
            y = self.value.ref_dump(y, s)
            out[self.key.ref_dump(k, s)] = y
        return out

    def __repr__(self):
        return f"TDict({self.kind},{self.key!r},{self.value!r})"


class TUnion(T):
    """Plain typing.Union: first member that accepts the value."""

    def __init__(self, *members):
        self.members = members
        self.hint = t.Union[tuple(m.hint for m in members)]

    def gen(self, ctx, name):
        i = ctx.pick(name + ".m", len(self.members))
        return self.members[i].gen(ctx, f"{name}.{i}")

    def ref_load(self, v, s):
        for m in self.members:
            try:
                return m.ref_load(v, s)
            except Bad:
                pass
        raise Bad

    def ref_dump(self, x, s):
        for m in self.members:
            try:
                return m.ref_dump(x, s)
            except Bad:
                pass
        raise Bad

    def __repr__(self):
        return f"TUnion{self.members!r}"


@dataclasses.dataclass
class F:
    """A field of a TDC."""

    name: str
    type: T
    aliases: tuple = ()
    default: object = NODEF
    factory: object = None
    required: object = None
    flat: bool = False
    remainder: bool = False
    extra: tuple = ()
    strict: object = None

    @property
    def hint(self):
        ann = []
        if self.aliases:
            ann.append(Alias(*self.aliases))
        if self.required is not None:
            ann.append(Required(self.required))
        if self.flat:
            ann.append(Flattened())
        if self.remainder:
            ann.append(Remainder())
        if self.strict is not None:
            ann.append(Strict(self.strict))
        ann.extend(self.extra)
        h = self.type.hint
        if ann:
            return t.Annotated[tuple([h] + ann)]
        return h

    @property
    def keys(self):
        return self.aliases or (self.name,)

    def has_default(self):
        return self.default is not NODEF or self.factory is not None or not self.is_required()

    def get_default(self):
        if self.default is not NODEF:
            return self.default
        if self.factory is not None:
            return self.factory()
        return None

    def is_required(self):
        if self.required is not None:
            return self.required
        if isinstance(getattr(self.type, "bare", self.type), TOpt):
            return False
        return self.default is NODEF and self.factory is None

    def sub(self, s):
        return s if self.strict is None else dataclasses.replace(s, strict=self.strict)


_CLS = {}


class TDC(T):
    def __init__(self, name, *fields, extra=None, bases=(), cls=None, hint=None):
        self.name = name
        self.fields = fields
        self.extra = extra
        if cls is not None:
            self.cls = cls
            self.hint = hint or cls
            return
        spec = []
        for f in fields:
            kw = {}
            if f.default is not NODEF:
                kw["default"] = f.default
            elif f.factory is not None:
                kw["default_factory"] = f.factory
            elif not f.is_required():
                pass
            spec.append((f.name, f.hint, dataclasses.field(**kw)))
        self.cls = dataclasses.make_dataclass(name, spec, bases=bases, module=MOD, kw_only=True)
        if extra is not None:
            ExtraKeys(extra)(self.cls)
        self.hint = self.cls

    def leaves(self):
        """(field, keys) of everything that is written at the level of this object."""
        out = []
        for f in self.fields:
            if f.flat:
                out.extend(f.type.leaves())
            elif not f.remainder:
                out.append(f)
        return out

    def gen(self, ctx, name):
        kw = {}
        for f in self.fields:
            kw[f.name] = f.type.gen(ctx, f"{name}.{f.name}")
        return self.cls(**kw)

    def has_remainder(self):
        return any(f.remainder or (f.flat and isinstance(f.type, TDC) and f.type.has_remainder()) for f in self.fields)

    def ref_load(self, v, s):
        if not isinstance(v, dict):
            raise Bad
        used = []
        out = {}
        rem = None
        for f in self.fields:
            if f.remainder:
                rem = f
                continue
            if f.flat:
                sub = {}
                for leaf in f.type.leaves():
                    for k in leaf.keys:
                        if k in v:
                            sub[k] = v[k]
                            used.append(k)
                            break
                if isinstance(f.type, TDC) and f.type.has_remainder():
                    rem = f
                    out[f.name] = sub
                    continue
                out[f.name] = f.type.ref_load(sub, f.sub(s))
                continue
            for k in f.keys:
                if k in v:
                    out[f.name] = f.type.ref_load(v[k], f.sub(s))
                    used.append(k)
                    break
            else:
                if f.is_required():
                    raise Bad
                out[f.name] = f.get_default()
        left = {}
        for k in v:
            if k not in used:
                left[k] = v[k]
        if rem is not None:
            if rem.flat:
                sub = out[rem.name]
                for k in left:
                    sub[k] = left[k]
                left = sub
            out[rem.name] = rem.type.ref_load(left, rem.sub(s))
        elif left:
            allow = s.extra if self.extra is None else self.extra
            if not allow:
                raise Bad
        return self.cls(**out)

    def ref_dump(self, x, s):
        """Bad if two fields write the same key, or a key would be read back as another (omitted) field."""
        if not isinstance(x, self.cls):
            raise Bad
        out = {}
        rest = {}
        omitted = []
        for f in self.fields:
            val = getattr(x, f.name)
            d = f.type.ref_dump(val, f.sub(s))
            if f.flat:
                leaves = f.type.leaves()
                mine = [k for leaf in leaves for k in leaf.keys]
                for k in d:
                    if k in out:
                        raise Bad
                    if k in mine:
                        out[k] = d[k]
                    else:
                        rest[k] = d[k]
                for leaf in leaves:
                    if leaf.keys[0] not in d:
                        omitted.extend(leaf.keys)
            elif f.remainder:
                rest = d
            elif s.serialize_defaults or f.is_required() or not f.has_default() or neg(val == f.get_default()):
                if f.keys[0] in out:
                    raise Bad
                out[f.keys[0]] = d
            else:
                omitted.extend(f.keys)
        for k in rest:
            if k in out or k in omitted:
                raise Bad
        for k in rest:
            out[k] = rest[k]
        return out

    def __repr__(self):
        return f"TDC({self.name})"


class TTypedDict(T):
    """A TypedDict; fields of *optional* names may be absent."""

    def __init__(self, name, *fields, optional=(), cls=None):
        self.name = name
        self.fields = fields
        self.optional = set(optional)
        if cls is None:
            # the keys in *optional* come from a non-total parent (and are first)
            self.fields = fields = tuple(sorted(fields, key=lambda f: f.name not in self.optional))
            base = t.TypedDict(name + "Base", {f.name: f.hint for f in fields if f.name in self.optional}, total=False)
            base.__module__ = MOD
            cls = types.new_class(name, (base,), exec_body=lambda ns: ns.update(
                {"__annotations__": {f.name: f.hint for f in fields if f.name not in self.optional}, "__module__": MOD}))
        self.cls = self.hint = cls

    def leaves(self):
        return list(self.fields)

    def required(self, f):
        return f.name not in self.optional and f.is_required()

    def gen(self, ctx, name):
        out = {}
        for f in self.fields:
            if f.name in self.optional and ctx.flag(f"{name}.{f.name}.absent"):
                continue
            out[f.name] = f.type.gen(ctx, f"{name}.{f.name}")
        return out

    def ref_load(self, v, s):
        if not isinstance(v, dict):
            raise Bad
        out = {}
        used = []
        for f in self.fields:
            for k in f.keys:
                if k in v:
                    out[f.name] = f.type.ref_load(v[k], f.sub(s))
                    used.append(k)
                    break
            else:
                if self.required(f):
                    raise Bad
                if isinstance(f.type, TOpt) and f.required is None:
                    out[f.name] = None
        for k in v:
            if k not in used and not s.extra:
                raise Bad
        return out

    def ref_dump(self, x, s):
        if not isinstance(x, dict):
            raise Bad
        out = {}
        for f in self.fields:
            if f.name not in x:
                if self.required(f):
                    raise Bad
                continue
            out[f.keys[0]] = f.type.ref_dump(x[f.name], f.sub(s))
        return out

    def __repr__(self):
        return f"TTypedDict({self.name})"


class TNamedTuple(TDC):
    def __init__(self, name, *fields, cls=None, extra=None, hint=None):
        self.name = name
        self.fields = fields
        self.extra = extra
        if cls is None:
            def body(ns):
                ns["__module__"] = MOD
                ns["__annotations__"] = {f.name: f.hint for f in fields}
                ns.update((f.name, f.default) for f in fields if f.default is not NODEF)

            cls = types.new_class(name, (t.NamedTuple,), {}, body)
            cls.__module__ = MOD
            if extra is not None:
                ExtraKeys(extra)(cls)
        self.cls = cls
        self.hint = hint or cls

    def __repr__(self):
        return f"TNamedTuple({self.name})"


class Noted(T):
    """*inner* with metadata that means nothing."""

    def __init__(self, inner, notes, nested=False):
        self.inner = self.bare = inner
        self.cls = inner.cls
        self.hint = t.Annotated[(inner.hint,) + notes]
        if nested:
            self.hint = t.Annotated[self.hint, "outer", {}]

    def gen(self, ctx, name):
        return self.inner.gen(ctx, name)

    def leaves(self):
        return self.inner.leaves()

    def ref_load(self, v, s):
        return self.inner.ref_load(v, s)

    def ref_dump(self, x, s):
        return self.inner.ref_dump(x, s)

    def __repr__(self):
        return f"Noted({self.inner!r})"


class TTagged(T):
    """A union with a discriminator: *members* is a list of (id, type descriptor)."""

    def __init__(self, style, members, disc="type", nest=None, hint=None):
        self.style = style
        self.members = members
        self.disc = disc
        self.nest = nest
        if hint is not None:
            self.hint = hint
            return
        table = {}
        for n, m in members:
            table[n] = m.hint
        kw = {}
        if disc != "type":
            kw["discriminator_key"] = disc
        if nest is not None:
            kw["nesting_key"] = nest
        base = t.Union[tuple(m.hint for _, m in members)]
        self.hint = t.Annotated[base, Union(table, style, **kw)]

    def gen(self, ctx, name):
        i = ctx.pick(name + ".m", len(self.members))
        return self.members[i][1].gen(ctx, f"{name}.{i}")

    def member(self, mid):
        for n, m in self.members:
            if mid == n:
                return n, m
        raise Bad

    def ref_load(self, v, s):
        if not isinstance(v, dict):
            raise Bad
        if self.style == "keyed":
            if len(v) != 1:
                raise Bad
            for k in v:
                n, m = self.member(k)
                return m.ref_load(v[k], s)
        if self.disc not in v:
            raise Bad
        mid = v[self.disc]
        if type(mid) is not str:
            raise Bad
        n, m = self.member(mid)
        if self.style == "nested":
            key = self.nest or n
            if key not in v:
                raise Bad
            return m.ref_load(v[key], s)
        rest = {}
        for k in v:
            if k != self.disc:
                rest[k] = v[k]
        return m.ref_load(rest, s)

    def ref_dump(self, x, s):
        for n, m in self.members:
            if type(x) is pytype(m):
                d = m.ref_dump(x, s)
                if self.style == "keyed":
                    return {n: d}
                if self.style == "nested":
                    if (self.nest or n) == self.disc:
                        raise Bad
                    return {self.disc: n, (self.nest or n): d}
                if not isinstance(d, dict):
                    raise Bad
                if self.disc in d and d[self.disc] != n:
                    raise Bad
                d[self.disc] = n
                return d
        raise Bad

    def __repr__(self):
        return f"TTagged({self.style},{self.disc},{self.nest},{[m for _, m in self.members]!r})"


def pytype(m):
    if isinstance(m, TDC) or isinstance(m, TEnum):
        return m.cls
    return m.hint


T_Var = t.TypeVar("T_Var")


@dataclasses.dataclass
class Box(t.Generic[T_Var]):
    content: T_Var
    tags: t.List[T_Var] = dataclasses.field(default_factory=list)


def TBox(inner, width=2):
    return TDC("Box", F("content", inner), F("tags", TSeq(inner, width=width), factory=list), cls=Box, hint=Box[inner.hint])


@dataclasses.dataclass
class Node:
    """Recursive type with forward references."""

    label: "str"
    kids: "t.List[Node]" = dataclasses.field(default_factory=list)


class TNode(TDC):
    def __init__(self, depth=2):
        self.depth = depth
        self.hint = Node
        TDC.__init__(self, "Node", F("label", TStr()), F("kids", TSeq(self), factory=list), cls=Node)

    def gen(self, ctx, name, depth=None):
        depth = self.depth if depth is None else depth
        n = ctx.pick(name + ".len", 2 if depth < self.depth else 3) if depth > 0 else 0
        return Node(ctx.str(name + ".label"), [self.gen(ctx, f"{name}.{i}", depth - 1) for i in range(n)])


def agree(ctx, got, ref, what, refuse=ConversionError):
    """Outcome of the code (`attempt`) against the reference: same value, or both refuse (as `refuse`)."""
    try:
        want = ref()
        ok = True
    except Bad:
        ok = False
    except Unspecified as exc:
        if len(exc.args) == 1:
            ctx.check(got.ok or isinstance(got.exc, refuse), f"{what}: refusal is not a conversion error", lambda: repr(got.exc))
        ctx.cover("unspecified")
        return
    if ok:
        ctx.cover("accepted")
        ctx.check(got.ok, f"{what}: refused a value it must accept", lambda: repr(got))
        if got.ok:
            ctx.check(same(got.value, want), f"{what}: wrong result", lambda: f"{got.value!r} instead of {want!r}")
    else:
        ctx.cover("refused")
        ctx.check(not got.ok, f"{what}: accepted a value it must refuse", lambda: repr(got))
        ctx.check(
            isinstance(got.exc, refuse), f"{what}: refusal is not a conversion error", lambda: repr(got.exc)
        )


def presence(ctx, name, keys, value, extra=0, extra_value=None, orders=True):
    """A mapping in which each of *keys* may be present, plus up to *extra* arbitrary other keys, in either order."""
    entries = [(k, value(f"{name}.{k}", k)) for k in keys if ctx.flag(f"{name}.has.{k}")]
    n = ctx.pick(f"{name}.extra", extra + 1) if extra else 0
    new = [ctx.str(f"{name}.x{i}") for i in range(n)]
    ctx.distinct(list(keys) + new)
    ev = extra_value or (lambda nm: json_value(ctx, nm, depth=0))
    entries += [(k, ev(f"{name}.xv{i}")) for i, k in enumerate(new)]
    if orders and len(entries) > 1 and ctx.flag(f"{name}.reversed"):
        entries.reverse()
    return ctx.mkdict(entries)


def scalar(ctx, name, floats=("fin", "nan")):
    return json_value(ctx, name, depth=0, kinds=SCALAR_KINDS, floats=floats)


def effective(places):
    """The setting of highest priority, the first one among equals (*places* in order of precedence)."""
    best = None
    for p in places:
        if p is not None and (best is None or p.priority > best.priority):
            best = p
    return best


PLACES = ("none", "annotation", "local", "conditional", "provider", "global", "parent", "call", "two")


class Arranged:
    """Settings of one kind at the places named by *place*, with arbitrary priorities (from `mk(name, priority)`)."""

    def __init__(self, ctx, place, mk, pytype, hint, at_root=True):
        from databind.core import Priority, Settings
        from symex.ctx import enum_int

        use = {
            "none": (), "two": ("annotation", "global"), "three": ("annotation", "local", "call"), "more": ("local", "conditional", "global", "global2"),
            "all": ("annotation", "local", "provider", "parent", "call"),
        }.get(place, (place,))
        self.inst = {n: mk(n, enum_int(ctx, n + ".prio", Priority)) for n in use}
        i = self.inst.get
        self.call = [i("call")] if i("call") else None
        parent = Settings(None, [i("parent")]) if i("parent") else None
        st = self.settings = Settings(parent)
        if i("global"):
            st.add_global(i("global"))
        if i("global2"):
            st.add_global(i("global2"))
        if i("conditional"):
            st.add_conditional(lambda c: True, i("conditional"))
        if i("provider"):
            st.add_provider(lambda c: [i("provider")])
        if i("local"):
            st.add_local(pytype, i("local"))
        st.add_local(Bad, mk("elsewhere", Priority.ULTIMATE))
        st.add_conditional(lambda c: False, mk("never", Priority.ULTIMATE))
        ann = [i(n) for n in ("annotation", "annotation2") if i(n)]
        # (the plain object keeps the caches of the typing module from comparing the settings)
        self.hint = t.Annotated[tuple([hint, object(), "text"] + ann)] if ann else hint
        own = effective([i("local"), i("conditional") or i("provider"), i("global"), i("global2"), i("parent")])
        self.eff = effective([i("annotation"), i("annotation2"), i("call"), own])


class StrSub(str):
    pass


class IntSub(int):
    pass


@dataclasses.dataclass
class Alien:
    x: int = 0
    y: str = ""


WILD = (
    ("json", lambda ctx, n: scalar(ctx, n, ("fin", "nan"))),
    ("list", lambda ctx, n: [ctx.int(n + ".0")]),
    ("tuple", lambda ctx, n: (ctx.int(n + ".0"), "t")),
    ("dict", lambda ctx, n: {"x": ctx.int(n + ".0"), "y": "d"}),
    ("intdict", lambda ctx, n: {1: 2}),
    ("other", lambda ctx, n: ctx.choice(n + ".o", [
        {1}, frozenset("a"), b"raw", bytearray(b"x"), Color.RED, Level.MID, Pet.LION, Alien(), Alien, object(), StrSub("s"), IntSub(3),
        decimal.Decimal(1), uuid.UUID(int=1), pathlib.Path("p"), datetime.date(2020, 1, 2), datetime.time(1, 2), range(2), collections.deque([1]),
    ])),
)


class Wild(T):
    """As *inner*, but the value may also be anything else."""

    def __init__(self, inner, kinds=None):
        self.inner = inner
        self.hint = inner.hint
        self.kinds = [w for w in WILD if kinds is None or w[0] in kinds]

    def gen(self, ctx, name):
        i = ctx.pick(name + ".wild", len(self.kinds) + 1)
        if i == 0:
            return self.inner.gen(ctx, name)
        return self.kinds[i - 1][1](ctx, name + ".w")

    def leaves(self):
        return self.inner.leaves()

    def ref_load(self, v, s):
        return self.inner.ref_load(v, s)

    def ref_dump(self, x, s):
        return self.inner.ref_dump(x, s)

    def __repr__(self):
        return f"Wild({self.inner!r})"


def plain_json(x):
    """Only JSON values, of exactly the built-in types."""
    t_ = type(x)
    if x is None or t_ is bool or t_ is int or t_ is float or t_ is str:
        return True
    if t_ is list:
        return all([plain_json(y) for y in x])
    if t_ is dict:
        return all([type(k) is str and plain_json(y) for k, y in x.items()])
    return False


def key_order(x):
    """The keys of all the objects in *x* in the order in which they are written."""
    if isinstance(x, dict):
        return [[k, key_order(y)] for k, y in x.items()]
    if isinstance(x, list):
        return [key_order(y) for y in x]
    return None
