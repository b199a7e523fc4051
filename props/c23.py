"""Wrapping a type in an annotation without relevant settings changes nothing."""

import typing_extensions as te

from databind.core import Priority
from databind.core.settings import Precision, Setting
from databind.json import dump, load
from props.zoo import *
from symex.harness import harness


class Foreign(Setting):
    """A setting the package knows nothing about."""


class Odd:
    """Metadata that is difficult to handle."""

    def __eq__(self, o):
        raise RuntimeError("do not compare")

    def __hash__(self):
        raise TypeError("do not hash")

    def __bool__(self):
        raise RuntimeError("no truth value")

    def __repr__(self):
        return "Odd()"


NOTES = {
    "text": ("note",), "object": (object(),), "number": (1, 0), "none": (None,), "list": ([1, 2],), "dict": ({"a": []},), "type": (int,), "odd": (Odd(),), "class": (Alias,), "foreign": (Foreign(),),
    "function": (len,), "many": ("a", [1], object(), None), "hint": (t.List[int],), "instance": (Alien(),), "annotated": (t.Annotated[int, Alias("q")],), "tuple": ((Alias("q"), Strict(False)),),
}
# settings for another kind of type, or which ask for what is the case anyway
IDLE = {
    "strict": (Strict(True),), "precision": (Precision(prec=2),), "dates": (DateFormat("%Y"),), "extra": (ExtraKeys(False),), "defaults": (SerializeDefaults(True),),
    "required": (Required(),), "mixed": ("x", Strict(True), [1], ExtraKeys(False, priority=Priority.LOW)),
}
USES = {"precision": ("decimal",), "dates": ("date", "time", "datetime")}


TYPES = {
    "int": INT, "str": STR, "bool": BOOL, "float": TFloat(("fin", "nan")), "bytes": TBytes(), "any": ANY, "object": TObject(), "decimal": TDecimal(), "uuid": TUuid(), "path": TPath(), "duration": TDuration(),
    "date": TDateTime("date"), "time": TDateTime("time"), "datetime": TDateTime("datetime"), "literal": TLit("a", "b"), "enum": TEnum(Color), "pet": TPet(), "intenum": TIntEnum(),
    "opt": TOpt(INT), "optxy": TOpt(XY), "list": TSeq(INT, width=1), "blist": TSeq(STR, "blist", width=1), "set": TSeq(STR, "set", width=1), "frozenset": TSeq(INT, "frozenset", width=1),
    "vtuple": TSeq(INT, "vtuple", width=1), "deque": TSeq(INT, "deque", width=1), "sequence": TSeq(INT, "sequence", width=1), "tuple": TTuple(INT, STR), "dict": TDict(STR, INT, width=1), "mapping": TDict(STR, INT, "mapping", width=1), "union": TUnion(INT, STR), "unionxy": TUnion(XY, PQ),
    "xy": XY, "def": DEF, "td": TD, "nt": NT, "box": TBox(INT, width=1), "node": TNode(1), "rem": REM, "flat": FLATD, "optunion": TOpt(TUnion(INT, STR)),
}
CONCRETE = ("int", "str", "bool", "float", "bytes", "decimal", "uuid", "path", "date", "enum", "intenum", "list", "set", "dict", "xy", "td", "box", "nt")
LIGHT = ("int", "str", "any", "decimal", "date", "literal", "pet", "opt", "list", "tuple", "dict", "union", "xy", "td", "nt", "optunion")


def noted(ctx, key, names=None, nested=True, spot=None):
    base = TYPES[key]
    pool = dict(NOTES)
    pool.update({k: v for k, v in IDLE.items() if key not in USES.get(k, ()) and not (spot == "field" and k == "required")})
    which = ctx.choice("note", sorted(pool) if names is None else names)
    return Noted(base, pool[which], nested and ctx.flag("nested"))


def payload(ctx, ty, name="p"):
    """Any JSON value, or one of the right form."""
    ty = getattr(ty, "bare", ty)
    if type(ty) in (TDC, TTypedDict, TNamedTuple):
        if ctx.flag(name + ".shaped"):
            d = 1 if any(isinstance(f.type, TSeq) for f in ty.fields) else 0
            return presence(ctx, name, [k for f in ty.leaves() for k in f.keys][:2], lambda n, k: json_value(ctx, n, depth=d, width=1, floats=("fin",)), extra=1, orders=False)
        return scalar(ctx, name, ("fin",))
    return json_value(ctx, name, depth=1, width=2 if type(ty) is TTuple else 1, floats=("fin", "nan"))


GOOD = {
    "list": [1], "blist": ["a"], "set": ["a"], "frozenset": [1], "vtuple": [1], "deque": [1], "sequence": [1], "tuple": [1, "a"], "dict": {"a": 1}, "mapping": {"a": 1}, "unionxy": {"x": 1, "y": "s"}, "xy": {"x": 1, "y": "s"}, "def": {"d": 4},
    "optxy": {"x": 1, "y": "s"}, "td": {"name": "a", "items": 2}, "nt": {"a": 1, "b": "s"}, "box": {"content": 1}, "node": {"label": "a", "kids": [{"label": "b"}]}, "rem": {"a": 1, "z": 2}, "flat": {"a": 1, "v": "w"},
}


@harness("C23", "load", shards=[{"key": k} for k in TYPES], cover=["accepted"], bounds="41 types with 23 kinds of metadata and settings that do not apply; every JSON value (1 level) or every subset of two keys of a class", max_paths=60000)
def load_noted(ctx, key):
    if ctx.flag("deep"):
        ty = noted(ctx, key, ["list"], nested=False)
        p = payload(ctx, ty)
    else:
        ty = noted(ctx, key, nested=False)
        p = scalar(ctx, "p", ("fin",)) if key not in GOOD else GOOD[key]
    got = ctx.attempt(load, p, ty.hint)
    agree(ctx, got, lambda: ty.ref_load(p, S()), "load")


@harness("C23", "dump", shards=[{"key": k} for k in TYPES], cover=["accepted"], bounds="values of 41 types and other values, 23 kinds of metadata and settings that do not apply", max_paths=60000)
def dump_noted(ctx, key):
    ty = noted(ctx, key, nested=False)
    v = (Wild(ty.bare, ("json", "list", "dict")) if type(ty.inner) not in (TDC, TTypedDict, TOpt) else ty.bare).gen(ctx, "v")
    got = ctx.attempt(dump, v, ty.hint)
    agree(ctx, got, lambda: ty.ref_dump(v, S()), "dump")


def place(ctx, spot, ty):
    return {
        "list": lambda: TSeq(ty, width=1), "blist": lambda: TSeq(ty, "blist", width=1), "vtuple": lambda: TSeq(ty, "vtuple", width=1), "value": lambda: TDict(STR, ty, width=1), "tuple": lambda: TTuple(STR, ty), "optional": lambda: TOpt(ty),
        "field": lambda: TDC("HasF", F("a", ty), F("b", INT, default=1)), "aliased": lambda: TDC("HasA", F("a", ty, aliases=("z",), extra=([],))), "key": lambda: TTypedDict("HasK", F("a", ty)), "member": lambda: TUnion(ty, TDC("Wrap", F("only", INT))), "last": lambda: TUnion(TDC("Wrap", F("only", INT)), ty),
        "box": lambda: TBox(ty, width=0), "deep": lambda: TSeq(TDict(STR, Noted(TOpt(ty), ([],)), width=1), width=1), "nt": lambda: TNamedTuple("HasN", F("a", ty)),
    }[spot]()


def inside(spot, v):
    return {"list": lambda: [v], "blist": lambda: [v], "vtuple": lambda: [v], "value": lambda: {"k": v}, "tuple": lambda: ["s", v], "field": lambda: {"a": v}, "aliased": lambda: {"z": v}, "key": lambda: {"a": v}, "box": lambda: {"content": v}, "deep": lambda: [{"k": v}], "nt": lambda: {"a": v}}.get(spot, lambda: v)()


SPOTS = ("list", "blist", "vtuple", "value", "tuple", "optional", "field", "aliased", "key", "member", "last", "box", "deep", "nt")
SOME = ("text", "list", "odd", "many", "strict")


def placed(spots):
    return [{"key": k, "spot": s} for s in spots for k in LIGHT if not (s in ("member", "last") and k not in CONCRETE) and not (s in ("optional", "deep") and k in ("opt", "optunion"))]


@harness("C23", "nested_load", shards=placed(SPOTS), cover=["accepted", "refused"], bounds="16 types in 14 places, 5 kinds of metadata, also nested; every JSON value (1 level) in the place", max_paths=60000)
def nested_load(ctx, key, spot):
    if type(TYPES[key]) in (TDC, TTypedDict, TNamedTuple) or spot in ("member", "last"):
        ty = noted(ctx, key, ["list", "many"], nested=False)
    else:
        ty = noted(ctx, key, [n for n in SOME if not (n == "odd" and spot in ("optional", "deep"))], spot=spot)
    full = place(ctx, spot, ty)
    p = inside(spot, payload(ctx, ty))
    if spot == "aliased" and ctx.flag("plain name"):
        p = {"a": p["z"]}
    got = ctx.attempt(load, p, full.hint)
    agree(ctx, got, lambda: full.ref_load(p, S()), "load")


@harness("C23", "nested_dump", shards=placed(SPOTS), cover=["accepted"], bounds="16 types in 14 places, 5 kinds of metadata, also nested; values of the type and others", max_paths=60000)
def nested_dump(ctx, key, spot):
    ty = noted(ctx, key, [n for n in SOME if not (n == "odd" and spot in ("member", "last", "optional", "deep"))], nested=False, spot=spot)
    full = place(ctx, spot, Wild(ty, ("json",)) if spot in ("list", "value", "tuple", "member") else ty)
    v = full.gen(ctx, "v")
    got = ctx.attempt(dump, v, full.hint)
    agree(ctx, got, lambda: full.ref_dump(v, S()), "dump")


@harness("C23", "keys", shards=[{"key": k} for k in ("str", "enum", "literal", "uuid", "date")], cover=["accepted", "refused"], bounds="annotated types of the keys of mappings, 5 kinds of metadata; arbitrary text")
def keys(ctx, key):
    ty = TDict(noted(ctx, key, SOME), INT, width=1)
    p = ctx.mkdict([(ctx.str("k"), scalar(ctx, "v", ("fin",)))])
    got = ctx.attempt(load, p, ty.hint)
    agree(ctx, got, lambda: ty.ref_load(p, S()), "load")
    v = ty.gen(ctx, "w")
    got = ctx.attempt(dump, v, ty.hint)
    agree(ctx, got, lambda: ty.ref_dump(v, S()), "dump")


# -- annotations of annotations are one annotation

PAIRS = {
    "strict": (int, Strict(False)), "strict2": (bool, Strict(False)), "precision": (decimal.Decimal, Precision(prec=2)), "dates": (datetime.date, DateFormat("%d.%m.%Y")), "extra": (XY.hint, ExtraKeys(True)), "defaults": (DEF.hint, SerializeDefaults(False)),
    "union": (t.Union[XY.hint, PQ.hint], Union({"xy": XY.hint, "pq": PQ.hint}, style=Union.KEYED)),
}


@harness("C23", "one", shards=[{"key": k} for k in PAIRS], cover=["same"], bounds="7 settings among metadata in 6 ways of nesting; any JSON value (1 level), and values")
def one(ctx, key):
    """A setting counts wherever it is among the metadata, in any nesting of annotations."""
    base, st = PAIRS[key]
    hint = ctx.choice("way", [
        lambda: t.Annotated[base, "x", st], lambda: t.Annotated[base, st, []], lambda: t.Annotated[t.Annotated[base, st], "x"], lambda: t.Annotated[t.Annotated[base, "x", {}], st], lambda: te.Annotated[t.Annotated[te.Annotated[base, "x"], st], None, "y"],
        lambda: t.Annotated[base, Odd(), st],
    ])()
    plain = t.Annotated[base, st]
    if ctx.flag("load"):
        v = ctx.choice("payload", [
            lambda: json_value(ctx, "p", depth=1, width=2 if key in ("extra", "union") else 1, floats=("fin",)), lambda: {"x": 1, "y": "s", "z": 2}, lambda: "1.2345", lambda: "01.02.2003", lambda: "yes", lambda: {"xy": {"x": 1, "y": "s"}},
        ])()
        alike(ctx, ctx.attempt(load, v, hint), ctx.attempt(load, v, plain))
    else:
        x = ctx.choice("value", [lambda: ctx.int("i"), True, lambda: decimal.Decimal("1.2345"), datetime.date(2003, 2, 1), lambda: XY.gen(ctx, "xy"), lambda: DEF.cls(a=ctx.int("a"), b=ctx.str("b"), d=None)])
        x = x() if callable(x) else x
        alike(ctx, ctx.attempt(dump, x, hint), ctx.attempt(dump, x, plain))
    ctx.cover("same")


def alike(ctx, a, b):
    ctx.check(a.ok == b.ok, "accepted in one way only", lambda: f"{a!r} {b!r}")
    if a.ok:
        ctx.check(same(a.value, b.value), "another result", lambda: f"{a!r} {b!r}")
    else:
        ctx.check(isinstance(a.exc, ConversionError) and isinstance(b.exc, ConversionError), "not a conversion error", lambda: f"{a!r} {b!r}")


# -- ways to write a type

T1 = t.TypeVar("T1")


@dataclasses.dataclass
class Pair(t.Generic[T1]):
    a: T1
    b: "t.Optional[T1]" = None


WAYS = {
    "list": ([1], t.List[int], list[int], list[te.Annotated[int, "x"]]),
    "dict": ({"a": 1}, t.Dict[str, int], dict[str, int]),
    "set": ([1], t.Set[int], set[int]),
    "frozenset": (["a"], t.FrozenSet[str], frozenset[str]),
    "vtuple": ([1], t.Tuple[int, ...], tuple[int, ...]),
    "tuple": ([1, "a"], t.Tuple[int, str], tuple[int, str]),
    "empty": ([], t.Tuple[()], tuple[()]),
    "opt": (None, t.Optional[int], t.Union[int, None], t.Union[None, int], int | None, None | int),
    "optlist": (["a"], t.Optional[t.List[str]], t.Union[list[str], None], list[str] | None),
    "union": ("a", t.Union[int, str], int | str),
    "union3": ("a", t.Union[int, str, XY.hint], int | str | XY.hint, t.Union[int, t.Union[str, XY.hint]]),
    "optunion": (1, t.Optional[t.Union[bool, int]], t.Union[bool, int, None], t.Union[None, bool, int], bool | int | None, t.Union[t.Optional[bool], int]),
    "deque": ([1], t.Deque[int], collections.deque[int]),
    "ordered": ({"a": 1}, t.OrderedDict[str, int], collections.OrderedDict[str, int]),
    "sequence": ([1], t.Sequence[int], collections.abc.Sequence[int]),
    "mapping": ({"a": 1}, t.Mapping[str, int], collections.abc.Mapping[str, int], te.Annotated[t.Mapping[str, int], "x"]),
    "collection": ([1], t.Collection[int], collections.abc.Collection[int]),
    "absset": ([1], t.AbstractSet[int], collections.abc.Set[int]),
    "text": ("a", str, t.Text, te.Text),
    "literal": ("a", t.Literal["a", 2], t.Literal[t.Literal["a"], 2], te.Literal["a", 2]),
    "any": (1, t.Any, te.Any, object),
    "generic": ({"a": 1, "b": 2}, Pair[int], Pair[te.Annotated[int, 1]]),
    "typeddict": ({"name": "a", "items": 2}, TD.hint, te.Annotated[TD.hint, TD.hint]),
    "newtype": (1, int, t.NewType("Number", int)),
    "alias": ([[1]], t.List[t.List[int]], list[list[int]], t.List[list[int]]),
}


@harness("C23", "ways", shards=[{"key": k, "spot": s} for k in WAYS for s in ("root", "list", "field", "text")], cover=["same"], bounds="25 types with 2 to 5 ways to write each, at the root, in a list, a field and a field with the annotation as text; every JSON value (2 levels) and values")
def ways(ctx, key, spot):
    example, first, *rest = WAYS[key]
    i = ctx.pick("way", len(rest))
    other = rest[i]
    if spot == "list":
        first, other = t.List[first], t.List[other]
    elif spot == "field":
        first, other = (t.TypedDict("One", {"f": h}) for h in (first, other))
    elif spot == "text":
        first, other = (make_text(key, n) for n in (1, 2 + i))
    if ctx.flag("any"):
        v = json_value(ctx, "p", depth=2 if key in ("alias", "optlist") else 1, width=2 if key in ("tuple", "generic", "typeddict") else 1, floats=("fin",))
    else:
        v = example
    w = {"root": lambda: v, "list": lambda: [v]}.get(spot, lambda: {"f": v})()
    a, b = ctx.attempt(load, w, first), ctx.attempt(load, w, other)
    if spot == "text":
        a, b = plain_outcome(a), plain_outcome(b)
    alike(ctx, a, b)
    if a.ok:
        x, y = (a.value, b.value) if spot != "text" else (first(a.value), other(b.value))
        alike(ctx, ctx.attempt(dump, x, first), ctx.attempt(dump, y, other))
    else:
        x = w if spot != "text" else None
        alike(ctx, ctx.attempt(dump, x, first), ctx.attempt(dump, x, other))
    ctx.cover("same")


_TEXT = {}
globals().update({f"W_{k}_{i}": h for k, v in WAYS.items() for i, h in enumerate(v) if i})


def make_text(key, n):
    """A class with a field whose annotation is text."""
    if (key, n) not in _TEXT:
        _TEXT[key, n] = dataclasses.dataclass(type(f"Text{n}", (), {"__annotations__": {"f": f"W_{key}_{n}"}, "__module__": __name__}))
    return _TEXT[key, n]


class plain_outcome:
    def __init__(self, o):
        self.ok, self.exc = o.ok, o.exc
        self.value = o.value.f if o.ok else None

    def __repr__(self):
        return f"{self.ok} {self.value!r} {self.exc!r}"


FIELD = {
    "alias": (int, Alias("z", "y")), "required": (t.Optional[int], Required(True)), "optional": (int, Required(False)), "flat": (XY.hint, Flattened()), "remainder": (t.Dict[str, int], Remainder()), "strict": (int, Strict(False)),
    "enum": (int, Alias("z", "y")),
}


def many_ways(ctx, base, st):
    before = ctx.choice("before", [(), ([], None), (object(), "b", {})])
    after = ctx.choice("after", [(), ("a",), (Foreign(), 1, 2, [])])
    h = t.Annotated[(base,) + before + (st,) + after]
    return t.Annotated[h, "outer"] if before and not after else h


_BUILT = {}


def build_enum(hint):
    class E(enum.Enum):
        __annotations__ = {"a": hint}
        a = 1
        b = 2

    return E


@harness("C23", "one_field", shards=[{"key": k} for k in FIELD], cover=["same"], bounds="settings of fields and enum members with up to 7 other annotations before and after it; every subset of the keys that count, integers, text and null")
def one_field(ctx, key):
    """The settings of a field or enum member count wherever they are among the metadata."""
    base, st = FIELD[key]
    hint = many_ways(ctx, base, st)
    if key == "enum":
        cls, plain = build_enum(hint), build_enum(t.Annotated[base, st])
        v = ctx.choice("v", [lambda: ctx.str("s"), lambda: 1])()
        a, b = ctx.attempt(load, v, cls), ctx.attempt(load, v, plain)
        ctx.check(a.ok == b.ok and (not a.ok or a.value.name == b.value.name), "another result", lambda: f"{a!r} {b!r}")
        for m in ("a", "b"):
            alike(ctx, ctx.attempt(dump, cls[m], cls), ctx.attempt(dump, plain[m], plain))
        ctx.cover("same")
        return
    names = {"flat": ("x", "y"), "alias": ("z", "y", "a")}.get(key, ("a",))
    cls, plain = (dataclasses.make_dataclass("F", [("a", h), ("k", int, 0)]) for h in (hint, t.Annotated[base, st]))
    v = presence(ctx, "p", names, lambda n, k: json_value(ctx, n, depth=0, kinds=("null", "int", "str")) if key not in ("alias", "flat") else ctx.int(n), extra=1, orders=False)
    a, b = ctx.attempt(load, v, cls), ctx.attempt(load, v, plain)
    ctx.check(a.ok == b.ok, "accepted in one way only", lambda: f"{a!r} {b!r}")
    if a.ok:
        ctx.check(same(vars(a.value), vars(b.value)), "another result", lambda: f"{a!r} {b!r}")
        alike(ctx, ctx.attempt(dump, a.value, cls), ctx.attempt(dump, b.value, plain))
    ctx.cover("same")
