"""The conversion of a value does not depend on where it stands."""

import enum

from databind.core import DateFormat, DeserializeAs
from databind.core.converter import NoMatchingConverter
from databind.core.settings import Precision
from databind.json import JsonConverter, dump, load
from props.zoo import *
from symex.harness import harness


class Perm(enum.Flag):
    READ = 1
    WRITE: t.Annotated[int, Alias("w", "write")] = 2
    RW = 3


class Num(enum.IntEnum):
    ONE = 1
    TWO = 2


@JsonConverter.using_classmethods(serialize="to_text", deserialize="of_text", serialized_type=str)
@dataclasses.dataclass
class Code:
    text: str

    def to_text(self):
        return "<" + self.text

    @classmethod
    def of_text(cls, s):
        if s.startswith("!"):
            raise ValueError("bad code")
        return cls(s)


UNI = t.Annotated[t.Union[XY.hint, PQ.hint], Union({"xy": XY.hint, "pq": PQ.hint}, style=Union.FLAT, discriminator_key="kind")]
KEYED = t.Annotated[t.Union[XY.hint, int], Union({"xy": XY.hint, "i": int}, style=Union.KEYED)]
NESTED = t.Annotated[t.Union[XY.hint, int], Union({"xy": XY.hint, "i": int}, style=Union.NESTED)]
AS = t.Annotated[XY.hint, DeserializeAs(DEF2.hint)]
OPEN = ExtraKeys(True)(dataclasses.make_dataclass("Open31", [("x", int, 0)], bases=(), module=MOD))
AS2 = t.Annotated[XY.hint, DeserializeAs(OPEN)]
EXTRA = t.Annotated[XY.hint, ExtraKeys(True)]

# hint and good payloads (with a value for a key or item of which every scalar is tried, too)
TYPES = {
    "int": (int, [3]), "str": (str, ["s"]), "bool": (bool, [True]), "float": (float, [1.5]), "bytes": (bytes, ["YQ=="]), "any": (t.Any, [3]), "lenient": (t.Annotated[int, Strict(False)], ["3"]), "decimal": (decimal.Decimal, ["1.50"]), "precise": (t.Annotated[decimal.Decimal, Precision(prec=2)], ["1.55"]),
    "uuid": (uuid.UUID, ["12345678123456781234567812345678"]), "path": (pathlib.Path, ["a/b"]), "date": (datetime.date, ["2020-02-29"]), "datetime": (datetime.datetime, ["2020-02-29T10:11:12Z"]), "format": (t.Annotated[datetime.date, DateFormat("%d.%m.%Y", "%Y")], ["01.02.2020", "2020"]),
    "literal": (t.Literal["a", 1], ["a", 1]), "enum": (Color, ["RED"]), "flag": (Perm, ["READ", "w", "RW"]), "intenum": (Num, [1]), "opt": (t.Optional[int], [3, None]), "union": (t.Union[int, str], [3, "s"]), "optunion": (t.Optional[t.Union[int, str]], [3, "s"]), "unionxy": (t.Union[XY.hint, PQ.hint], [{"x": 1, "y": "s"}, {"p": "s"}]),
    "list": (t.List[int], [[1], [1, 2]]), "set": (t.Set[str], [["a"], ["a", "a"]]), "frozenset": (t.FrozenSet[int], [[1, 2]]), "vtuple": (t.Tuple[int, ...], [[1, 2]]), "tuple": (t.Tuple[int, str], [[1, "a"]]), "sequence": (t.Sequence[int], [[1]]), "deque": (t.Deque[int], [[1]]),
    "dict": (t.Dict[str, int], [{"a": 1}, {"a": 1, "b": 2}]), "keys": (t.Dict[Color, int], [{"RED": 1}]), "mapping": (t.Mapping[str, int], [{"a": 1}]), "xy": (XY.hint, [{"x": 1, "y": "s"}]), "def": (DEF2.hint, [{"c": [2]}, {"a": 1}]), "ali": (ALI.hint, [{"a": 1}, {"b": 2, "c": True, "q": "t"}]), "req": (REQ.hint, [{"o": None, "m": 2}]),
    "flat": (FLAT1.hint, [{"a": 1, "x": 2, "y": "s"}]), "rem": (REM.hint, [{"a": 1, "z": 2}]), "td": (TD.hint, [{"name": "a", "items": 2}, {"name": "a", "items": 2, "year": 1.5}]), "nt": (NT.hint, [{"a": 1, "b": "s"}]), "box": (TBox(INT, width=1).hint, [{"content": 1}]), "node": (TNode(1).hint, [{"label": "a", "kids": [{"label": "b"}]}]),
    "flatu": (UNI, [{"kind": "xy", "x": 1, "y": "s"}]), "keyed": (KEYED, [{"xy": {"x": 1, "y": "s"}}, {"i": 3}]), "nested": (NESTED, [{"type": "xy", "xy": {"x": 1, "y": "s"}}, {"type": "i", "i": 3}]), "code": (Code, ["c"]), "as": (AS, [{"a": 2, "c": [1]}]), "as2": (AS2, [{"x": 2, "z": 3}]), "extra": (EXTRA, [{"x": 1, "y": "s", "z": 3}]),
}


class Spot:
    """Where something stands: the type of the whole, and how to put it there and get it out again (as value, as JSON)."""

    def __init__(self, hint, path, whole, get=None, value=None):
        self.hint, self.path, self.whole = hint, path, whole
        self.get = get
        self.value = value or whole

    def take(self, whole):
        if self.get is not None:
            return self.get(whole)
        return self.take_json(whole)

    def take_json(self, whole):
        for k in self.path:
            whole = whole[k]
        return whole


def classes(h):
    d3 = dataclasses.make_dataclass("P3", [("q", int, 0), ("z", h, dataclasses.field())], module=MOD, kw_only=True)
    d2 = dataclasses.make_dataclass("P2", [("y", d3)], module=MOD)
    d1 = dataclasses.make_dataclass("P1", [("x", d2)], module=MOD)
    wide = dataclasses.make_dataclass("P4", [("a", int, 0), ("b", t.Optional[int], None), ("c", int, 1), ("d", t.Annotated[h, Alias("D", "d")], dataclasses.field())], module=MOD, kw_only=True)
    return d1, d2, d3, wide


def make_spots(h):
    d1, d2, d3, wide = classes(h)
    td = TTypedDict("PT", F("k", _Raw(h))).hint
    nt = TNamedTuple("PN", F("i", INT), F("k", _Raw(td))).hint
    inner = dataclasses.make_dataclass("PI", [("n", d3)], module=MOD)
    flat = dataclasses.make_dataclass("PF", [("m", int), ("inner", t.Annotated[inner, Flattened()])], module=MOD)
    rest = dataclasses.make_dataclass("PR", [("m", int), ("rest", t.Annotated[t.Dict[str, t.Dict[str, h]], Remainder()])], module=MOD)
    uni = t.Annotated[t.Union[d2, int], Union({"two": d2, "i": int}, style=Union.NESTED)]
    sub = t.Annotated[t.List[t.Annotated[t.Dict[str, t.Annotated[t.List[h], "a"]], [], None]], "b"]
    return {
        "third": Spot(t.Tuple[t.Any, t.Any, h], [2], lambda v: (0, "s", v)),
        "fifth": Spot(t.List[t.Tuple[int, int, int, int, h]], [0, 4], lambda v: [(1, 2, 3, 4, v)]),
        "lists": Spot(t.List[t.List[t.List[t.List[h]]]], [0, 0, 0, 0], lambda v: [[[[v]]]]),
        "all": Spot(t.Dict[str, t.List[h]], ["k", 2], lambda v: {"k": [v, v, v]}),
        "dicts": Spot(t.Mapping[str, t.Dict[str, t.Dict[str, h]]], ["a", "b", "c"], lambda v: {"a": {"b": {"c": v}}}),
        "fields": Spot(d1, ["x", "y", "z"], lambda v: {"x": {"y": {"q": 5, "z": v}}}, lambda w: w.x.y.z, lambda v: d1(d2(d3(q=5, z=v)))),
        "last": Spot(t.Optional[wide], ["D"], lambda v: {"a": 1, "b": None, "c": 3, "D": v}, lambda w: w.d, lambda v: wide(a=1, b=None, c=3, d=v)),
        "mixed": Spot(t.Tuple[t.Dict[str, t.List[d3]], ...], [0, "k", 0, "z"], lambda v: [{"k": [{"q": 1, "z": v}]}], lambda w: w[0]["k"][0].z, lambda v: ({"k": [d3(q=1, z=v)]},)),
        "td": Spot(nt, ["k", "k"], lambda v: {"i": 0, "k": {"k": v}}, lambda w: w.k["k"], lambda v: nt(i=0, k={"k": v})),
        "flat": Spot(flat, ["n", "z"], lambda v: {"m": 1, "n": {"q": 2, "z": v}}, lambda w: w.inner.n.z, lambda v: flat(1, inner(d3(q=2, z=v)))),
        "rest": Spot(rest, ["r", "k"], lambda v: {"m": 1, "r": {"k": v}}, lambda w: w.rest["r"]["k"], lambda v: rest(1, {"r": {"k": v}})),
        "union": Spot(t.List[uni], [0, "two", "y", "z"], lambda v: [{"type": "two", "two": {"y": {"q": 0, "z": v}}}], lambda w: w[0].y.z, lambda v: [d2(d3(q=0, z=v))]),
        "noted": Spot(sub, [0, "k", 0], lambda v: [{"k": [v]}]),
    }


class _Raw(T):
    def __init__(self, h):
        self.hint = h


_SPOTS = {}


def spot_of(key, name):
    if key not in _SPOTS:
        _SPOTS[key] = make_spots(TYPES[key][0])
    return _SPOTS[key][name]


NAMES = ["third", "fifth", "lists", "all", "dicts", "fields", "last", "mixed", "td", "flat", "rest", "union", "noted"]
FEW = ["third", "all", "fields", "union"]


def vary(ctx, name, good):
    """A good payload, in which one key or item (at any level) may be any scalar, be absent, or be there in addition."""
    if isinstance(good, (dict, list)):
        ks = list(good) if isinstance(good, dict) else list(range(len(good)))
        k = ctx.choice(name + ".at", ks + ["more", "same"])
        if k == "same":
            return good
        if k == "more":
            return {**good, "extra": scalar(ctx, name + ".extra", ("fin",))} if isinstance(good, dict) else good + [scalar(ctx, name + ".extra", ("fin",))]
        out = dict(good) if isinstance(good, dict) else list(good)
        if isinstance(good, dict) and ctx.flag(name + ".absent"):
            del out[k]
            return out
        out[k] = vary(ctx, f"{name}.{k}", good[k]) if isinstance(good[k], (dict, list)) else scalar(ctx, name + ".v", ("fin",))
        return out
    return good


def payload(ctx, key):
    good = TYPES[key][1]
    if ctx.flag("any"):
        return json_value(ctx, "p", depth=1, width=1, floats=("fin",))
    return vary(ctx, "g", ctx.choice("good", good))


def keys_of(exc):
    out = []
    c = exc.ctx
    while c is not None:
        if c.key is not None:
            out.append(c.key)
        c = c.parent
    return out[::-1]


def with_settings(ctx, key):
    # (the default of an optional field is None)
    what = ctx.choice("settings", [None, "lenient", "extra"] + ["no defaults"] * (key not in ("opt", "optunion")))
    return {None: [], "lenient": [Strict(False)], "extra": [ExtraKeys(True)], "no defaults": [SerializeDefaults(False)]}[what]


def compare(ctx, what, spot, alone, there, taken, prefix=True):
    if alone.ok:
        ctx.cover("accepted")
        ctx.check(there.ok, f"{what}: refused at another place", lambda: f"{there!r} instead of {alone!r}")
        if there.ok:
            got = taken(there.value)
            ctx.check(same(got, alone.value), f"{what}: another result at another place", lambda: f"{got!r} instead of {alone.value!r}")
    else:
        ctx.cover("refused")
        ctx.check(not there.ok, f"{what}: accepted at another place", lambda: f"{there!r} instead of {alone!r}")
        ctx.check(type(there.exc) is type(alone.exc), f"{what}: another kind of error at another place", lambda: f"{there.exc!r} instead of {alone.exc!r}")
        if isinstance(alone.exc, ConversionError) and not isinstance(alone.exc, NoMatchingConverter) and not there.ok:
            ctx.check(there.exc.message == alone.exc.message, f"{what}: another message at another place", lambda: f"{there.exc.message} instead of {alone.exc.message}")


@harness("C31", "load", shards=[{"key": k} for k in TYPES], cover=["accepted", "refused"], bounds="49 types in 13 places up to four levels deep and up to the fifth item; every JSON value (1 level), good payloads with any scalar in one place, an absent or additional one; settings for everything", max_paths=60000)
def load_placed(ctx, key):
    hint = TYPES[key][0]
    name = ctx.choice("spot", NAMES)
    spot = spot_of(key, name)
    st = with_settings(ctx, key) if name in FEW else []
    p = payload(ctx, key)
    alone = ctx.attempt(load, p, hint, settings=st)
    whole = spot.whole(p)
    there = ctx.attempt(load, list(whole) if isinstance(whole, tuple) else whole, spot.hint, settings=st)
    compare(ctx, "load", spot, alone, there, spot.take)


VALUES = {}


@harness("C31", "dump", shards=[{"key": k} for k in TYPES], cover=["accepted"], bounds="49 types in 13 places; the values that payloads are loaded as, and any JSON value (1 level), settings for everything", max_paths=60000)
def dump_placed(ctx, key):
    hint = TYPES[key][0]
    name = ctx.choice("spot", NAMES)
    spot = spot_of(key, name)
    st = with_settings(ctx, key) if name in FEW else []
    p = payload(ctx, key)
    if ctx.flag("foreign"):
        v = p
    else:
        got = ctx.attempt(load, p, hint)
        if not got.ok:
            ctx.cut("no such value")
        v = got.value
    ob = key not in ("set", "frozenset")  # (the order of the items is not modelled)
    alone = ctx.attempt(dump, v, hint, settings=st, observe=ob)
    there = ctx.attempt(dump, spot.value(v), spot.hint, settings=st, observe=ob)
    compare(ctx, "dump", spot, alone, there, spot.take_json)
