"""Collections, tuples and mappings convert element by element."""

from databind.core import ObjectMapper
from databind.json import dump, load
from databind.json.converters import AnyConverter, CollectionConverter, MappingConverter, PlainDatatypeConverter
from props.zoo import *
from symex.harness import harness

T_, V_ = t.TypeVar("T_"), t.TypeVar("V_")


class IntList(t.List[int]):
    pass


class Col(t.List[T_]):
    pass


class StrCol(Col[str]):
    pass


class OptCol(Col[t.Optional[T_]], t.Generic[T_]):
    pass


class OptTup(t.Tuple[t.Optional[T_], ...], t.Generic[T_]):
    pass


class Tagged(t.List[int], t.Generic[T_]):
    pass


class MySet(t.Set[T_]):
    pass


class MyTuple(t.Tuple[T_, ...]):
    pass


class UserL(collections.UserList, t.MutableSequence[T_]):
    pass


class Agreeing(t.List[int], t.Hashable):
    __hash__ = None


class Odd(t.List[int]):
    """Cannot be made from a list."""

    def __init__(self, a, b):
        raise AssertionError


SEQ = {
    "List": (lambda h: t.List[h], list), "list": (lambda h: list[h], list), "Set": (lambda h: t.Set[h], set), "set": (lambda h: set[h], set),
    "FrozenSet": (lambda h: t.FrozenSet[h], frozenset), "Tuple": (lambda h: t.Tuple[h, ...], tuple), "tuple": (lambda h: tuple[h, ...], tuple),
    "Deque": (lambda h: t.Deque[h], collections.deque), "Sequence": (lambda h: t.Sequence[h], list), "Collection": (lambda h: t.Collection[h], list),
    "MutableSequence": (lambda h: t.MutableSequence[h], list), "abc.Sequence": (lambda h: collections.abc.Sequence[h], list),
    "AbstractSet": (lambda h: t.AbstractSet[h], set), "MutableSet": (lambda h: t.MutableSet[h], set), "Col": (lambda h: Col[h], Col),
    "MySet": (lambda h: MySet[h], MySet), "MyTuple": (lambda h: MyTuple[h], MyTuple), "UserL": (lambda h: UserL[h], UserL),
}
FIXED = {"IntList": (IntList, IntList, INT), "StrCol": (StrCol, StrCol, STR), "OptCol": (OptCol[int], OptCol, TOpt(INT)), "OptTup": (OptTup[int], OptTup, TOpt(INT)), "Tagged": (Tagged[str], Tagged, INT), "Agreeing": (Agreeing, Agreeing, INT), "Odd": (Odd, list, INT)}
SETS = (set, frozenset, MySet)
ELEMENTS = {"int": INT, "str": STR, "opt": TOpt(INT), "union": TUnion(BOOL, STR), "any": ANY}


def kind(name, elem):
    if name in FIXED:
        return FIXED[name]
    mk, cls = SEQ[name]
    ty = ELEMENTS[elem]
    return mk(ty.hint), cls, ty


def elements(ctx, name, n, how):
    return [how(ctx, f"{name}{i}") for i in range(n)]


def small(ctx, name):
    return scalar(ctx, name, ("fin",))


def plain_items(x):
    return list(x)


def converted(ty, items, fn, s):
    return [getattr(ty, fn)(x, s) for x in items]


def check_items(ctx, got, cls, items, what):
    ctx.check(type(got) is cls, f"{what}: kind of collection", lambda: f"{type(got)} {got!r}")
    if cls in SETS:
        ctx.check(all([i in got for i in items]) and all([g in items for g in got]), f"{what}: elements", lambda: f"{got!r} {items!r}")
    else:
        ctx.check(same(list(got), items), f"{what}: elements", lambda: f"{got!r}, not {items!r}")


SEQ_SHARDS = [{"seq": s, "elem": "int", "n": 3} for s in SEQ if s not in ("set", "tuple", "list")] + [{"seq": s, "elem": "int", "n": 3} for s in FIXED] + [
    {"seq": s, "elem": e, "n": 2} for s in ("List", "tuple", "list", "set", "Deque") for e in ELEMENTS]
SEQ_DEEP = SEQ_SHARDS + [{"seq": s, "elem": "int", "n": 5} for s in SEQ] + [{"seq": s, "elem": e, "n": 3} for s in SEQ for e in ELEMENTS]


@harness("C20", "load", shards=SEQ_SHARDS, thorough=SEQ_DEEP, cover=["accepted", "refused"], bounds="25 kinds of collections, up to 3 (5) elements, each any scalar", max_paths=30000)
def load_seq(ctx, seq, elem, n):
    hint, cls, ty = kind(seq, elem)
    k = ctx.pick("len", n + 1)
    # (MySet hashes its elements)
    items = elements(ctx, "e", k, small) if cls is not MySet else [ctx.choice(f"e{i}", [1, 2, 3.5, "s", None]) for i in range(k)]
    p = items if ctx.flag("as list") else tuple(items)
    s = S()
    got = ctx.attempt(load, p, hint)
    try:
        want = converted(ty, items, "ref_load", s)
    except Bad:
        ctx.cover("refused")
        ctx.check(not got.ok and isinstance(got.exc, ConversionError), "an element is invalid", lambda: f"{p!r} {got!r}")
        return
    ctx.cover("accepted")
    ctx.check(got.ok, "refused", lambda: f"{p!r} {got!r}")
    if got.ok:
        check_items(ctx, got.value, cls, want, "load")


DUMPABLE = [s for s in list(SEQ) + list(FIXED) if s != "Odd"]


@harness("C20", "dump", shards=[x for x in SEQ_SHARDS if x["seq"] != "Odd"], thorough=[x for x in SEQ_DEEP if x["seq"] != "Odd"], cover=["accepted", "refused"], bounds="24 kinds of collections, up to 3 (5) elements, each any scalar", max_paths=30000)
def dump_seq(ctx, seq, elem, n):
    hint, cls, ty = kind(seq, elem)
    k = ctx.pick("len", n + 1)
    if cls in SETS and k > 1:
        # (equal elements of a set are one)
        items = [ctx.int("e0") if cls is not MySet else 3, ctx.str("e1") if cls is not MySet else "x", None][:k]
    else:
        items = elements(ctx, "e", k, small)
    x = cls(items)
    s = S()
    got = ctx.attempt(dump, x, hint)
    try:
        want = converted(ty, list(x), "ref_dump", s)
    except Bad:
        ctx.cover("refused")
        ctx.check(not got.ok and isinstance(got.exc, ConversionError), "an element is invalid", lambda: f"{x!r} {got!r}")
        return
    ctx.cover("accepted")
    ctx.check(got.ok and type(got.value) is list, "refused, or not a list", lambda: f"{x!r} {got!r}")
    if got.ok:
        ctx.check(same(got.value, want), "dump: elements", lambda: f"{got.value!r}, not {want!r}")


# -- tuples

TUPLES = [(), (INT,), (INT, STR), (STR, INT), (INT, INT, STR), (BOOL, STR, INT, TOpt(INT)), (INT, TTuple(STR, INT)), (TSeq(INT, width=1), INT)]


@harness("C20", "tuples", shards=[{"i": i, "b": b} for i in range(len(TUPLES)) for b in (False, True)], cover=["refused"], bounds="tuples of up to 4 types; up to 2 elements more or less, each any scalar or container", max_paths=30000)
def tuples(ctx, i, b):
    items = TUPLES[i]
    if b:
        hint = tuple[tuple([x.hint for x in items])] if items else tuple[()]
    else:
        hint = t.Tuple[tuple([x.hint for x in items])] if items else t.Tuple[()]
    n = ctx.pick("len", len(items) + 3)
    which = ctx.pick("which", n) if n else 0
    good = [5, "five", True, None]
    v = []
    for k in range(n):
        if k == which:
            v.append(json_value(ctx, f"e{k}", depth=1, width=2, floats=("fin",)) if k < 2 and len(items) == 2 else small(ctx, f"e{k}"))
        else:
            ty = items[k] if k < len(items) else INT
            v.append(["x", 1] if isinstance(ty, TTuple) else [] if isinstance(ty, TSeq) else next(x for x in good if accepts(ty, x)))
    ty = TTuple(*items) if items else None
    s = S()

    def ref(fn, x):
        if len(x) != len(items):
            raise Bad
        r = [getattr(ty, fn)(y, s) for ty, y in zip(items, x)]
        return tuple(r) if fn == "ref_load" else r

    got = ctx.attempt(load, v, hint)
    agree(ctx, got, lambda: ref("ref_load", v), "load")
    x = tuple([tuple(y) if type(y) is list and k < len(items) and isinstance(items[k], TTuple) else y for k, y in enumerate(v)])
    out = ctx.attempt(dump, x, hint)
    agree(ctx, out, lambda: ref("ref_dump", x), "dump")


def accepts(ty, x):
    try:
        ty.ref_load(x, S())
    except Bad:
        return False
    return True


# -- mappings


class M1(t.Dict[str, V_]):
    pass


class M2(collections.UserDict, t.MutableMapping[str, V_]):
    pass


class M3(t.Dict[T_, V_]):
    pass


class M4(M1[int]):
    pass


class M5(t.Dict[V_, T_], t.Generic[T_, V_]):
    pass


MAPS = {
    "Dict": (lambda k, v: t.Dict[k, v], dict), "dict": (lambda k, v: dict[k, v], dict), "Mapping": (lambda k, v: t.Mapping[k, v], dict),
    "MutableMapping": (lambda k, v: t.MutableMapping[k, v], dict), "abc.Mapping": (lambda k, v: collections.abc.Mapping[k, v], dict),
    "OrderedDict": (lambda k, v: t.OrderedDict[k, v], collections.OrderedDict), "collections": (lambda k, v: collections.OrderedDict[k, v], collections.OrderedDict),
    "M1": (lambda k, v: M1[v], M1), "M2": (lambda k, v: M2[v], M2), "M3": (lambda k, v: M3[k, v], M3), "M4": (lambda k, v: M4, M4),
    "M5": (lambda k, v: M5[v, k], M5),
}
KEYS = {"str": STR, "enum": TEnum(Color), "pet": TPet(), "uuid": TUuid(), "literal": TLit("a", "b", "c"), "union": TUnion(TEnum(Color), STR), "any": ANY, "optstr": TOpt(STR)}
KEYS3 = ("enum", "pet", "literal", "union", "optstr")
OWN = (M1, M2, M3, M4, M5)  # (keys of these are hashed, so they are from a pool)
POOL = ["a", "RED", "", "KITTY", "LION"]
MAP_SHARDS = [{"m": m, "key": "str", "n": 2} for m in MAPS] + [{"m": m, "key": k, "n": 2} for m in ("Dict", "M3") for k in KEYS if m == "Dict" or k in KEYS3] + [{"m": "Dict", "key": "str", "n": 3}]
MAP_DEEP = MAP_SHARDS + [{"m": m, "key": "str", "n": 3} for m in MAPS] + [{"m": m, "key": k, "n": 2} for m in MAPS if m not in ("M1", "M2", "M4", "M5") for k in KEYS if m != "M3" or k in KEYS3]


def compare_map(ctx, got, pairs, cls, what):
    """*got* has exactly the entries *pairs*, in this order (of equal keys the last one counts)."""
    ctx.check(type(got) is cls, f"{what}: kind of mapping", lambda: f"{type(got)}")
    want = {}
    for k, v in pairs:
        want[k] = v
    ks = [k for k in got]
    ctx.check(len(ks) == len(want), f"{what}: number of entries", lambda: f"{got!r}, not {want!r}")
    ctx.check(same(ks, list(want)), f"{what}: keys", lambda: f"{got!r}, not {want!r}")
    ctx.check(same([got[k] for k in want], [want[k] for k in want]), f"{what}: values", lambda: f"{got!r}, not {want!r}")


@harness("C20", "load_map", shards=MAP_SHARDS, thorough=MAP_DEEP, cover=["accepted", "refused"], bounds="12 kinds of mappings, 8 types of keys; up to 2 (3) entries with arbitrary keys, each value any scalar", max_paths=30000)
def load_map(ctx, m, key, n):
    mk, cls = MAPS[m]
    kt, vt = KEYS[key], INT
    k = ctx.pick("len", n + 1)
    keys = [ctx.choice(f"k{i}", POOL) if cls in OWN else ctx.str(f"k{i}") for i in range(k)]
    if cls in OWN:
        ctx.assume(len(set(keys)) == k)
    else:
        ctx.distinct(keys)
    p = ctx.mkdict([(x, small(ctx, f"v{i}")) for i, x in enumerate(keys)])
    s = S()
    got = ctx.attempt(load, p, mk(kt.hint, vt.hint))
    try:
        pairs = [(kt.ref_load(a, s), vt.ref_load(b, s)) for a, b in p.items()]
    except Bad:
        ctx.cover("refused")
        ctx.check(not got.ok and isinstance(got.exc, ConversionError), "a key or value is invalid", lambda: f"{p!r} {got!r}")
        return
    ctx.cover("accepted")
    ctx.check(got.ok, "refused", lambda: f"{p!r} {got!r}")
    if got.ok:
        compare_map(ctx, got.value, pairs, cls, "load")


@harness("C20", "dump_map", shards=MAP_SHARDS, thorough=MAP_DEEP, cover=["accepted", "refused"], bounds="12 kinds of mappings, 8 types of keys; up to 2 (3) entries, each value any scalar", max_paths=30000)
def dump_map(ctx, m, key, n):
    mk, cls = MAPS[m]
    kt, vt = KEYS[key], INT
    k = ctx.pick("len", n + 1)
    keys = [ctx.choice(f"k{i}", POOL) if cls in OWN and (key in ("str", "union", "optstr")) else kt.gen(ctx, f"k{i}") if key != "any" else ctx.str(f"k{i}") for i in range(k)]
    for i in range(k):
        for j in range(i):
            ctx.assume(neg(keys[i] == keys[j]))
    if k and ctx.flag("other key"):
        keys[-1] = ctx.choice("bad", [7, (1, 2), None, b"k"] if key != "literal" else [7, None])
    x = {}
    for i, a in enumerate(keys):
        x[a] = small(ctx, f"v{i}")
    items = list(x.items())
    if cls is not dict:
        x = cls(x)
    s = S()
    got = ctx.attempt(dump, x, mk(kt.hint, vt.hint))
    if key == "any" and any([type(a) is not str for a in keys]):
        return  # (not JSON)
    try:
        pairs = [(kt.ref_dump(a, s), vt.ref_dump(b, s)) for a, b in items]
    except Bad:
        ctx.cover("refused")
        ctx.check(not got.ok and isinstance(got.exc, ConversionError), "a key or value is invalid", lambda: f"{x!r} {got!r}")
        return
    ctx.cover("accepted")
    ctx.check(got.ok, "refused", lambda: f"{x!r} {got!r}")
    if got.ok:
        compare_map(ctx, got.value, pairs, dict, "dump")


# -- what is not a collection (or a mapping)


def things(ctx):
    i = ctx.int("i")
    return ctx.choice("thing", [
        lambda: ctx.str("text"), lambda: b"\x01\x02", lambda: bytearray(b"\x01"), lambda: memoryview(b"\x01\x02"), lambda: {}, lambda: {1: i}, lambda: collections.OrderedDict(),
        lambda: types.MappingProxyType({}), lambda: i, lambda: None, lambda: object(), lambda: iter([i]), lambda: (x for x in [i]), lambda: map(int, []), lambda: list, lambda: Alien(),
        lambda: StrSub("ab"), lambda: Color.RED, lambda: Color, lambda: collections.UserDict({1: 2}), lambda: collections.UserString("ab"), lambda: True, lambda: 1.5,
    ])()


NOT_SEQ = ["List", "list", "Set", "FrozenSet", "Tuple", "Deque", "Sequence", "Collection", "AbstractSet", "Col", "UserL", "fixed"]


@harness("C20", "no_collection", shards=[{"seq": s} for s in NOT_SEQ], cover=["refused"], bounds="22 kinds of things that are not collections")
def no_collection(ctx, seq):
    x = things(ctx)
    if seq == "fixed":
        hint = t.Tuple[int, int]
    elif seq == "Collection":
        hint = t.Collection[t.Any]
    else:
        hint = SEQ[seq][0](t.Any)
    # (a UserString is a sequence of strings, an enumeration a collection of its members: not said)
    odd = isinstance(x, (collections.UserString, enum.EnumMeta))
    if odd:
        return
    got = ctx.attempt(load, x, hint)
    ctx.cover("refused")
    ctx.check(not got.ok and isinstance(got.exc, ConversionError), "load: no collection", lambda: f"{x!r} {got!r}")
    got = ctx.attempt(dump, x, hint)
    ctx.check(not got.ok and isinstance(got.exc, ConversionError), "dump: no collection", lambda: f"{x!r} {got!r}")


@harness("C20", "no_mapping", shards=[{"m": m} for m in ("Dict", "Mapping", "OrderedDict", "M1", "M2")], cover=["refused"], bounds="19 kinds of things that are not mappings")
def no_mapping(ctx, m):
    hint = MAPS[m][0](str, t.Any)
    x = things(ctx) if ctx.flag("is thing") else ctx.choice("seq", [[], [["a", 1]], (("a", 1),), {("a", 1)}, {"a": 1}.items(), [("a", 1)]])
    if isinstance(x, collections.abc.Mapping):
        return
    ctx.cover("refused")
    for fn in (load, dump):
        got = ctx.attempt(fn, x, hint)
        ctx.check(not got.ok and isinstance(got.exc, ConversionError), "no mapping", lambda: f"{x!r} {got!r}")


@harness("C20", "other_kind", shards=[{"seq": s} for s in DUMPABLE], cover=["accepted", "refused"], bounds="every kind of collection where another one is expected")
def other_kind(ctx, seq):
    """Loading takes the elements of any kind of collection, dumping requires the declared kind."""
    hint, cls, ty = kind(seq, "int")
    i = ctx.int("i") if seq != "StrCol" else ctx.str("i")
    x = ctx.choice("made", [list, tuple, set, frozenset, collections.deque, collections.UserList, IntList, MySet, Col])([i])
    got = ctx.attempt(load, x, hint)
    ctx.check(got.ok, "load", lambda: f"{x!r} {got!r}")
    check_items(ctx, got.value, cls, [i], "load")
    out = ctx.attempt(dump, x, hint)
    base = {"Sequence": collections.abc.Sequence, "Collection": collections.abc.Collection, "MutableSequence": collections.abc.MutableSequence, "abc.Sequence": collections.abc.Sequence,
            "AbstractSet": collections.abc.Set, "MutableSet": collections.abc.MutableSet}.get(seq, cls)
    if isinstance(x, base):
        ctx.cover("accepted")
        ctx.check(out.ok and same(out.value, [i]), "dump", lambda: f"{x!r} {out!r}")
    else:
        ctx.cover("refused")
        ctx.check(not out.ok and isinstance(out.exc, ConversionError), "dump of another kind of collection", lambda: f"{x!r} {out!r}")


# -- nested


NESTED = {
    "ll": TSeq(TSeq(INT)), "lt": TSeq(TTuple(INT, STR)), "ld": TSeq(TDict(STR, INT)), "dl": TDict(STR, TSeq(INT)), "dd": TDict(STR, TDict(STR, INT, width=1)),
    "td": TTuple(TDict(STR, INT), TSeq(INT, "vtuple")), "lls": TSeq(TSeq(TSeq(INT, width=1), "vtuple", 1)), "od": TOpt(TDict(STR, TOpt(TSeq(INT)))), "lo": TSeq(XY),
}


@harness("C20", "nested", shards=[{"n": n} for n in NESTED], cover=["accepted", "refused"], bounds="collections in collections: one arbitrary JSON value of depth 1 at any place in a valid value", max_paths=30000)
def nested(ctx, n):
    """One of the elements of a valid payload is replaced by anything."""
    ty = NESTED[n]
    v = fill(ctx, ty, "v")
    s = S()
    got = ctx.attempt(load, v, ty.hint)
    agree(ctx, got, lambda: ty.ref_load(v, s), "load")
    if got.ok:
        want = ty.ref_load(v, s)
        ctx.check(key_order(got.value) == key_order(want), "order of the keys")
        out = ctx.attempt(dump, got.value, ty.hint)
        agree(ctx, out, lambda: ty.ref_dump(want, s), "dump")


def fill(ctx, ty, name):
    """A valid payload for *ty* with arbitrary values at the places chosen by flags (only one on each level)."""
    if isinstance(ty, TOpt):
        return fill(ctx, ty.inner, name)
    if isinstance(ty, (TSeq, TTuple)):
        subs = list(ty.items) if isinstance(ty, TTuple) else [ty.inner] * 2
        w = ctx.pick(name + ".w", len(subs) + 1)
        if w == len(subs):
            return json_value(ctx, name, depth=1, width=1, floats=("fin",))
        return [fill(ctx, x, f"{name}.{i}") if i == w else sample(x) for i, x in enumerate(subs)]
    if isinstance(ty, TDict):
        if ctx.flag(name + ".w"):
            return json_value(ctx, name, depth=1, width=1, floats=("fin",))
        a = ctx.str(name + ".a")
        ctx.distinct([a, "b"])
        entries = [(a, fill(ctx, ty.value, name + ".1")), ("b", sample(ty.value))]
        if ctx.flag(name + ".rev"):
            entries.reverse()
        return ctx.mkdict(entries)
    return json_value(ctx, name, depth=1, width=1, floats=("fin",))


def sample(ty):
    if isinstance(ty, TOpt):
        return None
    if isinstance(ty, TTuple):
        return [sample(x) for x in ty.items]
    if isinstance(ty, TSeq):
        return [sample(ty.inner)]
    if isinstance(ty, TDict):
        return {"s": sample(ty.value)}
    return {"int": 1, "str": "s"}[ty.hint.__name__] if ty is not XY else {"x": 1, "y": "y"}


# -- item types that are ambiguous or not given


class Ambiguous(t.List[int], t.Collection[str]):
    pass


class AmbiguousMap(t.Dict[str, int], t.Mapping[str, str]):
    pass


@harness("C20", "untyped", cover=["done"], bounds="collections without or with several item types")
def untyped(ctx):
    hint = ctx.choice("hint", [list, t.List, tuple, set, collections.deque, dict, t.Dict, t.Mapping, collections.namedtuple("P", "a b"), Ambiguous, AmbiguousMap])
    mapping = isinstance(hint, type) and issubclass(hint, dict) or hint in (t.Dict, t.Mapping)
    v = json_value(ctx, "v", depth=1, width=1)
    got = ctx.attempt(load, v, hint)
    ctx.cover("done")
    ctx.check(not got.ok and isinstance(got.exc, ConversionError), "converted without an item type", lambda: f"{hint} {v!r} {got!r} {mapping}")


# -- the kinds of collections that are written can be chosen


class JsonList(list):
    pass


class JsonDict(dict):
    pass


@harness("C20", "json_types", cover=["done"], bounds="another type of lists and objects to be written; arbitrary values")
def json_types(ctx):
    m = ObjectMapper()
    for c in (AnyConverter(), CollectionConverter(JsonList), MappingConverter(JsonDict), PlainDatatypeConverter()):
        m.module.register(c)
    i, k = ctx.int("i"), ctx.str("k")
    x = ctx.choice("x", [0, 1, 2])
    if x == 0:
        out = ctx.attempt(m.serialize, [i, i], t.List[int], observe=False)
        ctx.check(out.ok and type(out.value) is JsonList and same(list(out.value), [i, i]), "list", lambda: repr(out))
        got = ctx.attempt(m.deserialize, [i], t.List[int])
        ctx.check(got.ok and same(got.value, [i]), "load")
    elif x == 1:
        d = ctx.mkdict([(k, i)])
        out = ctx.attempt(m.serialize, d, t.Dict[str, int], observe=False)
        ctx.check(out.ok and type(out.value) is JsonDict and list(out.value) == [k] and same(out.value[k], i), "dict", lambda: repr(out))
        got = ctx.attempt(m.deserialize, d, t.Dict[str, int])
        ctx.check(got.ok and same(got.value, d), "load")
    else:
        out = ctx.attempt(m.serialize, (i, [i]), t.Tuple[int, t.List[int]], observe=False)
        ctx.check(out.ok and type(out.value) is JsonList and type(out.value[1]) is JsonList, "nested", lambda: repr(out))
    ctx.cover("done")
