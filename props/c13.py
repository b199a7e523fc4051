"""A conversion error points at the offending value."""

from databind.core import Context, Converter, Direction, Location, Settings, Strict, format_context_trace
from databind.core.settings import DeserializeAs
from databind.json import dump, get_object_mapper, load
from typeapi import AnnotatedTypeHint, TypeHint
from props.zoo import *
from symex.harness import harness


class Lost(Exception):
    """There is no such position."""


def bare(hint):
    th = hint if isinstance(hint, TypeHint) else TypeHint(hint)
    return (th[0] if isinstance(th, AnnotatedTypeHint) else th).hint


def describes(c, ty):
    """Whether the type expected at position *c* is that of *ty*."""
    return bare(c.datatype) == bare(ty.hint)


def leaves(f):
    return f.type.leaves() if f.flat else [f]


def taken(ty, v):
    """(field name -> value or NOVAL, keys that are left) for the payload *v* of the object *ty*."""
    found, used = {}, []
    for f in ty.fields:
        if f.remainder:
            continue
        sub = {}
        for leaf in leaves(f):
            for k in leaf.keys:
                if k in v:
                    sub[k] = v[k]
                    used.append(k)
                    break
        found[f.name] = sub if f.flat else ([sub[k] for k in sub] + [NOVAL])[0]
    left = {}
    for k in v:
        if k not in used:
            left[k] = v[k]
    for f in ty.fields:
        if f.remainder:
            found[f.name] = left
            return found, {}
        if f.flat and isinstance(f.type, TDC) and f.type.has_remainder():
            for k in left:
                found[f.name][k] = left[k]
            return found, {}
    return found, left


def field_of(ty, name):
    for f in ty.fields:
        if f.name == name:
            return f
    raise Lost(f"{ty} has no field {name!r}")


def mapping_step(ty, v, c):
    if (not describes(c, ty.key) or bare(ty.key.hint) == bare(ty.value.hint)) and c.key in v:
        return ty.value, v[c.key]
    for k in v:
        if c.value is k:
            return ty.key, k
    raise Lost(f"neither a key nor at a key of the mapping: {c.key!r}")


def item(ty, v, key):
    if type(key) is not int or not isinstance(v, (list, tuple, set, frozenset, collections.deque)) or not 0 <= key < len(v):
        raise Lost(f"no item {key!r}")
    return list(v)[key]


class TTag(TStr):
    """A discriminator is a string also without strictness."""

    def ref_load(self, v, s):
        if type(v) is not str:
            raise Bad
        return v


TAG = TTag()


def step(ty, v, c, ser):
    """(type, value) at the position *c* below the value *v* of type *ty*."""
    key = c.key
    if isinstance(ty, TSeq):
        return ty.inner, item(ty, v, key)
    if isinstance(ty, TTuple):
        return ty.items[key], item(ty, v, key)
    if isinstance(ty, TDict):
        return mapping_step(ty, v, c)
    if isinstance(ty, TOpt):
        if key is not None:
            raise Lost(f"optional: {key!r}")
        return ty.inner, v
    if isinstance(ty, TUnion):
        for m in ty.members:
            if key is None and describes(c, m):
                return m, v
        raise Lost(f"not a union member: {key!r}, {c.datatype}")
    if isinstance(ty, (TDC, TTypedDict)):
        f = field_of(ty, key)
        if ser:
            return f.type, v[key] if isinstance(ty, TTypedDict) else getattr(v, key)
        x = taken(ty, v)[0][key]
        if x is NOVAL:
            raise Lost(f"field {key!r} is not in the payload")
        return f.type, x
    if isinstance(ty, TTagged):
        if ser:
            for n, m in ty.members:
                if type(v) is pytype(m) and key is None:
                    return m, v
            raise Lost("not a union member")
        if ty.style == "keyed":
            n, m = ty.member(key)
            return m, v[key]
        if key == ty.disc and describes(c, STR):
            return TAG, v[key]
        n, m = ty.member(v[ty.disc])
        if ty.style == "nested":
            if key != (ty.nest or n):
                raise Lost(f"nesting key {key!r}")
            return m, v[key]
        if key is not None:
            raise Lost(f"flat union: {key!r}")
        rest = dict(v)
        del rest[ty.disc]
        return m, rest
    raise Lost(f"nothing below {ty}")


def refuses(fn, *a):
    try:
        fn(*a)
    except Bad:
        return True
    except Unspecified:
        return True
    return False


def own(ty, v, s, ser):
    """Whether *v* is refused for a reason of its own (and not only because of a value inside it)."""
    if isinstance(ty, TSeq):
        return not isinstance(v, ty.cls if ser else (list, tuple, set, frozenset)) or (ser and isinstance(v, (str, bytes, dict)))
    if isinstance(ty, TTuple):
        return not isinstance(v, tuple if ser else (list, tuple)) or len(v) != len(ty.items)
    if isinstance(ty, TDict):
        return not isinstance(v, dict)
    if isinstance(ty, TOpt):
        return False
    if isinstance(ty, (TDC, TTypedDict)):
        if ser:
            if isinstance(ty, TTypedDict):
                return not isinstance(v, dict) or any([f.name not in v and ty.required(f) for f in ty.fields])
            if not isinstance(v, ty.cls):
                return True
            return all([not refuses(f.type.ref_dump, getattr(v, f.name), s) for f in ty.fields]) and refuses(ty.ref_dump, v, s)
        if not isinstance(v, dict):
            return True
        found, left = taken(ty, v)
        missing = [f for f in ty.fields if found[f.name] is NOVAL and (ty.required(f) if isinstance(ty, TTypedDict) else f.is_required())]
        extra = s.extra if getattr(ty, "extra", None) is None else ty.extra
        for f in ty.fields:
            if f.flat:  # its fields are at this level
                missing.extend([x for x in f.type.leaves() if x.is_required() and not any([k in v for k in x.keys])])
        return bool(missing) or (bool(left) and not extra)
    if isinstance(ty, TTagged):
        if ser:
            return not any([type(v) is pytype(m) for _, m in ty.members]) or refuses(ty.ref_dump, v, s)
        if not isinstance(v, dict):
            return True
        if ty.style == "keyed":
            return len(v) != 1 or any([refuses(ty.member, k) for k in v])
        if ty.disc not in v:
            return True
        if type(v[ty.disc]) is not str:
            return False
        if refuses(ty.member, v[ty.disc]):
            return True
        return ty.style == "nested" and (ty.nest or ty.member(v[ty.disc])[0]) not in v
    return refuses(ty.ref_dump if ser else ty.ref_load, v, s)


def rendered(c):
    if c.key is Context.ROOT:
        return "$"
    if c.key is None:
        return "^"
    if type(c.key) is int:
        return f"[{c.key}]"
    return str(c.key)


def walk(ctx, c, ty, v, ser, filename, s):
    """Follows the path of the context *c* from the root; returns the (type, value) there."""
    chain = []
    x = c
    while x is not None and len(chain) < 50:
        chain.append(x)
        x = x.parent
    chain.reverse()
    ctx.check(list(c.iter_hierarchy_up()) == chain[::-1], "iter_hierarchy_up")
    d = Direction.SERIALIZE if ser else Direction.DESERIALIZE
    for i, x in enumerate(chain):
        ctx.check(x.direction is d, "direction", lambda: repr(x))
        ctx.check(x.location.filename is filename or x.location.filename == filename, "file name", lambda: repr(x.location))
        if i == 0:
            ctx.check(x.key is Context.ROOT, "key of the root", lambda: repr(x))
        else:
            try:
                ty, v = step(ty, v, x, ser)
            except (Lost, Bad, KeyError, IndexError, AttributeError) as exc:
                ctx.check(False, "the path does not exist in the value", lambda: f"{[y.key for y in chain]}: {exc!r}")
                return None, None
        ctx.check(describes(x, ty), "the type expected at the position", lambda: f"{[y.key for y in chain[: i + 1]]}: {x.datatype!r} instead of {ty.hint!r}")
        ctx.check(same(x.value, v), "the value found at the position", lambda: f"{[y.key for y in chain[: i + 1]]}: {x.value!r} instead of {v!r}")
    return ty, v


def judge(ctx, got, ty, v, ser, filename, s, text=False):
    if got.ok or not isinstance(got.exc, ConversionError):
        if not got.ok:
            ctx.check(False, "not a conversion error", lambda: repr(got.exc))
        ctx.cover("accepted")
        return
    ctx.cover("refused")
    exc = got.exc
    at = walk(ctx, exc.context, ty, v, ser, filename, s)
    if at[0] is None:
        return
    if isinstance(at[0], TUnion):
        ctx.check(refuses(at[0].ref_dump if ser else at[0].ref_load, at[1], s), "the union accepts the value at the position")
        for origin, e in exc.errors:
            below = walk(ctx, e.context, ty, v, ser, filename, s)
            if below[0] is not None:
                ctx.check(own(below[0], below[1], s, ser), "the value at the position of an error of a member is not the offending one")
    else:
        ctx.check(own(at[0], at[1], s, ser), "the value at the position is not the offending one", lambda: f"{[x.key for x in exc.context.iter_hierarchy_up()]} of {v!r}: {exc.message}")
    if not text:
        return
    text = str(exc)
    x = exc.context
    while x is not None:
        r = rendered(x)
        ctx.check(r in text, "the text does not contain the path", lambda: f"{r!r} in {text!r}")
        x = x.parent
    if filename is not None:
        ctx.check(filename in text, "the text does not contain the file name", lambda: text)
    ctx.check(exc.message in text, "the text does not contain the message", lambda: text)


# -- payloads that are right except that some places may be wrong


def deep(ty, name, n=1):
    return isinstance(ty.inner, TNode) and name.count("kids") > n


CONCRETE = [False]


def leaf(ctx, name, good):
    if CONCRETE[0]:
        return ctx.choice(name, [1, "s", None])
    kinds = [(k, c, m) for k, c, m in [
        ("null", type(None), lambda: None), ("bool", bool, lambda: ctx.bool(name)), ("int", int, lambda: ctx.int(name)),
        ("str", str, lambda: ctx.str(name)), ("list", list, lambda: []), ("dict", dict, lambda: {})] if k in good]
    return ctx.lazy(name, kinds)


def key(ctx, name, i=0):
    if CONCRETE[0]:
        return ctx.choice(name, [f"k{i}", f"Key({i})", f"it's {i}"])
    return ctx.str(name)


def shape(ctx, ty, name):
    if isinstance(ty, TSeq):
        def mk():
            n = ctx.pick(name + ".len", (1 if deep(ty, name) else ty.width) + 1) if not deep(ty, name, 2) else 0
            return [shape(ctx, ty.inner, f"{name}[{i}]") for i in range(n)]

        return ctx.lazy(name, [("list", list, mk), ("str", str, lambda: ctx.str(name)), ("dict", dict, lambda: {})])
    if isinstance(ty, TTuple):
        def mk():
            n = len(ty.items) + ctx.choice(name + ".off", [0, 1, -1])
            return [shape(ctx, ty.items[min(i, len(ty.items) - 1)], f"{name}[{i}]") for i in range(n)]

        return ctx.lazy(name, [("list", list, mk), ("null", type(None), lambda: None)])
    if isinstance(ty, TDict):
        def mk():
            keys = [key(ctx, f"{name}.k{i}", i) for i in range(ctx.pick(name + ".len", ty.width + 1))]
            ctx.distinct(keys)
            return ctx.mkdict([(k, shape(ctx, ty.value, f"{name}.v{i}")) for i, k in enumerate(keys)])

        return ctx.lazy(name, [("dict", dict, mk), ("list", list, lambda: [1]), ("int", int, lambda: ctx.int(name))])
    if isinstance(ty, TOpt):
        return None if ctx.flag(name + ".none") else shape(ctx, ty.inner, name)
    if isinstance(ty, TUnion):
        return shape(ctx, ty.members[ctx.pick(name + ".m", len(ty.members))], name)
    if isinstance(ty, (TDC, TTypedDict)):
        def mk():
            return ctx.mkdict(entries(ctx, ty, name))

        return ctx.lazy(name, [("dict", dict, mk), ("list", list, lambda: [["x", 1]]), ("str", str, lambda: ctx.str(name))])
    if isinstance(ty, TTagged):
        def mk():
            n, m = ty.members[ctx.pick(name + ".m", len(ty.members))]
            w = ctx.pick(name + ".wrong", 4)
            tag = ctx.str(name + ".tag") if w == 1 else None if w == 2 else n
            if ty.style == "keyed":
                d = {"zz" if w == 2 else tag: shape(ctx, m, name + ".v")} if w != 1 else ctx.mkdict([(tag, 1)])
                if w == 3:
                    d["second"] = 1
                return d
            if ty.style == "nested":
                es = [(ty.disc, tag)] + ([] if w == 3 else [(ty.nest or n, shape(ctx, m, name + ".v"))])
            else:
                es = ([] if w == 3 else [(ty.disc, tag)]) + entries(ctx, m, name + ".v", [ty.disc])
            return ctx.mkdict(es)

        return ctx.lazy(name, [("dict", dict, mk), ("list", list, lambda: [1])])
    kinds = ("null", "int", "str", "bool")
    return leaf(ctx, name, kinds)


def entries(ctx, ty, name, avoid=()):
    fs = ty.leaves()
    rem = ty.has_remainder() if isinstance(ty, TDC) else False
    w = ctx.pick(name + ".wrong", len(fs) + 2)
    es = []
    for i, f in enumerate(fs):
        if w == i + 1:
            continue
        k = f.keys[-1]
        es.append((k, shape(ctx, f.type, f"{name}.{k}")))
    if w == len(fs) + 1 or rem:
        k = key(ctx, name + ".extra")
        ctx.distinct([k] + list(avoid) + [q for f in fs for q in f.keys])
        es.append((k, leaf(ctx, name + ".extra.v", ("int", "str"))))
    return es


U1 = TUnion(INT, XY)
TYPES = [
    INT, TIntEnum(), TEnum(Color), TUuid(), TDecimal(), TDateTime("date"), TLit("a", 1), TBytes(), TSeq(INT), TSeq(INT, "set"), TSeq(TSeq(STR, width=1)), TDict(STR, INT), TDict(STR, TSeq(XY, width=1), width=1),
    TDict(TUuid(), INT, width=1), TDict(TEnum(Color), TDict(STR, INT, width=1), "mapping", width=1), TTuple(INT, STR), TTuple(XY, TSeq(INT, width=1)), TOpt(XY), TSeq(TOpt(INT), "vtuple"), U1, TSeq(TOpt(U1), width=1),
    TUnion(TSeq(INT, width=1), TDict(STR, PQ, width=1)), XY, ALI, REQ, DEF, FLAT1, FLAT2, FLATD, REM, REMA, TD, NT, FLATTD, TBox(PQ, width=1), TNode(1),
    TDC("Deep", F("a", TDict(STR, TSeq(TOpt(XY), width=1), width=1)), F("b", TOpt(TSeq(TD, width=1)), default=None)),
    TDC("FlatRem", F("k", INT), F("in_", REM, flat=True)),
]
TAGGED = [TTagged("nested", [("i", INT), ("xy", XY)]), TTagged("nested", [("xy", XY), ("pq", PQ)], "kind", "value"),
          TTagged("flat", [("xy", XY), ("pq", PQ)]), TTagged("keyed", [("i", INT), ("al", ALI)]), TSeq(TTagged("flat", [("xy", XY), ("f", FLAT1)], "t"), width=1),
          TOpt(TTagged("keyed", [("xy", XY)]))]
BIG = [NEST]


@harness("C13", "load", shards=[{"ty": x} for x in TYPES + TAGGED], thorough=[{"ty": x} for x in TYPES + TAGGED + BIG], cover=["accepted", "refused"],
         bounds="payloads of the right shape with arbitrary scalars and any one key missing or added per object, containers up to 2 entries", max_paths=40000)
def load_error(ctx, ty):
    v = shape(ctx, ty, "v")
    got = ctx.attempt(load, v, ty.hint, filename="the.file")
    judge(ctx, got, ty, v, False, "the.file", S())


TEXTS = [INT, TUuid(), TSeq(INT), TDict(STR, INT), TDict(TUuid(), INT, width=1), TDict(STR, TSeq(TOpt(INT), width=1), width=1), XY, ALI, FLAT1, REM, TD, NT, U1_ := TUnion(INT, XY), TSeq(TOpt(U1_), width=1), TTuple(INT, STR),
         TTagged("nested", [("xy", XY)], "k", "v"), TTagged("flat", [("xy", XY), ("pq", PQ)]), TTagged("keyed", [("i", INT), ("s", STR)]), TBox(INT, 1)]


@harness("C13", "text", shards=[{"ty": x} for x in TEXTS], cover=["refused"], bounds="payloads of the right shape with 4 scalars at every place and 3 kinds of keys, and any one key missing or added per object")
def text(ctx, ty):
    CONCRETE[0] = True
    try:
        v = shape(ctx, ty, "v")
        name = ctx.choice("file", [None, "the.file", ""])
        got = ctx.attempt(load, v, ty.hint, name)
        judge(ctx, got, ty, v, False, name, S(), True)
    finally:
        CONCRETE[0] = False


@harness("C13", "load_any", shards=[{"ty": x} for x in (XY, TSeq(XY), TD, TDict(STR, TSeq(INT)), TTagged("nested", [("xy", XY)]))], cover=["refused"],
         bounds="arbitrary payloads of depth 2 and width 1")
def load_any(ctx, ty):
    v = json_value(ctx, "v", depth=2, width=1, floats=("fin", "nan"))
    strict = ctx.flag("strict")
    got = ctx.attempt(load, v, ty.hint, settings=[Strict(strict)])
    judge(ctx, got, ty, v, False, None, S(strict=strict))


def wrong(ctx, ty, name):
    """A value to dump that is right except that some places may be wrong."""
    if isinstance(ty, TSeq):
        n = ctx.pick(name + ".len", (1 if isinstance(ty.inner, TNode) else ty.width) + 1) if not deep(ty, name, 2) else 0
        if n == 0 and ctx.flag(name + ".bad"):
            return ctx.choice(name + ".badv", [None, {"a": 1}, "str"])
        items = [wrong(ctx, ty.inner, f"{name}[{i}]") for i in range(n)]
        return ty.build(items)
    if isinstance(ty, TTuple):
        n = len(ty.items) + ctx.choice(name + ".off", [0, 1, -1])
        return tuple([wrong(ctx, ty.items[min(i, len(ty.items) - 1)], f"{name}[{i}]") for i in range(n)])
    if isinstance(ty, TDict):
        n = ctx.pick(name + ".len", ty.width + 1)
        keys = [wrong(ctx, ty.key, f"{name}.k{i}") if not isinstance(ty.key, TStr) else ctx.str(f"{name}.k{i}") for i in range(n)]
        if isinstance(ty.key, TStr):
            ctx.distinct(keys)
        return ctx.mkdict([(k, wrong(ctx, ty.value, f"{name}.v{i}")) for i, k in enumerate(keys)])
    if isinstance(ty, TOpt):
        return None if ctx.flag(name + ".none") else wrong(ctx, ty.inner, name)
    if isinstance(ty, TUnion):
        return wrong(ctx, ty.members[ctx.pick(name + ".m", len(ty.members))], name)
    if isinstance(ty, TTagged):
        i = ctx.pick(name + ".m", len(ty.members) + 1)
        return Alien() if i == len(ty.members) else wrong(ctx, ty.members[i][1], name)
    if isinstance(ty, TTypedDict):
        w = ctx.pick(name + ".wrong", len(ty.fields) + 2)
        if w == len(ty.fields) + 1:
            return [1]
        return {f.name: wrong(ctx, f.type, f"{name}.{f.name}") for i, f in enumerate(ty.fields) if w != i + 1}
    if isinstance(ty, TDC):
        if ctx.flag(name + ".bad"):
            return ctx.choice(name + ".badv", [None, Alien(), {"x": 1}])
        kw = {}
        for f in ty.fields:
            kw[f.name] = wrong(ctx, f.type, f"{name}.{f.name}")
        return ty.cls(**kw)
    if type(ty) in (TInt, TStr, TBool, TFloat):
        return ctx.lazy(name, [("null", type(None), lambda: None), ("bool", bool, lambda: ctx.bool(name)), ("int", int, lambda: ctx.int(name)), ("str", str, lambda: ctx.str(name))])
    if ctx.flag(name + ".bad"):
        return ctx.choice(name + ".badv", ["text", 5, None, Color.RED, datetime.datetime(2020, 1, 1)][: 4])
    return ty.gen(ctx, name)


DUMPS = [x for x in TYPES if x is not NEST and not (isinstance(x, TUnion) and isinstance(x.members[0], TSeq))]


@harness("C13", "dump", shards=[{"ty": x} for x in DUMPS + TAGGED], thorough=[{"ty": x} for x in DUMPS + TAGGED + BIG], cover=["refused"],
         bounds="values in which any scalar, object or container may be replaced by one of another type", max_paths=40000)
def dump_error(ctx, ty):
    v = wrong(ctx, ty, "v")
    got = ctx.attempt(dump, v, ty.hint, "out.json")
    judge(ctx, got, ty, v, True, "out.json", S())


# -- the position of every value (valid or not) that is offered to the converters


class Probe(Converter):
    def __init__(self):
        self.seen = []

    def convert(self, ctx):
        self.seen.append(ctx)
        raise NotImplementedError


@harness("C13", "positions", shards=[{"ty": x, "ser": s} for x in (TSeq(INT), TDict(STR, TOpt(INT)), XY, ALI, FLAT1, REM, TD, NT, U1, TTuple(INT, XY), TTagged("nested", [("xy", XY)]), TTagged("flat", [("xy", XY)], "k"),
                                                              TTagged("keyed", [("xy", XY)]), TBox(INT, 1), TNode(1), TDict(TUuid(), XY, width=1), TSeq(TOpt(XY), "vtuple", 1)) for s in (True, False)],
         cover=["done"], bounds="every position visited for a value of the type, arbitrary file name")
def positions(ctx, ty, ser):
    v = ty.gen(ctx, "v")
    name = ctx.str("file") if ctx.flag("named") else None
    m = get_object_mapper()
    if not ser:
        got = ctx.attempt(dump, v, ty.hint, observe=False)
        if not got.ok:
            return
        v = got.value
    p = Probe()
    m.module.register(p, first=True)
    got = ctx.attempt(m.serialize if ser else m.deserialize, v, ty.hint, name)
    for c in p.seen:
        ctx.check(c.settings is m.settings, "settings of the position")
        ctx.check(c.convert_func == p.seen[0].convert_func, "convert_func of the position")
        ctx.check(c.location.line is None and c.location.column is None, "location", lambda: repr(c.location))
        ctx.check(c.parent is None or any([c.parent is x for x in p.seen]), "the parent of a position was not visited before")
        walk(ctx, c, ty, v, ser, name, S())
    ctx.cover("done")


# -- contexts and their textual form


@harness("C13", "spawn", shards=[{"ser": s} for s in (True, False)], cover=["done"], bounds="two levels below a root; arbitrary file names, lines, columns and keys")
def spawn(ctx, ser):
    d = Direction.SERIALIZE if ser else Direction.DESERIALIZE
    root_loc = Location(ctx.str("f") if ctx.flag("named") else None, ctx.int("l") if ctx.flag("lined") else None, ctx.int("c"))
    st = Settings()
    calls = []

    def conv(c):
        calls.append(c)
        return "converted"

    root = Context(None, d, "root", TypeHint(dict), st, Context.ROOT, root_loc, conv)
    chain = [root]
    own_loc = None
    for i in range(2):
        key = ctx.lazy(f"key{i}", [("str", str, lambda: ctx.str(f"key{i}")), ("int", int, lambda: ctx.int(f"key{i}")), ("none", type(None), lambda: None)])
        loc = Location(ctx.choice(f"file{i}", [None, "g"]), ctx.int(f"line{i}"), None) if ctx.flag(f"own{i}") else None
        hint = [t.List[int], TypeHint(int)][i]
        c = chain[-1].spawn(f"value{i}", hint, key, loc) if loc is not None or ctx.flag(f"short{i}") is False else chain[-1].spawn(f"value{i}", hint, key)
        ctx.check(c.parent is chain[-1], "parent")
        ctx.check(c.direction is d, "direction")
        ctx.check(c.value == f"value{i}", "value")
        ctx.check(c.datatype.hint == (hint.hint if i else hint), "datatype")
        ctx.check(c.settings is st, "settings")
        ctx.check(c.convert_func is conv, "convert_func")
        ctx.check(same(c.key, key), "key")
        if loc is not None:
            ctx.check(c.location is loc or c.location == loc, "location given")
        else:
            fn = chain[-1].location.filename
            ctx.check(c.location.filename == fn if fn is not None else c.location.filename is None, "file name is not inherited", lambda: repr(c.location))
            ctx.check(c.location.line is None and c.location.column is None, "line and column are inherited", lambda: repr(c.location))
        chain.append(c)
    ctx.check(list(chain[-1].iter_hierarchy_up()) == chain[::-1], "iter_hierarchy_up")
    ctx.check(chain[-1].convert() == "converted" and len(calls) == 1 and calls[0] is chain[-1], "convert")
    ctx.check(chain[-1].direction.is_serialize() == ser and chain[-1].direction.is_deserialize() == (not ser), "direction tests")
    ctx.cover("done")


FILES = [None, "a.json", "b.json"]


@harness("C13", "trace", shards=[{"keys": k} for k in (("x", 0), (3, None), (None, "y"), ("k", "l"), (Color.RED, 1))], cover=["done"],
         bounds="three positions, 3 file names each, with or without lines and columns")
def trace(ctx, keys):
    files, lines = [], []
    c = None
    for i in range(3):
        f = ctx.choice(f"file{i}", FILES)
        line = ctx.choice(f"line{i}", [None, 1, 23])
        loc = Location(f, line, 7 if line is not None else None)
        if c is None:
            c = Context(None, Direction.SERIALIZE, None, TypeHint(dict), Settings(), Context.ROOT, loc, lambda x: None)
        else:
            c = c.spawn(None, int, keys[i - 1], loc)
        files.append(f)
        lines.append(line)
    text = format_context_trace(c)
    rows = text.split("\n")
    want = []
    last = None
    for i in range(3):
        if files[i] is not None and files[i] != last:
            want.append(f'In "{files[i]}"')
            last = files[i]
        k = "$" if i == 0 else "^" if keys[i - 1] is None else f".{keys[i - 1]}" if isinstance(keys[i - 1], str) else f"[{keys[i - 1]!r}]"
        want.append((k, lines[i]))
    ctx.check(len(rows) == len(want), "lines of the trace", lambda: text)
    if len(rows) == len(want):
        for r, w in zip(rows, want):
            if isinstance(w, str):
                ctx.check(r == w, "line with the file name", lambda: f"{r!r} instead of {w!r}")
            else:
                ctx.check(r.strip().startswith(w[0] + ":"), "line with the key", lambda: f"{r!r} instead of {w!r}")
                if w[1] is not None:
                    ctx.check(r.endswith(f"(at {w[1]}:7)"), "line and column", lambda: f"{r!r} instead of {w!r}")
    ctx.cover("done")
