"""Typed dictionaries have exactly their declared keys."""

from databind.json import dump, load
from props.mods import tda, tdb
from props.zoo import *
from symex.harness import harness


class K:
    """A key: its type, whether it must be there, what stands in when it is not, its names in the payload."""

    def __init__(self, name, type_, required=True, default=NODEF, aliases=()):
        self.name, self.type, self.required, self.default, self.keys = name, type_, required, default, aliases or (name,)


class TTD(T):
    def __init__(self, cls, *keys):
        self.cls = self.hint = cls
        self.keys = keys

    def gen(self, ctx, name):
        return {k.name: k.type.gen(ctx, f"{name}.{k.name}") for k in self.keys}

    def ref_load(self, v, s):
        if not isinstance(v, dict):
            raise Bad
        out, used = {}, []
        for k in self.keys:
            for n in k.keys:
                if n in v:
                    out[k.name] = k.type.ref_load(v[n], s)
                    used.append(n)
                    break
            else:
                if k.required:
                    raise Bad
                if k.default is not NODEF:
                    out[k.name] = k.default
        for n in v:
            if n not in used and not s.extra:
                raise Bad
        return out

    def ref_dump(self, x, s):
        if not isinstance(x, dict):
            raise Bad
        out = {}
        for k in self.keys:
            if k.name not in x:
                if k.required:
                    raise Bad
                continue
            d = k.type.ref_dump(x[k.name], s)
            if s.serialize_defaults or k.required or k.default is NODEF or neg(x[k.name] == k.default):
                out[k.keys[0]] = d
        return out


class Total(t.TypedDict):
    a: int
    b: str
    c: bool


class Partial(t.TypedDict, total=False):
    a: int
    b: str
    c: bool


class PartialOfTotal(Total, total=False):
    d: int
    e: str


class TotalOfPartial(Partial):
    d: int
    e: str


class Third(PartialOfTotal):
    f: t.List[int]


class Left(t.TypedDict):
    x: int
    y: str


class Right(t.TypedDict, total=False):
    z: bool
    y: str


class Joined(Left, Right):
    w: int


class JoinedPartial(Right, Left, total=False):
    w: int


class Optionals(t.TypedDict):
    a: t.Optional[int]
    b: t.Optional[str]
    c: int


class PartialOptionals(t.TypedDict, total=False):
    a: t.Optional[int]
    b: "t.Optional[Total]"


class Defaults(t.TypedDict):
    a: int = 3
    b: t.Optional[str] = "b"
    c: str


class InheritDefaults(Defaults):
    d: int = 4
    e: str


class PartialDefaults(t.TypedDict, total=False):
    a: int = 3
    b: str


class Overridden(Defaults):
    a: str
    c: str = "c"


class Aliased(t.TypedDict):
    a: t.Annotated[int, Alias("A", "a2")]
    b: t.Annotated[t.Optional[str], Alias("B")]
    c: str


class Requireds(t.TypedDict):
    a: t.Annotated[t.Optional[int], Required()]
    b: t.Annotated[str, Required(False)]


class PartialRequireds(t.TypedDict, total=False):
    a: t.Annotated[int, Required(False)]
    b: int


class Nested(t.TypedDict):
    inner: Partial
    opt: t.Optional[Total]
    many: t.List[Partial]


Odd = t.TypedDict("Odd", {"items": int, "keys": t.Optional[str], "a-b": str, "class": bool, "": int, "self": int})
OddPartial = t.TypedDict("OddPartial", {"get": int, "pop": str, "update": bool}, total=False)
Empty = t.TypedDict("Empty", {})

ABC = [K("a", INT), K("b", STR), K("c", BOOL)]
OABC = [K("a", INT, False), K("b", STR, False), K("c", BOOL, False)]
DEFS = [K("a", INT, False, 3), K("b", TOpt(STR), False, "b"), K("c", STR)]
T_TOTAL, T_PARTIAL = TTD(Total, *ABC), TTD(Partial, *OABC)
ITEM1, ITEM2 = TTD(tda.Item, K("n", INT)), TTD(tdb.Item, K("s", STR))
LATE1, LATE2 = TTD(tda.Late, K("s", STR, False)), TTD(tdb.Late, K("n", INT))
BASE = [K("item", ITEM1), K("later", TOpt(LATE1), False, None), K("num", INT, False, 5)]
SUB = [K("mine", ITEM2, False), K("other", TOpt(LATE2), False, None)]

ZOO = {
    "Total": T_TOTAL,
    "Partial": T_PARTIAL,
    "PartialOfTotal": TTD(PartialOfTotal, *ABC, K("d", INT, False), K("e", STR, False)),
    "TotalOfPartial": TTD(TotalOfPartial, *OABC, K("d", INT), K("e", STR)),
    "Third": TTD(Third, *ABC, K("d", INT, False), K("e", STR, False), K("f", TSeq(INT, width=1))),
    "Optionals": TTD(Optionals, K("a", TOpt(INT), False, None), K("b", TOpt(STR), False, None), K("c", INT)),
    "PartialOptionals": TTD(PartialOptionals, K("a", TOpt(INT), False, None), K("b", TOpt(T_TOTAL), False, None)),
    "Defaults": TTD(Defaults, *DEFS),
    "InheritDefaults": TTD(InheritDefaults, *DEFS, K("d", INT, False, 4), K("e", STR)),
    "PartialDefaults": TTD(PartialDefaults, K("a", INT, False, 3), K("b", STR, False)),
    "Overridden": TTD(Overridden, K("a", STR), K("b", TOpt(STR), False, "b"), K("c", STR, False, "c")),
    "Aliased": TTD(Aliased, K("a", INT, aliases=("A", "a2")), K("b", TOpt(STR), False, None, ("B",)), K("c", STR)),
    "Requireds": TTD(Requireds, K("a", TOpt(INT)), K("b", STR, False, None)),
    "PartialRequireds": TTD(PartialRequireds, K("a", INT, False, None), K("b", INT, False)),
    "Nested": TTD(Nested, K("inner", T_PARTIAL), K("opt", TOpt(T_TOTAL), False, None), K("many", TSeq(T_PARTIAL, width=1))),
    "Odd": TTD(Odd, K("items", INT), K("keys", TOpt(STR), False, None), K("a-b", STR), K("class", BOOL), K("", INT), K("self", INT)),
    "OddPartial": TTD(OddPartial, K("get", INT, False), K("pop", STR, False), K("update", BOOL, False)),
    "Empty": TTD(Empty),
    "Base": TTD(tda.Base, *BASE),
    "Sub": TTD(tdb.Sub, *BASE, *SUB),
    "SubSub": TTD(tdb.SubSub, BASE[0], BASE[1], K("num", STR, False, "x"), *SUB, K("own", TSeq(ITEM2, width=1))),
}

W = K("w", INT)
ZOO["Joined"] = TTD(Joined, K("x", INT), K("y", STR, "y" in Joined.__required_keys__), K("z", BOOL, False), W)
ZOO["JoinedPartial"] = TTD(JoinedPartial, K("z", BOOL, False), K("y", STR, "y" in JoinedPartial.__required_keys__), K("x", INT), K("w", INT, False))


def fill(ctx, ty, name, value):
    """Every pattern of presence with good values; or one arbitrary value and one of the keys absent."""
    n = len(ty.keys)
    which = ctx.pick(name + ".which", n + 1)
    absent = ctx.pick(name + ".absent", n + 1) if which < n else None
    d = {}
    for i, k in enumerate(ty.keys):
        if (ctx.flag(f"{name}.has.{k.name}") if absent is None else i != absent):
            d[k] = value(f"{name}.{k.name}", k) if i == which else NOVAL
    return d, which == n


def simple(ty):
    """A payload that *ty* accepts."""
    if isinstance(ty, TOpt):
        return None
    if isinstance(ty, TSeq):
        return []
    if isinstance(ty, TTD):
        return {k.keys[0]: simple(k.type) for k in ty.keys if k.required}
    return {"int": 7, "str": "text", "bool": True}[ty.hint.__name__]


def arbitrary(ctx, name, ty):
    """A good value, a scalar, or a small container."""
    i = ctx.pick(name + ".how", 3)
    if i == 0:
        return scalar(ctx, name, ("fin",))
    if i == 1:
        return simple(ty)
    if isinstance(ty, TTD) or isinstance(ty, TSeq) or (isinstance(ty, TOpt) and isinstance(ty.inner, TTD)):
        return json_value(ctx, name, depth=1, width=1, kinds=("list", "dict"), floats=("fin",))
    return {}


@harness("C18", "load", shards=[{"ty": n} for n in ZOO], cover=["accepted"], bounds="23 typed dictionaries; every pattern of presence; one value arbitrary with at most one key absent; up to 1 additional key; extra keys allowed or not", max_paths=30000)
def load_td(ctx, ty):
    d = ZOO[ty]
    got, plain = fill(ctx, d, "v", lambda n, k: arbitrary(ctx, n, k.type))
    p = {}
    for k, x in got.items():
        al = ctx.choice(f"alias.{k.name}", list(k.keys)) if plain and len(k.keys) > 1 else k.keys[0]
        p[al] = simple(k.type) if x is NOVAL else x
        if plain and len(k.keys) > 1 and ctx.flag(f"both.{k.name}"):
            p[k.keys[1]] = simple(k.type)
    if plain and ctx.flag("reversed"):
        p = {k: p[k] for k in reversed(list(p))}
    extra = plain and ctx.flag("more")
    if extra:
        x = ctx.str("extra")
        ctx.distinct([x] + list(p))
        p = ctx.mkdict(list(p.items()) + [(x, 1)])
    allow = ctx.flag("allowed") if extra else False
    out = ctx.attempt(load, p, d.hint, None, [ExtraKeys()] if allow else None)
    s = S(extra=allow)
    agree(ctx, out, lambda: d.ref_load(p, s), "load")
    if out.ok:
        ctx.check(type(out.value) is dict, "not a dictionary", lambda: repr(type(out.value)))
        names = list(out.value)
        want = [k.name for k in d.keys if k.name in out.value]
        ctx.check(names == want, "order of the keys", lambda: f"{names} {want}")


@harness("C18", "dump", shards=[{"ty": n} for n in ZOO], cover=["accepted"], bounds="23 typed dictionaries; every pattern of presence; one value arbitrary with at most one key absent; undeclared keys; with and without default values", max_paths=30000)
def dump_td(ctx, ty):
    d = ZOO[ty]
    got, plain = fill(ctx, d, "v", lambda n, k: Wild(k.type, ("json", "dict")).gen(ctx, n))
    x = {k.name: ((k.default if k.default is not NODEF and ctx.flag(f"default.{k.name}") else simple_py(k.type)) if y is NOVAL else y) for k, y in got.items()}
    if plain and ctx.flag("reversed"):
        x = {k: x[k] for k in reversed(list(x))}
    if plain and ctx.flag("more"):
        n = ctx.str("extra")
        ctx.distinct([n] + list(x) + [k.name for k in d.keys if k.name not in x])
        x = ctx.mkdict(list(x.items()) + [(n, object())])
    s = S(serialize_defaults=True)
    settings = None
    if any(k.default is not NODEF for k in d.keys) and ctx.flag("nodefaults"):
        s = S(serialize_defaults=False)
        settings = [SerializeDefaults(False)]
    out = ctx.attempt(dump, x, d.hint, None, settings)
    agree(ctx, out, lambda: d.ref_dump(x, s), "dump")
    if out.ok:
        names = list(out.value)
        want = [k.keys[0] for k in d.keys if k.keys[0] in out.value]
        ctx.check(names == want, "order of the keys", lambda: f"{names} {want}")


def simple_py(ty):
    return simple(ty) if not isinstance(ty, TTD) else {k.name: simple_py(k.type) for k in ty.keys if k.required}


@harness("C18", "values", shards=[{"dumping": d} for d in (False, True)], cover=["refused"], bounds="anything in the place of a typed dictionary")
def values(ctx, dumping):
    """Anything but a mapping is refused."""
    kind = ctx.choice("td", ["Empty", "Partial", "Total"])
    d = ZOO[kind]
    v = json_value(ctx, "v", depth=1, width=1) if not dumping else Wild(d).gen(ctx, "v")
    s = S()
    got = ctx.attempt(dump if dumping else load, v, d.hint)
    agree(ctx, got, lambda: (d.ref_dump if dumping else d.ref_load)(v, s), "dump" if dumping else "load")


# -- generated

TYPES = {"int": INT, "optint": TOpt(INT), "notreq": None, "list": TSeq(INT, width=1)}


def kind_of(ctx, name, total):
    k = ctx.choice(name, list(TYPES))
    if k == "notreq":
        return t.Annotated[str, Required(False)], K(name[-1], STR, False, None)
    ty = TYPES[k]
    opt = isinstance(ty, TOpt)
    df = ctx.choice(name + ".default", [NODEF, 9]) if k == "int" else NODEF
    if df is not NODEF:
        return ty.hint, K(name[-1], ty, False, df)
    return ty.hint, K(name[-1], ty, total and not opt, None if opt else NODEF)


@harness("C18", "generated", shards=[{"form": f, "t1": a, "t2": b} for f in ("one", "child", "grandchild", "two") for a in (False, True) for b in (False, True)], cover=["accepted", "refused"], bounds="chains and pairs of up to 3 generated typed dictionaries of one key each with 5 kinds of keys, total or not; one value arbitrary", max_paths=30000)
def generated(ctx, form, t1, t2):
    def make(name, bases, total, keys):
        ns = {"__annotations__": {k.name: h for h, k in keys}, "__module__": MOD}
        ns.update({k.name: k.default for h, k in keys if k.default not in (NODEF, None)})
        return types.new_class(name, bases or (t.TypedDict,), {"total": total}, lambda n: n.update(ns))

    ka = kind_of(ctx, "ka", t1)
    one = make("One", (), t1, [ka])
    keys = [ka[1]]
    cls = one
    if form != "one":
        kb = kind_of(ctx, "kb", t2)
        keys.append(kb[1])
        if form == "two":
            other = make("Other", (), t2, [kb])
            cls = make("Both", (one, other), True, [])
        else:
            cls = make("Child", (one,), t2, [kb])
            if form == "grandchild":
                kc = (int, K("c", INT, not t2))
                keys.append(kc[1])
                cls = make("Grand", (cls,), not t2, [kc])
    d = TTD(cls, *keys)
    w = ctx.pick("which", len(keys))
    p = {}
    for i, k in enumerate(keys):
        if ctx.flag(f"has.{k.name}"):
            p[k.name] = json_value(ctx, k.name, 1, 1, floats=("fin",), kinds=("null", "int", "str", "list")) if i == w else simple(k.type)
    s = S()
    out = ctx.attempt(load, p, cls)
    agree(ctx, out, lambda: d.ref_load(p, s), "load")
    ctx.check(not out.ok or list(out.value) == [k.name for k in keys if k.name in out.value], "order")
    back = ctx.attempt(dump, p, cls)
    agree(ctx, back, lambda: d.ref_dump(p, s), "dump")
