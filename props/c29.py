"""A type named for loading takes the place of the declared type."""

import abc

from databind.core import Priority, Settings
from databind.core.settings import DeserializeAs
from databind.json import dump, get_object_mapper, load
from props.zoo import *
from symex.harness import harness


@dataclasses.dataclass
class Base:
    x: int = 0


class Abstract(abc.ABC):
    @abc.abstractmethod
    def run(self):
        ...


class Iface(t.Protocol):
    x: int


class Nothing:
    """A class that cannot be loaded itself."""


@ExtraKeys(True)
@dataclasses.dataclass
class Lax:
    """Permits extra keys, unlike what stands in for it."""

    x: int = 0


class BaseTD(t.TypedDict):
    a: int


class Ready(Abstract):
    def run(self):
        return 1


# What is declared (base classes of the named type, or unrelated)
DECLARED = {"base": Base, "abstract": Abstract, "protocol": Iface, "plain": Nothing, "typed dict": BaseTD, "other": XY.cls, "lax": Lax, "generic": None}

KID = TDC("Kid29", F("x", INT, default=1), F("y", STR, default="k"), bases=(Base,))
RUN = TDC("Run29", F("n", TOpt(INT)), F("who", STR, aliases=("name", "who")), bases=(Ready,))
FREE = TDC("Free29", F("x", INT), F("l", TSeq(INT, width=1), factory=list))
REM29 = TDC("Rem29", F("a", INT), F("rest", TDict(STR, INT, width=1), remainder=True), bases=(Nothing,))
FLAT29 = TDC("Flat29", F("a", INT), F("inner", KID, flat=True))
SAME = TDC("Base", F("x", INT, default=0), cls=Base)
OPEN = TDC("Open29", F("x", INT, default=0), F("i", TOpt(XY)), extra=True, bases=(Base,))
NAMED = {"open": OPEN, "kid": KID, "run": RUN, "free": FREE, "rem": REM29, "flat": FLAT29, "td": TD, "same": SAME, "xy": XY}


class As(T):
    """Declared as *base*, read and written as *inner*."""

    def __init__(self, inner, base, *notes, prio=None):
        self.inner = inner
        self.cls = inner.cls
        self.hint = t.Annotated[(base,) + notes + (DeserializeAs(inner.cls) if prio is None else DeserializeAs(inner.cls, prio),)]

    def gen(self, ctx, name):
        return self.inner.gen(ctx, name)

    def leaves(self):
        return self.inner.leaves()

    def ref_load(self, v, s):
        return self.inner.ref_load(v, s)

    def ref_dump(self, x, s):
        return self.inner.ref_dump(x, s)

    def __repr__(self):
        return f"As({self.inner!r})"


PAIRS = [(b, n) for b in DECLARED for n in NAMED if not (b in ("generic", "lax", "other") and n not in ("kid", "td", "open"))]
TV = t.TypeVar("TV")


@dataclasses.dataclass
class Gen29(t.Generic[TV]):
    g: TV


DECLARED["generic"] = Gen29[int]


def payload(ctx, ty, name="p"):
    """Any scalar, or an object with any of the keys of the type and another one, of any JSON value."""
    if not ctx.flag(name + ".shaped"):
        return json_value(ctx, name, depth=1, width=1, floats=("fin",))
    keys = [k for f in ty.leaves() for k in f.keys][:3]
    if ctx.flag(name + ".good"):
        good = {"x": 5, "y": "t", "i": {"x": 1, "y": "s"}, "n": None, "who": "w", "name": "n", "l": [3], "a": 4, "items": 2, "year": 1.5}
        one = ctx.choice(name + ".other", keys)
        return {k: (scalar(ctx, name + "." + k, ("fin",)) if k == one else good[k]) for k in keys if k == one or not ctx.flag(f"{name}.no.{k}")}
    return presence(ctx, name, keys, lambda n, k: scalar(ctx, n, ("fin",)), extra=1, orders=False)


@harness("C29", "load", shards=[{"base": b, "named": n} for b, n in PAIRS], cover=["accepted", "refused"], bounds="9 named types for 8 declared ones; every JSON value (1 level), every subset of up to 3 keys and another one with every scalar; lenient and strict", max_paths=60000)
def load_as(ctx, base, named):
    ty = As(NAMED[named], DECLARED[base], *ctx.choice("notes", [(), ("x", None), (Alias("q"), Strict(True))]))
    p = payload(ctx, ty)
    got = ctx.attempt(load, p, ty.hint)
    agree(ctx, got, lambda: ty.ref_load(p, S()), "load")


@harness("C29", "dump", shards=[{"base": b, "named": n} for b, n in PAIRS], cover=["accepted", "refused"], bounds="9 named types for 8 declared ones; every value of the named type, and any other kind of value", max_paths=60000)
def dump_as(ctx, base, named):
    inner = NAMED[named]
    ty = As(inner, DECLARED[base])
    if ctx.flag("foreign"):
        v = ctx.choice("v", [lambda: Base(ctx.int("i")), Ready, Nothing, lambda: Gen29(ctx.int("i")), lambda: XY.gen(ctx, "xy"), lambda: KID.gen(ctx, "kid"), lambda: {"a": ctx.int("i")}, lambda: scalar(ctx, "s", ("fin",)), lambda: [ctx.int("i")]])()
    else:
        v = ty.gen(ctx, "v")
    got = ctx.attempt(dump, v, ty.hint)
    agree(ctx, got, lambda: ty.ref_dump(v, S()), "dump")


def place(ctx, spot, ty):
    return {
        "list": lambda: TSeq(ty, width=1), "vtuple": lambda: TSeq(ty, "vtuple", width=1), "value": lambda: TDict(STR, ty, width=1), "tuple": lambda: TTuple(STR, ty), "optional": lambda: TOpt(ty),
        "field": lambda: TDC("Has29", F("a", ty), F("b", INT, default=1)), "default": lambda: TDC("HasD29", F("d", INT), F("a", TOpt(ty))), "aliased": lambda: TDC("HasA29", F("a", ty, aliases=("z",), extra=([],))), "key": lambda: TTypedDict("HasK29", F("a", ty)),
        "member": lambda: TUnion(ty, TDC("Wrap29", F("only", INT))), "last": lambda: TUnion(TDC("Wrap29", F("only", INT)), ty), "box": lambda: TBox(ty, width=0), "nt": lambda: TNamedTuple("HasN29", F("a", ty)), "flat": lambda: TDC("HasF29", F("q", INT), F("a", ty, flat=True)),
    }[spot]()


def around(ctx, ty):
    """What is around the position may have annotations, too."""
    return Noted(ty, ("x", None), ctx.flag("nested")) if ctx.flag("noted") else ty


def inside(spot, v):
    return {"list": lambda: [v], "vtuple": lambda: [v], "value": lambda: {"k": v}, "tuple": lambda: ["s", v], "field": lambda: {"a": v}, "default": lambda: {"d": 1, "a": v}, "aliased": lambda: {"z": v}, "key": lambda: {"a": v}, "box": lambda: {"content": v}, "nt": lambda: {"a": v}}.get(spot, lambda: v)()


SPOTS = ("list", "vtuple", "value", "tuple", "optional", "field", "default", "aliased", "key", "member", "last", "box", "nt")


@harness("C29", "places", shards=[{"spot": s, "base": b, "named": n} for s in SPOTS for b, n in (("base", "kid"), ("abstract", "run"), ("plain", "rem"), ("base", "td"))], cover=["accepted", "refused"],
         bounds="4 pairs of types in 13 places, with and without annotations around them; payloads as above", max_paths=60000)
def places(ctx, spot, base, named):
    ty = As(NAMED[named], DECLARED[base])
    full = around(ctx, place(ctx, spot, ty))
    p = inside(spot, payload(ctx, ty))
    got = ctx.attempt(load, p, full.hint)
    agree(ctx, got, lambda: full.ref_load(p, S()), "load")


@harness("C29", "places_dump", shards=[{"spot": s} for s in SPOTS], cover=["accepted"], bounds="4 pairs of types in 13 places, with and without annotations around them; values of the named type", max_paths=60000)
def places_dump(ctx, spot):
    base, named = ctx.choice("pair", [("base", "kid"), ("abstract", "run"), ("plain", "rem"), ("base", "td")])
    full = around(ctx, place(ctx, spot, As(NAMED[named], DECLARED[base])))
    v = full.gen(ctx, "v")
    got = ctx.attempt(dump, v, full.hint)
    agree(ctx, got, lambda: full.ref_dump(v, S()), "dump")


# -- only the annotated position

OUT = TDC("Out29", F("x", INT), F("sub", TOpt(SAME)), F("as_", TOpt(As(KID, Base))), F("l", TSeq(As(FREE, Base), width=1), factory=list), bases=(Base,))
BOTH = TTuple(As(KID, Base), SAME, As(FREE, Base))


@harness("C29", "only there", shards=[{"key": k} for k in ("x", "sub", "as_", "l", "tuple")], cover=["accepted", "refused"], bounds="an object with fields declared as the same type with and without a named type, at two levels; every scalar or object of up to 2 keys in one of the fields", max_paths=60000)
def only_there(ctx, key):
    obj = lambda n: presence(ctx, n, ["x", "y"], lambda m, k: scalar(ctx, m, ("fin",)), orders=False) if ctx.flag(n + ".obj") else scalar(ctx, n, ("fin",))
    if key == "tuple":
        ty = BOTH
        p = [{"x": 1, "y": "s"}, {"x": 1}, {"x": 2, "l": [1]}]
        i = ctx.pick("i", 3)
        p[i] = obj("o")
    else:
        ty = As(OUT, Base)
        p = {"x": 1}
        if ctx.flag("more"):
            p.update({"sub": {"x": 2}, "as_": {"y": "s"}, "l": [{"x": 3}]})
        v = obj("o")
        p[key] = [v] if key == "l" else v
    got = ctx.attempt(load, p, ty.hint)
    agree(ctx, got, lambda: ty.ref_load(p, S()), "load")
    if got.ok:
        back = ctx.attempt(dump, got.value, ty.hint)
        agree(ctx, back, lambda: ty.ref_dump(got.value, S()), "dump")
        plain = ctx.attempt(load, p, Base)
        ctx.check(plain.ok == (list(p) == ["x"]) if key != "tuple" else not plain.ok, "the declared type is loaded as usual elsewhere", lambda: repr(plain))


@harness("C29", "ambient", shards=[{"what": w} for w in ("extra", "strict", "defaults", "annotated", "local", "local base")], cover=["done"], bounds="settings in effect at the place, on and off; every payload and value as above", max_paths=60000)
def ambient(ctx, what):
    """Settings in effect at the position apply to what is loaded there."""
    on = ctx.flag("on")
    base, named = ctx.choice("pair", [("base", "kid"), ("abstract", "run")])
    ty = As(NAMED[named], DECLARED[base])
    s = S()
    if what == "extra":
        st, s.extra = [ExtraKeys(on)], on
    elif what == "strict":
        st, s.strict = [Strict(on)], on
    elif what == "defaults":
        st, s.serialize_defaults = [SerializeDefaults(on)], on
    elif what == "annotated":
        st, s.extra = [], on
        ty = As(NAMED[named], DECLARED[base], ExtraKeys(on), "x")
    else:
        st = Settings()
        st.add_local(ty.cls if what == "local" else DECLARED[base], ExtraKeys(on))
        s.extra = on and what == "local"
    if what == "defaults":
        v = ty.gen(ctx, "v")
        got = ctx.attempt(dump, v, ty.hint, settings=st)
        agree(ctx, got, lambda: ty.ref_dump(v, s), "dump")
    else:
        p = payload(ctx, ty)
        got = ctx.attempt(load, p, ty.hint, settings=st)
        agree(ctx, got, lambda: ty.ref_load(p, s), "load")
    ctx.cover("done")


# -- which of several settings

ONE29, TWO29, THREE29 = (TDC(f"N{i}29", F("x", INT, default=i)) for i in range(3))
PLACES = ("annotation", "local", "conditional", "provider", "global", "parent", "call")
ALTS = {n: dataclasses.make_dataclass("At_" + n, [("x", int, 0)], module=MOD) for n in PLACES + ("annotation2", "global2")}
STRAY = dataclasses.make_dataclass("Stray", [("x", int, 0)], module=MOD)


@harness("C29", "settings", shards=[{"place": p} for p in PLACES + ("two", "three", "more")], thorough=[{"place": p} for p in PLACES + ("two", "three", "more", "all")], cover=["done"],
         bounds="settings with arbitrary priorities at up to 4 (5) places; any integer; loading and dumping", max_paths=60000)
def settings(ctx, place):
    a = Arranged(ctx, place, lambda n, p: DeserializeAs(ALTS.get(n, STRAY), p), Nothing, Nothing)
    m = get_object_mapper(a.settings)
    n = ctx.int("n")
    want = a.eff.type
    got = ctx.attempt(m.deserialize, {"x": n}, a.hint, settings=a.call)
    ctx.check(got.ok and type(got.value) is want and got.value.x == n, "not the type of the setting in effect", lambda: f"{got!r} instead of {want}")
    back = ctx.attempt(m.serialize, want(n), a.hint, settings=a.call)
    ctx.check(back.ok and same(back.value, {"x": n}), "not written", lambda: repr(back))
    other = ctx.attempt(m.serialize, STRAY(n), a.hint, settings=a.call)
    ctx.check(not other.ok and isinstance(other.exc, ConversionError), "another type is written", lambda: repr(other))
    ctx.cover("done")


@dataclasses.dataclass
class Node29(Base):
    """Stands in for its base class, wherever that is declared."""

    next: t.Optional[Base] = None
    kids: t.List[Base] = dataclasses.field(default_factory=list)


@harness("C29", "local", shards=[{"how": h} for h in ("local", "conditional", "none")], cover=["done"], bounds="a setting for the declared class, which also occurs within the named type; 3 levels; arbitrary integers")
def local(ctx, how):
    st = Settings()
    if how == "local":
        st.add_local(Base, DeserializeAs(Node29))
    elif how == "conditional":
        st.add_conditional(lambda c: getattr(c.datatype, "type", None) is Base, DeserializeAs(Node29))
    m = get_object_mapper(st)
    x, y, z = ctx.int("x"), ctx.int("y"), ctx.int("z")
    deep = ctx.flag("deep")
    p = {"x": x, "next": {"x": y}, "kids": [{"x": z, "kids": [{"x": x}]} if deep else {"x": z}]}
    hint = ctx.choice("hint", [Base, Node29])
    got = ctx.attempt(m.deserialize, p, hint)
    ctx.cover("done")
    if how == "none":
        ctx.check(got.ok == (hint is Node29 and not deep), "loaded without a setting", lambda: repr(got))
        if got.ok:
            ctx.check(type(got.value.next) is Base and type(got.value.kids[0]) is Base, "another type", lambda: repr(got))
        return
    ctx.check(got.ok and type(got.value) is Node29, "not loaded", lambda: repr(got))
    v = got.value
    ctx.check(type(v.next) is Node29 and type(v.kids[0]) is Node29 and v.next.next is None, "not at every occurrence", lambda: repr(got))
    ctx.check(conj(v.x == x, v.next.x == y, v.kids[0].x == z), "other values", lambda: repr(got))
    if deep:
        ctx.check(type(v.kids[0].kids[0]) is Node29 and v.kids[0].kids[0].x == x, "not at every occurrence", lambda: repr(got))
    back = ctx.attempt(m.serialize, v, hint)
    leaf = lambda n, *k: {"next": None, "kids": list(k), "x": n}
    ctx.check(back.ok and same(back.value, {"next": leaf(y), "kids": [leaf(z, leaf(x)) if deep else leaf(z)], "x": x}), "not written back", lambda: repr(back))
    if how == "local":
        kid = ctx.attempt(m.deserialize, {"x": x, "y": "s"}, KID.cls)
        ctx.check(kid.ok and type(kid.value) is KID.cls, "derived classes are affected", lambda: repr(kid))
