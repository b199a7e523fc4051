"""Leaving out defaults omits exactly the fields equal to their default."""

from databind.core import Settings
from databind.json import dump, get_object_mapper, load
from props.zoo import *
from symex.harness import harness

SD = SerializeDefaults
SUB = TDC("Sub15", F("u", INT, default=1), F("w", STR, default="w"))


def sub_default():
    return SUB.cls(u=1, w="w")


def items_default():
    return [1, 2]


KINDS = {
    "plain": TDC("P15", F("a", INT), F("b", INT, default=7), F("c", STR, default="s"), F("d", BOOL, default=True)),
    "none": TDC("N15", F("a", TOpt(INT)), F("b", TOpt(STR), default=None), F("c", TOpt(INT), default=4)),
    "factory": TDC("L15", F("a", TSeq(INT), factory=list), F("b", TSeq(INT, width=2), factory=items_default), F("c", TDict(STR, INT, width=1), factory=dict)),
    "object": TDC("O15", F("a", SUB, factory=sub_default), F("b", TOpt(SUB)), F("c", TSeq(SUB, width=1), factory=list)),
    "required": TDC("R15", F("a", INT, default=7, required=True), F("b", TOpt(INT), required=True), F("c", STR, default="s"), F("d", TOpt(INT), default=None, required=True)),
    "unrequired": TDC("U15", F("a", TOpt(INT), required=False), F("b", INT, default=2, required=False)),
    "alias": TDC("A15", F("a", INT, default=7, aliases=("x", "y")), F("b", STR, aliases=("a",)), F("c", TOpt(INT), aliases=("z", "c"))),
    "enum": TDC("E15", F("a", TEnum(Color), default=Color.RED), F("b", TPet(), default=Pet.LION), F("c", TIntEnum(), default=Level.MID), F("d", TLit("p", "q"), default="q")),
    "text": TDC("T15", F("a", TUuid(), default=uuid.UUID(int=5)), F("b", TDecimal(), default=decimal.Decimal("1.5")), F("c", TPath(), default=pathlib.Path("a"))),
    "dates": TDC("D15", F("a", TDateTime("date"), default=datetime.date(2020, 2, 29)), F("b", FLOAT, default=0.5), F("c", TBytes(), default=b"a")),
    "flat": TDC("F15", F("a", INT, default=3), F("in_", SUB, flat=True)),
    "flatdef": TDC("G15", F("k", STR), F("in_", SUB, flat=True, factory=sub_default)),
    "remainder": TDC("M15", F("a", INT, default=3), F("rest", TDict(STR, INT, width=1), remainder=True, factory=dict)),
    "union": TDC("V15", F("a", TUnion(INT, STR), default="s"), F("b", TTagged("flat", [("sub", SUB), ("xy", XY)]), factory=sub_default)),
    "tuple": TDC("X15", F("a", TTuple(INT, STR), default=(1, "s")), F("b", TSeq(INT, "vtuple", width=1), default=()), F("c", TSeq(STR, "frozenset", width=1), default=frozenset())),
    "any": TDC("Y15", F("a", ANY, default=None), F("b", ANY, default="x")),
    "all": TDC("Z15", F("a", INT), F("b", STR)),
}


def value_of(ctx, ty, name):
    """A value in which every field may have its default or something else."""
    kw = {}
    for f in ty.fields:
        if f.has_default() and ctx.flag(f"{name}.{f.name}.def"):
            kw[f.name] = f.get_default()
        else:
            kw[f.name] = f.type.gen(ctx, f"{name}.{f.name}")
    return ty.cls(**kw)


def judge(ctx, ty, v, got, on, hint=None, settings=None):
    agree(ctx, got, lambda: ty.ref_dump(v, S(serialize_defaults=on)), "dump")
    if got.ok:
        if not on and isinstance(ty, TDC):
            for f in ty.fields:
                if f.flat or f.remainder:
                    continue
                omit = f.has_default() and not f.is_required() and getattr(v, f.name) == f.get_default()
                if f.keys[0] in got.value:
                    ctx.check(neg(omit), "a field equal to its default is written", lambda: f"{f.name}: {got.value!r}")
                else:
                    ctx.cover("omitted")
                    ctx.check(omit, "a field that is not equal to its default was left out", lambda: f"{f.name}: {v!r}")
        back = ctx.attempt(load, got.value, hint or ty.hint, observe=False)
        ctx.check(back.ok and same(back.value, v), "loading the output gives another value", lambda: f"{v!r} -> {got.value!r} -> {back!r}")
    ctx.cover("done")


@harness("C15", "fields", shards=[{"kind": k, "on": on} for k in KINDS for on in (False, True)], cover=["done"], bounds="17 classes; every field at its default or an arbitrary value (containers up to 2)")
def fields(ctx, kind, on):
    ty = KINDS[kind]
    v = value_of(ctx, ty, "v")
    got = ctx.attempt(dump, v, ty.hint, settings=[SD(on)] if not on or ctx.flag("explicit") else None)
    judge(ctx, ty, v, got, on)


TWO = TDC("Two15", F("a", INT), F("b", INT, default=7), F("c", TOpt(STR)), F("d", TSeq(INT, width=1), factory=list))


@harness("C15", "places", shards=[{"place": p} for p in PLACES + ("three", "more")], thorough=[{"place": p} for p in PLACES + ("three", "more", "all")], cover=["done"],
         bounds="settings on or off with arbitrary priorities at up to 4 (5) places; arbitrary values")
def places(ctx, place):
    a = Arranged(ctx, place, lambda n, p: SD(ctx.flag(n + ".on"), p) if n not in ("elsewhere", "never") else SD(False, p), TWO.cls, TWO.hint)
    v = TWO.cls(a=ctx.int("a"), b=ctx.int("b"), c=None if ctx.flag("c") else ctx.str("cv"), d=[])
    m = get_object_mapper(a.settings)
    got = ctx.attempt(m.serialize, v, a.hint, settings=a.call)
    on = True if a.eff is None else a.eff.enabled
    judge(ctx, TWO, v, got, on)


# -- where a setting applies: not to the objects inside (except a global one)

ONE = TDC("One15", F("n", INT, default=5), F("m", TOpt(INT)))
OFF = SD(False)
WHERE = {
    "root": (lambda h: t.Annotated[h, SD(False)], (False, True, True, True)),
    "field": (None, (True, False, True, True)),
    "element": (None, (True, True, False, True)),
    "value": (None, (True, True, True, False)),
    "list": (None, (True, True, True, True)),
}


def holder(where):
    one = ONE.hint
    off = t.Annotated[one, SD(False)]
    return dataclasses.make_dataclass("Hold15", [
        ("f", off if where == "field" else one), ("l", t.Annotated[t.List[one], SD(False)] if where == "list" else t.List[off if where == "element" else one]),
        ("d", t.Dict[str, off if where == "value" else one]), ("z", int, 0)], module=MOD)


HOLDERS = {w: holder(w) for w in WHERE}


@harness("C15", "scope", shards=[{"where": w, "glob": g} for w in WHERE for g in (None, "call", "local", "mapper")], cover=["done"], bounds="a holder of three objects; arbitrary values; settings at 5 positions")
def scope(ctx, where, glob):
    cls = HOLDERS[where]
    vs = [ONE.cls(n=ctx.int(f"n{i}"), m=None if ctx.flag(f"m{i}") else 0) for i in range(3)]
    z = ctx.int("z")
    v = cls(vs[0], [vs[1]], {"k": vs[2]}, z)
    hint = t.Annotated[cls, SD(False)] if where == "root" else cls
    st = Settings()
    call = None
    if glob == "call":
        call = [SD(False)]
    elif glob == "mapper":
        st.add_global(SD(False))
    elif glob == "local":
        st.add_local(ONE.cls, SD(False))
    got = ctx.attempt(get_object_mapper(st).serialize, v, hint, settings=call)
    on = list(WHERE[where][1])
    if glob in ("call", "mapper"):
        on = [False] * 4
    elif glob == "local":
        on = [on[0], False, False, False]
    want = {"f": ONE.ref_dump(vs[0], S(serialize_defaults=on[1])), "l": [ONE.ref_dump(vs[1], S(serialize_defaults=on[2]))], "d": {"k": ONE.ref_dump(vs[2], S(serialize_defaults=on[3]))}}
    if on[0] or neg(z == 0):
        want["z"] = z
    ctx.check(got.ok and same(got.value, want), "the setting applies elsewhere", lambda: f"{got!r} instead of {want!r}")
    ctx.cover("done")


# -- default factories are asked for a fresh value, values are only compared


class Loud:
    """Knows what it is compared with."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return type(other) is Loud and self.n == other.n

    __hash__ = None

    def __str__(self):
        return f"loud {self.n}"


MADE = []


def made():
    MADE.append([1])
    return MADE[-1]


@dataclasses.dataclass
class Fac:
    a: t.List[int] = dataclasses.field(default_factory=made)
    b: t.Any = dataclasses.field(default_factory=lambda: Loud(3))
    c: t.Any = (1, 2)


NAN = float("nan")


@dataclasses.dataclass
class Nan15:
    x: float = NAN
    y: t.Optional[float] = None


@harness("C15", "unequal", shards=[{}], cover=["done"], bounds="a default that is not equal to itself")
def unequal(ctx):
    """NaN is not equal to the default NaN, not even if it is the same object."""
    v = Nan15(ctx.choice("x", [NAN, -NAN, 0.0, 1.5]), ctx.choice("y", [None, NAN]))
    got = ctx.attempt(dump, v, Nan15, settings=[SD(False)])
    ctx.check(got.ok and list(got.value) == (["x", "y"] if v.y is not None else ["x"]) and got.value["x"] is v.x, "left out", lambda: repr(got))
    ctx.cover("done")


@harness("C15", "equality", shards=[{}], cover=["done"], bounds="values equal but not identical to the default")
def equality(ctx):
    items = [ctx.int("i") for _ in range(1)] * ctx.pick("len", 3)
    n = ctx.int("n")
    v = Fac(list(items), Loud(n), (1, 2) if ctx.flag("same") else (1, n))
    got = ctx.attempt(dump, v, Fac, settings=[SD(False)])
    ctx.check(got.ok, "dump", lambda: repr(got))
    if got.ok:
        ctx.check(("a" in got.value) == (items != [1]), "list equal to its default", lambda: repr(got))
        ctx.check(conj("b" in got.value, n != 3) if "b" in got.value else n == 3, "object equal to its default", lambda: repr(got))
        ctx.check(v.c != (1, 2) if "c" in got.value else v.c == (1, 2), "tuple equal to its default", lambda: repr(got))
        ctx.check(v.a == items and all([x == [1] for x in MADE]), "modified")
    ctx.cover("done")


# -- typed dictionaries, generic and inherited defaults

TD15 = TTypedDict("TD15", F("a", INT), F("b", TOpt(STR)), F("c", INT), optional=("c",))


@harness("C15", "dicts", shards=[{"on": o} for o in (False, True)], cover=["done"], bounds="typed dictionaries with an optional key")
def dicts(ctx, on):
    v = {"a": ctx.int("a"), "b": None if ctx.flag("b") else ctx.str("bv")}
    if ctx.flag("c"):
        v["c"] = ctx.int("cv")
    got = ctx.attempt(dump, v, TD15.hint, settings=[SD(on)])
    want = {}
    for k in TD15.cls.__annotations__:
        if k in v and (on or k != "b" or v[k] is not None):
            want[k] = v[k]
    for k in v:
        if k not in want and (on or k != "b" or v[k] is not None):
            want[k] = v[k]
    ctx.check(got.ok and same(got.value, want), "dump", lambda: f"{got!r} instead of {want!r}")
    if got.ok:
        back = load(got.value, TD15.hint)
        ctx.check(same(back, v), "loading the output gives another value", lambda: f"{v!r} {got.value!r} {back!r}")
    ctx.cover("done")


@dataclasses.dataclass
class Par(t.Generic[T_Var]):
    p: T_Var
    q: t.Optional[T_Var] = None
    r: int = 1


@dataclasses.dataclass
class Chi(Par[int]):
    r: int = 2
    s: str = "s"


@harness("C15", "inherited", shards=[{"cls": c} for c in ("par", "chi")], cover=["done"], bounds="a generic class and a class derived from it with an overridden default")
def inherited(ctx, cls):
    kw = {"p": ctx.int("p"), "q": None if ctx.flag("q") else ctx.int("qv"), "r": ctx.int("r")}
    if cls == "chi":
        kw["s"] = ctx.str("s")
    v = (Chi if cls == "chi" else Par)(**kw)
    hint = Chi if cls == "chi" else Par[int]
    got = ctx.attempt(dump, v, hint, settings=[SD(False)])
    want = {"p": v.p}
    if v.q is not None:
        want["q"] = v.q
    if neg(v.r == (2 if cls == "chi" else 1)):
        want["r"] = v.r
    if cls == "chi" and neg(v.s == "s"):
        want["s"] = v.s
    ctx.check(got.ok and same(got.value, want), "dump", lambda: f"{got!r} instead of {want!r}")
    back = ctx.attempt(load, got.value, hint, observe=False)
    ctx.check(back.ok and back.value == v, "loading the output gives another value", lambda: repr(back))
    ctx.cover("done")
