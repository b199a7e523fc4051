"""Strictness decides scalar conversions, only while loading."""

from databind.core import Priority, Strict
from databind.json import dump, get_object_mapper, load
from props.zoo import *
from symex.harness import harness

DEC = TDecimal()
SC = [BOOL, INT, FLOAT, STR, TBytes(), DEC]


def arr(ctx, place, ty, **kw):
    return Arranged(ctx, place, lambda n, p: Strict(ctx.flag(n + ".on") if n not in ("elsewhere", "never") else False, p), ty.hint, ty.hint)


def ref(ty, v, s):
    if isinstance(ty, TOpaque) and not s.strict and isinstance(v, (int, float)):
        raise Unspecified("numbers as decimals")
    return ty.ref_load(v, s)


@harness("C07", "place", shards=[{"ty": x, "place": p} for x in SC for p in PLACES if x is not DEC or p in ("none", "annotation", "global")] + [{"ty": INT, "place": "three"}],
         thorough=[{"ty": x, "place": p} for x in SC for p in PLACES + ("three", "more", "all") if x is not DEC or p in ("none", "annotation", "global")],
         cover=["accepted", "refused"],
         bounds="every scalar and empty container; one setting per place with arbitrary priority and direction")
def place_(ctx, ty, place):
    a = arr(ctx, place, ty)
    strict = a.eff is None or a.eff.enabled
    v = json_value(ctx, "v", depth=0)
    got = ctx.attempt(get_object_mapper(a.settings).deserialize, v, a.hint, settings=a.call)
    agree(ctx, got, lambda: ref(ty, v, S(strict=strict)), "load")


@harness("C07", "dump", shards=[{"ty": x, "place": p} for x in SC for p in ("annotation", "local", "global", "call")], cover=["accepted", "refused"],
         bounds="every scalar and empty container")
def dump_strict(ctx, ty, place):
    """Dumping never converts between scalar types, whatever the setting."""
    a = arr(ctx, place, ty)
    v = ty.gen(ctx, "v") if ctx.flag("good") else json_value(ctx, "w", depth=0)
    got = ctx.attempt(get_object_mapper(a.settings).serialize, v, a.hint, settings=a.call)
    agree(ctx, got, lambda: ty.ref_dump(v, S()), "dump")
    plain = ctx.attempt(dump, v, ty.hint)
    ctx.check(plain.ok == got.ok, "the setting changed the outcome of dumping", lambda: f"{v!r}: {plain!r}, {got!r}")


class Loose(T):
    """A scalar with its own strictness."""

    def __init__(self, inner, on=False):
        self.inner = inner
        self.hint = t.Annotated[inner.hint, Strict(on)]
        self.on = on

    def gen(self, ctx, name):
        return self.inner.gen(ctx, name)

    def ref_load(self, v, s):
        return self.inner.ref_load(v, dataclasses.replace(s, strict=self.on))

    def ref_dump(self, x, s):
        return self.inner.ref_dump(x, s)

    def __repr__(self):
        return f"Loose({self.inner!r},{self.on})"


NESTED = [
    TTuple(Loose(INT), INT), TTuple(BOOL, Loose(BOOL)), TSeq(Loose(STR), width=2), TDict(STR, Loose(INT), width=1),
    TDC("LooseDC", F("a", INT, strict=False), F("b", STR), F("c", BOOL, strict=False, default=True)),
    TDC("LooseIn", F("i", TDC("LooseI", F("x", INT), F("y", Loose(INT)))), F("z", Loose(STR))),
    TOpt(Loose(BOOL)), TTuple(Loose(INT, True), INT), TDC("StrictDC", F("a", INT, strict=True), F("b", INT)),
]


@harness("C07", "nested", shards=[{"ty": x, "g": g} for x in NESTED for g in (None, True, False)], cover=["accepted", "refused"],
         bounds="one container with up to 2 entries or a class with up to 3 fields, every scalar inside")
def nested(ctx, ty, g):
    """The setting of a field or element has no effect on its neighbours and wins over the global one."""
    if isinstance(ty, TDC):
        names = ["x", "y"] if ty.name == "LooseIn" else [f.name for f in ty.fields]
        inner = {n: scalar(ctx, "v." + n, ("fin",)) for n in names}
        v = ctx.mkdict(list(inner.items()))
        if ty.name == "LooseIn":
            v = ctx.mkdict([("i", v), ("z", scalar(ctx, "v.z", ("fin",)))])
    elif isinstance(ty, TTuple):
        v = [scalar(ctx, f"v{i}") for i in range(2)]
    elif isinstance(ty, TSeq):
        v = [scalar(ctx, f"v{i}") for i in range(ctx.pick("n", 3))]
    elif isinstance(ty, TDict):
        v = ctx.mkdict([(ctx.str("k"), scalar(ctx, "v"))])
    else:
        v = scalar(ctx, "v")
    got = ctx.attempt(load, v, ty.hint, settings=None if g is None else [Strict(g)])
    agree(ctx, got, lambda: ty.ref_load(v, S(strict=g is not False)), "load")


@harness("C07", "value", shards=[{"src": a, "dst": b, "strict": s} for a in ("int", "float", "bool", "str") for b in (INT, FLOAT, BOOL, STR) for s in (True, False)],
         cover=["done"], bounds="every value of the scalar type")
def value_kept(ctx, src, dst, strict):
    """Stated without the reference: what is accepted, and that the value is preserved."""
    v = {"int": ctx.int, "float": ctx.float, "bool": ctx.bool, "str": ctx.str}[src]("v")
    d = dst.hint.__name__
    got = ctx.attempt(load, v, dst.hint, settings=[Strict(strict)])
    ctx.cover("done")
    if got.ok:
        ctx.check(type(got.value) is dst.hint, "wrong type", lambda: repr(got))
    else:
        ctx.check(isinstance(got.exc, ConversionError), "not a conversion error", lambda: repr(got.exc))
    if src == d:
        ctx.check(got.ok and same(got.value, v), "value of the target type refused or changed", lambda: repr(got))
    elif (src, d) == ("int", "float"):
        if conj(v >= -(2**53), v <= 2**53):
            ctx.check(got.ok and got.value == v, "integer refused or changed", lambda: repr(got))
    elif (src, d) == ("float", "int"):
        integral = not math.isnan(v) and not math.isinf(v) and v.is_integer()
        ctx.check(got.ok == integral, "float with integral value refused, or another accepted", lambda: repr(got))
        if got.ok:
            ctx.check(got.value == v, "value changed", lambda: repr(got))
    elif strict or (d in ("int", "float", "bool") and src != "str"):
        ctx.check(not got.ok, "accepted a value of another type", lambda: repr(got))
    elif d == "str":
        ctx.check(got.ok and got.value == str(v), "number or boolean refused as a string", lambda: repr(got))
    elif d == "bool":
        w = v.lower()
        yes = disj(*[w == k for k in ("yes", "true", "on", "enabled")])
        no = disj(*[w == k for k in ("no", "false", "off", "disabled")])
        if yes:
            ctx.check(got.ok and got.value is True, "truthy keyword", lambda: repr(got))
        elif no:
            ctx.check(got.ok and got.value is False, "falsy keyword", lambda: repr(got))
        else:
            ctx.check(not got.ok, "accepted text that is no keyword", lambda: repr(got))


@harness("C07", "number_text", shards=[{"dst": b} for b in (INT, FLOAT)], cover=["int", "float"], bounds="the text of every integer (and of sampled floats)")
def number_text(ctx, dst):
    """The text of a number is read as that number when strictness is off."""
    n = ctx.int("n") if ctx.flag("i") else None
    x = n if n is not None else ctx.float("x")
    got = ctx.attempt(load, str(x), dst.hint, settings=[Strict(False)])
    if n is not None:
        ctx.cover("int")
        if dst is INT:
            ctx.check(got.ok and got.value == n, "text of an integer", lambda: repr(got))
        elif conj(n >= -(2**53), n <= 2**53):
            ctx.check(got.ok and got.value == n, "text of an integer", lambda: repr(got))
    elif dst is FLOAT:
        ctx.cover("float")
        ctx.check(got.ok and same(got.value, x), "text of a float", lambda: repr(got))
    else:
        ctx.cover("float")
        ctx.check(not got.ok, "text of a float read as an integer", lambda: repr(got))
