"""Dumping checks types and produces plain JSON values."""

from databind.core import Strict
from databind.json import dump
from props.zoo import *
from symex.harness import harness

LEAVES = [
    BOOL, INT, FLOAT, STR, TBytes(), TDecimal(), TUuid(), TPath(), TPurePath(), TDuration(), TDateTime("date"), TDateTime("time"), TEnum(Color), TPet(),
    TIntEnum(), TLit("a", 1, None, True), TLit(0, "x"), TOpt(INT), TOpt(STR), TUnion(INT, STR), TUnion(XY, PQ), TOpt(TUnion(STR, INT)),
    XY, DEF2, TD, NT, TBox(INT), TSeq(INT), TSeq(STR, "blist"), TSeq(INT, "set"), TSeq(INT, "frozenset"), TSeq(INT, "vtuple"), TSeq(INT, "deque"),
    TSeq(INT, "sequence"), TSeq(INT, "collection"), TTuple(INT, STR), TTuple(INT), TDict(STR, INT), TDict(STR, INT, "bdict"), TDict(STR, STR, "mapping"),
    TDict(STR, INT, "ordered"), TDict(TEnum(Color), INT), FLAT1, REM, TTagged("flat", M), TTagged("nested", M), TTagged("keyed", M),
    TTagged("keyed", [("int", INT), ("text", STR)]),
]
SMALL = ("json", "tuple", "other")
W = lambda x, kinds=("json",): Wild(x, kinds)  # noqa: E731
INNER = TDC("WInner", F("x", W(INT)), F("y", STR))
NESTED = [
    TSeq(W(INT, SMALL)), TSeq(W(STR), "vtuple"), TSeq(W(XY, SMALL), width=1), TTuple(W(INT, SMALL), W(STR)), TDict(STR, W(INT, SMALL)),
    TDict(W(TEnum(Color), ("json",)), INT, width=1), TOpt(W(BOOL, SMALL)), TUnion(TSeq(W(INT), width=1), TSeq(W(STR), width=1, kind="vtuple")),
    TDC("WDC", F("a", W(INT, SMALL)), F("b", W(TOpt(STR)), aliases=("bb",)), F("c", W(FLOAT), default=1.5)),
    TDC("WNest", F("i", INNER), F("l", TSeq(INNER, width=1)), F("d", TDict(STR, W(TLit(1, "a")), width=1))),
    TDC("WFlat", F("k", W(STR)), F("i", TDC("WFlatI", F("p", W(INT, SMALL)), F("q", W(TEnum(Color)))), flat=True)),
    TDC("WFlat2", F("i", W(XY, ("json", "dict", "other")), flat=True), F("z", INT)),
    TDC("WRem", F("a", INT), F("rest", TDict(STR, W(INT, SMALL), width=1), remainder=True)),
    TTypedDict("WTD", F("a", W(INT, SMALL)), F("o", W(STR)), optional=("o",)),
    TNamedTuple("WNT", F("a", W(INT, SMALL)), F("b", W(STR))),
    TBox(W(STR), 1), TSeq(TSeq(W(INT), width=1), width=1), TSeq(TOpt(TDict(STR, W(TUuid()), width=1)), width=1),
    TTagged("flat", [("w", INNER), ("pq", PQ)]), TTagged("nested", [("w", INNER), ("pq", PQ)]), TTagged("keyed", [("w", INNER), ("i", W(INT))]),
]


def check_dump(ctx, ty, v, settings=None):
    got = ctx.attempt(dump, v, ty.hint, settings=settings)
    agree(ctx, got, lambda: ty.ref_dump(v, S()), "dump")
    if got.ok:
        ctx.check(plain_json(got.value), "the output is not plain JSON", lambda: repr(got.value))
        try:
            want = ty.ref_dump(v, S())
        except Unspecified:
            return got
        ctx.check(same(key_order(got.value), key_order(want)), "keys are not in declaration order", lambda: f"{got.value!r} instead of {want!r}")
    return got


@harness("C08", "values", shards=[{"ty": x, "strict": s} for x in LEAVES for s in (True, False)], cover=["accepted", "refused"],
         bounds="conforming values, all scalars, containers of 1 entry and 20 other kinds of values")
def values(ctx, ty, strict):
    v = Wild(ty).gen(ctx, "v")
    check_dump(ctx, ty, v, None if strict else [Strict(False)])


@harness("C08", "nested", shards=[{"ty": x} for x in NESTED], cover=["accepted", "refused"],
         bounds="containers and classes up to 2 levels in which any leaf may have any other value")
def nested(ctx, ty):
    v = ty.gen(ctx, "v")
    check_dump(ctx, ty, v)


@dataclasses.dataclass
class XYSub(XY.cls):
    z: int = 0


@dataclasses.dataclass
class LikeXY:
    x: int
    y: str


class Fake:
    """Claims to have all attributes."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return 1


@harness("C08", "instances", shards=[{"ty": x} for x in (XY, TSeq(XY), TOpt(XY), FLAT1, TTagged("flat", M), TTagged("keyed", M), TUnion(PQ, XY))],
         cover=["accepted", "refused"], bounds="instances of the class, of a subclass, of a class with equal fields and of none")
def instances(ctx, ty):
    """An instance is needed, equal attributes are not enough; tagged unions want the exact class."""
    x, y = ctx.int("x"), ctx.str("y")
    i = ctx.pick("which", 6)
    v = [lambda: XY.cls(x=x, y=y), lambda: XYSub(x=x, y=y), lambda: LikeXY(x, y), lambda: Fake(), lambda: {"x": x, "y": y}, lambda: XY.cls][i]()
    if isinstance(ty, TSeq):
        v = [v]
    elif ty is FLAT1:
        v = FLAT1.cls(a=1, inner=v)
    check_dump(ctx, ty, v)
