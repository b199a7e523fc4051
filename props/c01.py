"""Round trip: loading what was dumped gives the value back."""

from databind.core import SerializeDefaults
from databind.json import dump, load
from props.zoo import *
from symex.harness import harness

PLAIN = [
    TBool(), TInt(), TFloat(), TStr(), TBytes(), TDecimal(), TUuid(), TPath(), TPurePath(), TDuration(), TAny(), TObject(),
    TDateTime("date"), TDateTime("time"), TDateTime("datetime"),
    TEnum(Color), TPet(), TIntEnum(), TLit("a", 1, None, True, "b"),
    TOpt(INT), TOpt(TSeq(STR)), TSeq(INT), TSeq(STR, "blist"), TSeq(INT, "set"), TSeq(STR, "frozenset"),
    TSeq(BOOL, "vtuple"), TSeq(FLOAT, "deque", width=1), TSeq(INT, "sequence"), TSeq(INT, "collection"),
    TTuple(INT, STR, BOOL), TTuple(TSeq(INT, width=1), TOpt(STR)), TTuple(TUuid(), TIntEnum()),
    TDict(STR, INT), TDict(STR, TSeq(INT, width=1), "bdict"), TDict(STR, BOOL, "mapping"), TDict(STR, STR, "ordered"),
    TDict(TEnum(Color), INT), TDict(TPet(), STR, width=1), TDict(TUuid(), INT, width=1),
    TSeq(TDict(STR, TOpt(INT), width=1)), TSeq(TTuple(INT, TEnum(Color)), width=1), TSeq(TSeq(INT, width=1), width=2),
    TUnion(INT, STR), TUnion(BOOL, STR, TSeq(INT, width=1)), TUnion(XY, PQ), TSeq(TUnion(STR, INT)), TUnion(STR, XY, TDict(STR, INT, width=1)),
    TOpt(TUnion(STR, INT)), TUnion(BOOL, FLOAT),
]
OBJECTS = [
    XY, DEF, ALI, REQ, FLAT1, FLAT2, FLATD, NEST, NT, TBox(INT), TBox(TSeq(STR, width=1)), TBox(XY), TNode(2),
    TD, FLATTD, TSeq(XY), TOpt(XY), TDict(STR, NT, width=1), TBox(TBox(TOpt(INT), 1), 1),
]
TAGGED = [
    TTagged(style, M, disc, nest)
    for style, disc, nest in [
        ("nested", "type", None), ("nested", "kind", None), ("nested", "uses", "with"), ("flat", "type", None),
        ("flat", "kind", None), ("keyed", "type", None),
    ]
] + [
    TTagged("nested", [("int", INT), ("text", STR), ("xy", XY)]),
    TTagged("keyed", [("int", INT), ("text", STR), ("color", TEnum(Color))]),
    TTagged("flat", [("d", DEF), ("a", ALI)]),
    TSeq(TTagged("flat", M), width=1), TOpt(TTagged("keyed", M)), TDict(STR, TTagged("nested", M), width=1),
    TDC("HoldsUnion", F("u", TTagged("flat", M)), F("v", TTagged("keyed", M), aliases=("w",))),
]


def unordered(ty):
    """The order of what is dumped is not determined (sets)."""
    return isinstance(ty, TSeq) and ty.kind in ("set", "frozenset")


def roundtrip(ctx, ty, settings=None):
    v = ty.gen(ctx, "v")
    d = ctx.attempt(dump, v, ty.hint, settings=settings, observe=not unordered(ty))
    ctx.check(d.ok, "dump of a conforming value failed", lambda: f"{v!r}: {d.exc!r}")
    if not d.ok:
        return
    ctx.cover("dumped")
    r = ctx.attempt(load, d.value, ty.hint, settings=settings)
    ctx.check(r.ok, "load of a dumped value failed", lambda: f"{v!r} -> {d.value!r}: {r.exc!r}")
    if r.ok:
        ctx.cover("loaded")
        ctx.check(same(r.value, v), "round trip changed the value", lambda: f"{v!r} -> {d.value!r} -> {r.value!r}")


@harness("C01", "plain", shards=[{"ty": x} for x in PLAIN], cover=["dumped", "loaded"],
         bounds="containers up to 2 entries, nesting up to 2; every value of the leaf types")
def plain(ctx, ty):
    roundtrip(ctx, ty)


@harness("C01", "objects", shards=[{"ty": x} for x in OBJECTS], cover=["dumped", "loaded"],
         bounds="classes with up to 5 fields, nested up to 3 levels")
def objects(ctx, ty):
    roundtrip(ctx, ty)


@harness("C01", "defaults_omitted", shards=[{"ty": x} for x in (DEF, ALI, REQ, FLATD, FLAT2, NT, TBox(INT), TSeq(DEF, width=1))],
         cover=["dumped", "loaded"], bounds="as objects, with defaults left out of the output")
def defaults_omitted(ctx, ty):
    roundtrip(ctx, ty, [SerializeDefaults(False)])


@harness("C01", "tagged", shards=[{"ty": x} for x in TAGGED], cover=["dumped", "loaded"],
         bounds="unions of 2 or 3 members in every style, default and custom keys")
def tagged(ctx, ty):
    roundtrip(ctx, ty)


REMS = [REM, REMA, TDC("RemI", F("x", INT), F("r", TDict(STR, TOpt(BOOL)), remainder=True)),
        TDC("RemD", F("x", INT, default=1), F("r", TDict(STR, INT), factory=dict, remainder=True))]


@harness("C01", "remainder", shards=[{"ty": x, "sd": sd} for x in REMS for sd in (True, False)], cover=["loaded", "collision"],
         bounds="remainder mappings of up to 2 arbitrary keys")
def remainder(ctx, ty, sd):
    """Keys of the remainder that belong to another field are refused, never silently merged."""
    v = ty.gen(ctx, "v")
    st = [SerializeDefaults(sd)]
    d = ctx.attempt(dump, v, ty.hint, settings=st)
    if d.ok:
        r = ctx.attempt(load, d.value, ty.hint, settings=st)
        ctx.check(r.ok, "load of a dumped value failed", lambda: f"{v!r} -> {d.value!r}: {r.exc!r}")
        if r.ok:
            ctx.cover("loaded")
            ctx.check(same(r.value, v), "round trip changed the value", lambda: f"{v!r} -> {d.value!r} -> {r.value!r}")
    else:
        ctx.cover("collision")
        ctx.check(isinstance(d.exc, ConversionError), "dump failed with another exception", lambda: repr(d.exc))
        keys = []
        for f in ty.fields:
            if not f.remainder:
                keys.extend(f.keys)
        rest = getattr(v, ty.fields[-1].name)
        ctx.check(disj(*[k in rest for k in keys]), "dump of a conforming value failed", lambda: f"{v!r}: {d.exc!r}")
