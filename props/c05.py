"""A remainder field holds exactly the keys no other field consumed."""

from databind.core import Remainder, SerializeDefaults
from databind.json import dump, load
from props.zoo import *
from symex.ctx import payload
from symex.harness import harness


def R(value=INT, key=STR, kind="dict", **kw):
    return F("rest", TDict(key, value, kind), remainder=True, **kw)


FIRST = TDC("RemFirst", R(ANY), F("a", INT, aliases=("al", "a")), F("o", TOpt(STR)))
MAPP = TDC("RemMapping", F("a", INT), R(STR, kind="mapping"))
ORD = TDC("RemOrdered", F("a", INT), R(TOpt(INT), kind="ordered"))
ENUMK = TDC("RemEnum", F("a", INT), R(BOOL, TEnum(Color)))
ONLY = TDC("RemOnly", R(TSeq(INT, width=1)))
DFLT = TDC("RemDefault", F("x", INT, default=1), F("y", TOpt(STR), aliases=("why", "y")), R(INT, factory=dict))
FLATR = TDC("RemFlat", F("a", INT), F("in_", XY, flat=True), R(ANY))
FLATRD = TDC("RemFlatD", F("in_", FLATD.fields[1].type, flat=True), F("a", INT, default=2), R(INT))
INNER_R = TDC("InnerRem", F("u", INT), F("w", STR, aliases=("v", "w"), default="w"), R(INT))
INFLAT = TDC("RemInFlat", F("a", INT), F("in_", INNER_R, flat=True), F("b", TOpt(STR)))
DEEP = TDC("RemDeep", F("k", STR), F("mid", TDC("MidRem", F("m", BOOL), F("deep", INNER_R, flat=True)), flat=True))
OBJV = TDC("RemObj", F("a", INT), R(XY))
OFF = TDC("RemOff", F("a", INT), F("rest", TDict(STR, INT), extra=(Remainder(False),)))
NTR = TNamedTuple("RemNT", F("a", INT), R(INT))
ALL = [REM, REMA, FIRST, MAPP, ORD, ENUMK, ONLY, DFLT, FLATR, FLATRD, INFLAT, DEEP, OFF, NTR]


@harness("C05", "load", shards=[{"ty": x, "n": 3 if x in (ONLY, REM, MAPP, OFF) else 2} for x in ALL] + [{"ty": OBJV, "n": 2}], cover=["accepted", "refused"],
         thorough=[{"ty": x, "n": 4 if x in (ONLY, REM, MAPP, OFF) else 3} for x in ALL] + [{"ty": OBJV, "n": 2}],
         bounds="the required keys (each may be missing) plus up to 2 or 3 arbitrary keys; values: every scalar")
def load_rem(ctx, ty, n):
    need = [f.keys[0] for f in ty.leaves() if f.is_required()]
    entries = [(k, scalar(ctx, "p." + k, ("fin",))) for k in need if not ctx.flag("no." + k)]
    m = ctx.pick("n", n + 1)
    keys = [ctx.str(f"u{i}") for i in range(m)]
    ctx.distinct([k for k, _ in entries] + keys)
    depth = 1 if ty in (OBJV, OFF, ONLY) else 0
    entries += [(k, json_value(ctx, f"uv{i}", depth=depth, width=1, floats=("fin",))) for i, k in enumerate(keys)]
    p = ctx.mkdict(entries)
    got = ctx.attempt(load, p, ty.hint)
    agree(ctx, got, lambda: ty.ref_load(p, S()), "load")


@harness("C05", "partition", shards=[{"ty": x} for x in (REMA, FIRST, DFLT, FLATR, INFLAT, DEEP)], cover=["loaded"],
         bounds="well-formed payloads with up to 3 arbitrary integer entries")
def partition(ctx, ty):
    """Nothing is lost or invented: dumping what was loaded gives the entries of the payload (and defaults)."""
    v = {f.keys[0]: f.type.gen(ctx, "f." + f.name) for f in ty.leaves() if f.is_required()}
    keys = [ctx.str(f"u{i}") for i in range(ctx.pick("n", 4))]
    ctx.distinct(list(v) + keys)
    p = ctx.mkdict([(k, ctx.int(f"uv{i}")) for i, k in enumerate(keys)] + [(k, v[k]) for k in v])
    got = ctx.attempt(load, p, ty.hint)
    agree(ctx, got, lambda: ty.ref_load(p, S()), "load")
    if got.ok:
        ctx.cover("loaded")
        d = ctx.attempt(dump, got.value, ty.hint, settings=[SerializeDefaults(False)])
        agree(ctx, d, lambda: ty.ref_dump(got.value, S(serialize_defaults=False)), "dump")
        if d.ok:
            for k in d.value:
                ctx.check(k in p and same(d.value[k], p[k]), "dump of what was loaded has other entries", lambda: f"{p!r} -> {d.value!r}")


@harness("C05", "dump", shards=[{"ty": x, "sd": sd} for x in ALL for sd in (True, False)], cover=["accepted", "refused"],
         bounds="every conforming value with up to 2 entries in the remainder")
def dump_rem(ctx, ty, sd):
    v = ty.gen(ctx, "v")
    got = ctx.attempt(dump, v, ty.hint, settings=[SerializeDefaults(sd)])
    agree(ctx, got, lambda: ty.ref_dump(v, S(serialize_defaults=sd)), "dump")
    if got.ok:
        again = ctx.attempt(load, got.value, ty.hint, observe=False)
        ctx.check(again.ok, "what was dumped is refused", lambda: f"{v!r} -> {got.value!r}: {again.exc!r}")
        if again.ok:
            ctx.check(same(again.value, v), "the remainder was mixed up with other fields", lambda: f"{v!r} -> {got.value!r} -> {again.value!r}")


def two(name, f1, f2):
    return dataclasses.make_dataclass(name, [("a", int), f1, f2], module=MOD)


RT = t.Annotated[t.Dict[str, int], Remainder()]
INNER_T = dataclasses.make_dataclass("InnerT", [("u", int), ("r", RT)], module=MOD)
TWO = [
    two("TwoA", ("r1", RT), ("r2", RT)),
    two("TwoB", ("r1", RT), ("i", t.Annotated[INNER_T, Flattened()])),
    two("TwoC", ("i", t.Annotated[INNER_T, Flattened()]), ("r1", RT)),
]


@harness("C05", "two", shards=[{"cls": c} for c in TWO], cover=["refused"], bounds="up to 2 arbitrary keys")
def two_remainders(ctx, cls):
    p = payload(ctx, "p", ctx.pick("n", 3), lambda n: ctx.int(n), [("a", 1), ("u", 2)] if cls is not TWO[0] else [("a", 1)])
    got = ctx.attempt(load, p, cls)
    ctx.check(not got.ok and isinstance(got.exc, ConversionError), "two remainder fields accepted when loading", lambda: repr(got))
    inner = INNER_T(1, {})
    v = cls(1, {}, {}) if cls is TWO[0] else cls(1, {}, inner) if cls is TWO[1] else cls(1, inner, {})
    if cls is TWO[0]:
        got = ctx.attempt(dump, v, cls)
        ctx.check(not got.ok and isinstance(got.exc, ConversionError), "two remainder fields accepted when dumping", lambda: repr(got))
    ctx.cover("refused")


@harness("C05", "wrong", shards=[{"ty": x} for x in (REM, FIRST, MAPP)], cover=["done"], bounds="every scalar in the place of the remainder")
def wrong(ctx, ty):
    """A value that is no mapping in the remainder field is refused when dumping."""
    kw = {"a": 1, "rest": json_value(ctx, "r", depth=1, width=1)}
    if ty is FIRST:
        kw["o"] = None
    v = ty.cls(**kw)
    got = ctx.attempt(dump, v, ty.hint)
    if not isinstance(v.rest, dict):
        ctx.check(not got.ok and isinstance(got.exc, ConversionError), "accepted a remainder that is no mapping", lambda: repr(got))
    ctx.cover("done")
