"""Loading gives exactly the value the payload denotes, or a conversion error."""

from databind.core import Strict
from databind.json import load
from props.zoo import *
from symex.harness import harness

SCALARS = [
    TBool(), TInt(), TFloat(), TStr(), TBytes(), TDecimal(), TUuid(), TPath(), TPurePath(), TAny(), TObject(),
    TDateTime("date"), TDateTime("time"), TDateTime("datetime"), TEnum(Color), TPet(), TIntEnum(),
    TLit("a", 1, None, True, "b"), TLit(0, "0", False), TLit(1), TLit(True), TLit("x"), TLit(None), TLit(-1, 2.5),
    TOpt(INT), TOpt(STR), TOpt(TBytes()), TOpt(BOOL), TOpt(TUuid()),
    TUnion(INT, STR), TUnion(STR, INT), TUnion(BOOL, FLOAT), TUnion(FLOAT, BOOL, STR), TOpt(TUnion(INT, STR)),
    TDuration(),
]
CONTAINERS = [
    TSeq(INT), TSeq(STR, "blist"), TSeq(BOOL, "set"), TSeq(INT, "set"), TSeq(STR, "frozenset"), TSeq(INT, "vtuple"),
    TSeq(FLOAT, "deque"), TSeq(STR, "sequence"), TSeq(INT, "collection"), TSeq(ANY), TSeq(TOpt(INT)), TSeq(TEnum(Color)),
    TSeq(TUuid()), TSeq(TLit(1, "a")),
    TTuple(INT, STR), TTuple(BOOL), TTuple(INT, FLOAT, STR), TTuple(TOpt(STR), ANY),
    TDict(STR, INT), TDict(STR, STR, "bdict"), TDict(STR, BOOL, "mapping"), TDict(STR, INT, "ordered"), TDict(STR, ANY),
    TDict(TEnum(Color), INT), TDict(TUuid(), STR), TDict(TPet(), INT),
    TOpt(TSeq(INT)), TOpt(TDict(STR, INT)), TUnion(INT, TSeq(INT)), TUnion(TDict(STR, INT), TSeq(INT), STR),
]
NESTED = [
    TSeq(TSeq(INT)), TSeq(TTuple(INT, STR)), TSeq(TDict(STR, INT)), TDict(STR, TSeq(INT)), TDict(STR, TDict(STR, BOOL)),
    TTuple(TSeq(INT), TDict(STR, INT)), TSeq(TOpt(TSeq(STR))), TDict(STR, TOpt(INT)), TSeq(XY), TDict(STR, PQ),
    TTuple(XY, INT), TOpt(TSeq(TOpt(INT))), TUnion(TSeq(INT), TTuple(STR, INT)), TSeq(TUnion(INT, TSeq(STR))),
    TUnion(TDict(STR, TSeq(INT)), TSeq(STR, "set")),
]
OBJECTS = [
    XY, PQ, DEF2, ALI, REQ, FLAT1, FLATD, TD, NT, TBox(INT), FLATTD, TOpt(XY), TUnion(XY, PQ),
]
OBJECTS2 = OBJECTS + [DEF, FLAT2, NEST, TUnion(PQ, DEF2), TNode(1), TBox(XY), TSeq(TTagged("flat", M)), TTagged("nested", M), TTagged("keyed", M)]


def both(types):
    return [{"ty": x, "strict": b} for x in types for b in (True, False)]


def run(ctx, ty, strict, v):
    got = ctx.attempt(load, v, ty.hint, settings=None if strict else [Strict(False)])
    agree(ctx, got, lambda: ty.ref_load(v, S(strict=strict)), "load")


@harness("C02", "scalars", shards=both(SCALARS), cover=["accepted", "refused"], bounds="every scalar; containers up to 1 entry")
def scalars(ctx, ty, strict):
    run(ctx, ty, strict, json_value(ctx, "v", depth=1, width=1))


@harness("C02", "containers", shards=both(CONTAINERS), cover=["accepted", "refused"],
         bounds="payloads nested up to 2 levels with up to 2 entries each (innermost level: scalars)")
def containers(ctx, ty, strict):
    run(ctx, ty, strict, json_value(ctx, "v", depth=2, width=2))


@harness("C02", "nested", shards=[{"ty": x, "strict": True, "width": 1} for x in NESTED], cover=["accepted", "refused"],
         thorough=[{"ty": x, "strict": s, "width": 2} for x in NESTED for s in (True, False)],
         bounds="payloads nested up to 3 levels with 1 entry each (thorough: 2)")
def nested(ctx, ty, strict, width):
    run(ctx, ty, strict, json_value(ctx, "v", depth=3, width=width))


@harness("C02", "objects", shards=[{"ty": x, "strict": b, "width": 2} for x in OBJECTS for b in (True, False)],
         thorough=[{"ty": x, "strict": b, "width": w} for x in OBJECTS2 for w, b in ((3, True), (2, True), (2, False))],
         cover=["accepted", "refused"], bounds="payloads nested up to 2 levels with up to 2 arbitrary keys (thorough: 3)")
def objects(ctx, ty, strict, width):
    run(ctx, ty, strict, json_value(ctx, "v", depth=2, width=width))
