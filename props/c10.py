"""Undiscriminated unions take the first member in order that accepts the value."""

import itertools

from databind.core import Converter, NoMatchingConverter, Strict
from databind.core.union import StaticUnionMembers
from databind.json import JsonConverter, dump, get_object_mapper, load
from props.zoo import *
from symex.harness import harness

WIDE = TDC("Wide", F("x", INT), F("y", STR, default="w"), F("p", TOpt(STR)))
DATE, DEC = TDateTime("date"), TDecimal()
SETS = [
    (INT, STR), (BOOL, INT, FLOAT), (FLOAT, STR, BOOL), (XY, WIDE), (PQ, DEF2, STR), (TSeq(INT, width=1), TDict(STR, INT, width=1), STR),
    (TSeq(STR, "frozenset", width=1), TSeq(INT, width=1)), (DATE, STR), (DEC, FLOAT, STR), (TEnum(Color), STR), (TIntEnum(), INT), (TUuid(), TPath(), TBytes()),
    (TD, XY),
]
ALL = [p for s in SETS for p in itertools.permutations(s)]


class TBest(TUnion):
    """The same by way of the BEST_MATCH style."""

    def __init__(self, *members):
        self.members = members
        self.hint = t.Annotated[t.Union[tuple(m.hint for m in members)], Union({f"m{i}": m.hint for i, m in enumerate(members)}, Union.BEST_MATCH)]


TYPES = [TUnion(*p) for p in ALL] + [TOpt(TUnion(*p)) for p in ALL if len(p) == 2] + [TBest(*p) for p in ALL[:6]] + [TBest(INT, TOpt(STR))]
STRICTS = [TUnion(*p) for p in itertools.permutations((INT, STR, BOOL))] + [TUnion(*p) for p in itertools.permutations((FLOAT, STR))]


@harness("C10", "load", shards=[{"ty": x, "strict": True} for x in TYPES] + [{"ty": x, "strict": False} for x in STRICTS], cover=["accepted", "refused"],
         bounds="every scalar, containers with 1 entry of a scalar")
def load_union(ctx, ty, strict):
    ms = ty.inner.members if isinstance(ty, TOpt) else ty.members
    objs = [m for m in ms if isinstance(m, (TDC, TTypedDict))]
    if objs and ctx.flag("obj"):
        keys = []
        for m in objs:
            keys.extend(f.name for f in m.fields if f.name not in keys)
        v = presence(ctx, "v", keys[:3], lambda n, k: ctx.lazy(n, [("int", int, lambda: ctx.int(n)), ("str", str, lambda: ctx.str(n)), ("null", type(None), lambda: None)]), orders=False)
    else:
        v = json_value(ctx, "v", depth=1, width=1)
    got = ctx.attempt(load, v, ty.hint, settings=None if strict else [Strict(False)])
    agree(ctx, got, lambda: ty.ref_load(v, S(strict=strict)), "load")
    if not got.ok and not isinstance(ty, TOpt):
        ctx.check(all([len(e) == 2 and isinstance(e[1], ConversionError) for e in got.exc.errors]), "the errors of the members", lambda: repr(got.exc.errors))
        ctx.check(len(got.exc.errors) == len(ms), "the error does not contain the errors of all the members", lambda: repr(got.exc.errors))


@harness("C10", "dump", shards=[{"ty": x} for x in TYPES], cover=["accepted"], bounds="values of every member and 25 kinds of others")
def dump_union(ctx, ty):
    v = Wild(ty).gen(ctx, "v")
    got = ctx.attempt(dump, v, ty.hint)
    agree(ctx, got, lambda: ty.ref_dump(v, S()), "dump")


# -- members whose acceptance is arbitrary


class Stub(Converter):
    def __init__(self, name):
        self.name = name

    def convert(self, ctx):
        LOG.append((self.name, ctx.value, ctx.direction.name))
        how = PLAN[self.name]
        if how == 0:
            return RESULTS[self.name]
        if how == 1:
            exc = ConversionError(self, ctx, self.name)
            RAISED.append(exc)
            raise exc
        raise NotImplementedError


LOG, PLAN, RESULTS, RAISED = [], {}, {}, []
NAMES = ["StubA", "StubB", "StubC", "StubD"]
CLASSES = [JsonConverter(Stub(n))(type(n, (), {})) for n in NAMES]
RESULTS.update({n: ["result of " + n] for n in NAMES})
UNI = {
    "plain2": t.Union[CLASSES[1], CLASSES[0]], "plain": t.Union[CLASSES[2], CLASSES[0], CLASSES[3], CLASSES[1]],
    "pipe": CLASSES[2] | CLASSES[0] | CLASSES[3], "opt": t.Optional[t.Union[CLASSES[2], CLASSES[0], CLASSES[1]]],
    "best": t.Annotated[t.Union[CLASSES[0], CLASSES[1]], Union({"z": CLASSES[1], "y": CLASSES[3], "a": CLASSES[0]}, Union.BEST_MATCH)],
    "annotated": t.Annotated[t.Union[CLASSES[3], CLASSES[1]], "text"],
}
ORDER = {"plain2": "BA", "plain": "CADB", "pipe": "CAD", "opt": "CAB", "best": "BDA", "annotated": "DB"}


@harness("C10", "order", shards=[{"u": u, "ser": s} for u in UNI for s in (True, False)], cover=["accepted", "refused"],
         bounds="unions of up to 4 members, each of which accepts, refuses or has no converter")
def order(ctx, u, ser):
    del LOG[:], RAISED[:]
    names = ["Stub" + c for c in ORDER[u]]
    PLAN.clear()
    for n in names:
        PLAN[n] = ctx.pick(n, 3)
    value = None if ctx.flag("none") else object()
    m = get_object_mapper()
    got = ctx.attempt(m.serialize if ser else m.deserialize, value, UNI[u])
    if value is None and u == "opt":
        ctx.check(got.ok and got.value is None and not LOG, "none in an optional union", lambda: f"{got!r} {LOG}")
        return
    first = None
    for i, n in enumerate(names):
        if PLAN[n] == 0:
            first = i
            break
    asked = names if first is None else names[: first + 1]
    ctx.check([x[0] for x in LOG] == asked, "members are not tried in order until one accepts", lambda: f"{LOG} instead of {asked}")
    ctx.check(all([x[1] is value for x in LOG]), "a member was offered another value", lambda: repr(LOG))
    ctx.check(all([x[2] == ("SERIALIZE" if ser else "DESERIALIZE") for x in LOG]), "a member was offered another direction", lambda: repr(LOG))
    if first is not None:
        ctx.cover("accepted")
        ctx.check(got.ok and got.value is RESULTS[names[first]], "not the result of the first member that accepts", lambda: repr(got))
        return
    ctx.cover("refused")
    ctx.check(not got.ok and isinstance(got.exc, ConversionError), "not a conversion error", lambda: repr(got))
    if got.ok:
        return
    errs = got.exc.errors
    ctx.check(len(errs) == len(names), "the errors of all the members", lambda: repr(errs))
    if len(errs) == len(names):
        k = 0
        for i, n in enumerate(names):
            if PLAN[n] == 1:
                ctx.check(errs[i][1] is RAISED[k], "the error of a member was replaced", lambda: f"{n}: {errs[i]!r}")
                ctx.check(errs[i][0] is RAISED[k].origin, "the origin of the error of a member", lambda: f"{n}: {errs[i]!r}")
                k += 1
            else:
                ctx.check(isinstance(errs[i][1], NoMatchingConverter), "the error of a member without a converter", lambda: f"{n}: {errs[i]!r}")
    ctx.check(all([n in str(got.exc) for n in names if PLAN[n] == 1]), "the text does not contain the errors of the members", lambda: str(got.exc))


NONES_ALT = [(t.Union[int, None, str], True), (t.Union[None, int], True), (int | None, True), (None | str | int, True), (int | str, False), (t.Optional[XY.cls] , True), (t.Union[XY.cls, int], False),
             (t.Annotated[t.Optional[int], "x"], True), (t.Optional[t.Annotated[int, "x"]], True), (t.List[t.Optional[int]], False)]


@harness("C10", "none", shards=[{"i": i} for i in range(len(NONES_ALT))], cover=["done"], bounds="10 spellings")
def none(ctx, i):
    hint, optional = NONES_ALT[i]
    for fn in (load, dump):
        got = ctx.attempt(fn, None, hint)
        ctx.check(got.ok == optional and (not got.ok or got.value is None), "none is accepted exactly when the union is optional", lambda: f"{hint}: {got!r}")
        ctx.check(got.ok or isinstance(got.exc, ConversionError), "not a conversion error", lambda: repr(got.exc))
    ctx.cover("done")
