"""Fields are filled by alias order, presence, default and requiredness, and written once under the first alias."""

from databind.core import Priority
from databind.json import dump, load
from props.zoo import *
from symex.ctx import payload
from symex.harness import harness


def two_lists():
    return [1, 2]


SWAP = TDC("Swap", F("a", ANY, aliases=("b",)), F("b", ANY, aliases=("c", "a"), default=0), F("c", ANY, default=None))
LONG = TDC("Long", F("x", ANY, aliases=("k1", "k2", "k3", "x")), F("y", ANY, aliases=("z", "yy"), factory=two_lists))
RQ = TDC(
    "Rq", F("o", TOpt(INT), required=True), F("n", INT, required=False), F("m", INT, default=3, required=True),
    F("e", TOpt(STR), default="e"),
)
DFL = TDC(
    "Dfl", F("a", INT, default=0), F("b", STR, default=""), F("c", TSeq(ANY, width=1), factory=two_lists), F("d", TOpt(INT), aliases=("dd",)),
    F("e", ANY, default=None),
)
PRIO = TDC(
    "Prio", F("a", ANY, aliases=("hi", "hi2"), extra=(Alias("low", priority=Priority.LOW), Alias("second"))),
    F("b", ANY, aliases=("u",), extra=(Alias("v"),), default=1),
)
# the alias of highest priority wins over earlier ones
PRIO2 = TDC("Prio2", F("a", ANY))
PRIO2.cls = PRIO2.hint = dataclasses.make_dataclass("Prio2", [
    ("a", t.Annotated[t.Any, Alias("x"), Alias("y", "z", priority=Priority.HIGH), Alias("w", priority=Priority.HIGH)]),
], module=MOD)
PRIO2.fields = (F("a", ANY, aliases=("y", "z")),)
ODD = TDC("Odd", F("a", INT, aliases=("",)), F("b", INT, aliases=("b c", "é", "0"), default=5), F("items", STR, default="i"), F("keys", STR, aliases=("values",)))
OPTDEF = TDC("OptDef", F("a", TOpt(INT), default=5), F("b", TOpt(TSeq(INT, width=1)), factory=list), F("c", TOpt(STR), required=False, aliases=("cc", "c")))


@dataclasses.dataclass
class NoInit:
    """Fields that are not constructor arguments are no keys of the payload."""

    a: int
    hidden: int = dataclasses.field(init=False, default=3)
    b: t.Annotated[str, Alias("bb")] = "x"
    skip: dataclasses.InitVar[int] = 0


NOINIT = TDC("NoInit", F("a", INT), F("b", STR, aliases=("bb",), default="x"), cls=NoInit)


def keys_of(ty, more=()):
    out = []
    for f in ty.leaves():
        for k in (f.name,) + tuple(f.keys):
            if k not in out:
                out.append(k)
    return out + [k for k in more if k not in out]


LOADS = [SWAP, LONG, RQ, DFL, PRIO, PRIO2, OPTDEF, ALI, REQ]


@harness("C03", "load", shards=[{"ty": x} for x in LOADS], cover=["accepted", "refused"],
         bounds="every subset of the aliases and code names in either order, plus 1 arbitrary key; values: every scalar")
def load_fields(ctx, ty):
    keys = keys_of(ty, ("low", "second", "x", "w", "v") if ty in (PRIO, PRIO2) else ())
    small = len(keys) > 6
    p = presence(ctx, "p", keys, lambda n, k: scalar(ctx, n, ("fin",)), extra=0 if small else 1,
                 extra_value=lambda n: scalar(ctx, n, ("fin",)), orders=not small)
    got = ctx.attempt(load, p, ty.hint)
    agree(ctx, got, lambda: ty.ref_load(p, S()), "load")


@harness("C03", "wellformed", shards=[{"ty": x} for x in LOADS + [NOINIT, ODD]], cover=["accepted", "refused"],
         bounds="every subset of the aliases and code names, values of the right type (or none)")
def wellformed(ctx, ty):
    names = {}
    for f in ty.leaves():
        for k in (f.name,) + tuple(f.keys):
            names.setdefault(k, []).append(f)
    p = presence(ctx, "p", list(names), lambda n, k: names[k][0].type.gen(ctx, n), orders=False)
    got = ctx.attempt(load, p, ty.hint)
    agree(ctx, got, lambda: ty.ref_load(p, S()), "load")
    if got.ok:
        for f in ty.fields:
            if f.factory is not None and not any(k in p for k in f.keys):
                ctx.cover("factory")
                again = load(p, ty.hint)
                ctx.check(getattr(again, f.name) is not getattr(got.value, f.name), "default of a factory is shared")


@harness("C03", "unknown_values", shards=[{"ty": x} for x in (SWAP, DFL, ALI)], cover=["accepted", "refused"],
         bounds="up to 3 arbitrary keys with scalar values")
def unknown_values(ctx, ty):
    n = ctx.pick("n", 4)
    p = payload(ctx, "p", n, lambda nm: scalar(ctx, nm, ("fin",)))
    got = ctx.attempt(load, p, ty.hint)
    agree(ctx, got, lambda: ty.ref_load(p, S()), "load")



DUMPS = LOADS + [NOINIT, ODD, XY, DEF, FLAT1, FLAT2, NEST]


@harness("C03", "dump", shards=[{"ty": x} for x in DUMPS if x is not SWAP], cover=["dumped"], bounds="every conforming value")
def dump_fields(ctx, ty):
    v = ty.gen(ctx, "v")
    got = ctx.attempt(dump, v, ty.hint)
    ctx.check(got.ok, "dump of a conforming value failed", lambda: repr(got.exc))
    if got.ok:
        ctx.cover("dumped")
        want = ty.ref_dump(v, S())
        ctx.check(same(got.value, want), "wrong output", lambda: f"{got.value!r} instead of {want!r}")
        ctx.check(list(got.value) == list(want), "keys are not in declaration order", lambda: f"{list(got.value)} instead of {list(want)}")
