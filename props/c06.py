"""Flattened fields live in the parent object and nothing is lost."""

from databind.core import Converter, SerializeDefaults
from databind.json import JsonConverter, dump, load
from props.zoo import *
from symex.harness import harness

L_S = TDC("LeafS", F("u", INT), F("w", STR, aliases=("v", "w"), default="w"))
L_O = TDC("LeafO", F("m", TOpt(INT)), F("n", TOpt(STR), required=True, aliases=("nn",)))
L_1 = TDC("Leaf1", F("z", INT, aliases=("z1",)), F("own", STR, default="o"))
L_2 = TDC("Leaf2", F("z", INT, aliases=("z2",)), F("y", TSeq(INT, width=1), factory=list))
MID1 = TDC("Mid1", F("p", BOOL), F("leaf", L_S, flat=True))
SIMPLE = TDC("FSimple", F("a", STR), F("i", L_S, flat=True), F("b", BOOL, default=True))
FIRST = TDC("FFirst", F("i", L_S, flat=True), F("a", FLOAT, aliases=("aa",)))
TWO = TDC("FTwo", F("i", L_S, flat=True), F("j", L_O, flat=True))
ADEEP = TDC("FDeep", F("a", INT, default=0), F("mid", MID1, flat=True))
DEEPER = TDC("FDeeper", F("x", INT), F("d", TDC("Mid2", F("q", STR), F("mid", MID1, flat=True), F("o", TOpt(INT))), flat=True))
SIBL = TDC("FSibl", F("a", INT), F("s", TDC("Mid3", F("l1", L_1, flat=True), F("l2", L_2, flat=True)), flat=True))
SIBL2 = TDC("FSibl2", F("l1", L_1, flat=True), F("l2", L_2, flat=True), F("own2", STR, default=""))
OWNNAME = TDC("FOwnName", F("u", L_S, flat=True), F("a", INT))  # the flattened field is named like a field in it
GEN = TDC("FGen", F("a", INT), F("box", TBox(INT, 1), flat=True))
TDI = TDC("FTD", F("a", INT), F("td", TTypedDict("FTDI", F("n", STR), F("k", BOOL, aliases=("kk", "k"))), flat=True))
TDOPT = TDC("FTDOpt", F("a", INT), F("td", TTypedDict("FTDOptI", F("n", STR), F("k", INT), optional=("k",)), flat=True))
OFF = TDC("FOff", F("a", INT), F("i", L_S, extra=(Flattened(False),)))
# the defaults of a flattened field are those of its fields
FDFLT = TDC("FDflt", F("a", INT, default=0), F("i", L_D := TDC("LeafD", F("u", INT, default=1), F("w", TOpt(STR), aliases=("v",))), flat=True, factory=lambda: L_D.cls(u=5, w="five")))
FDREQ = TDC("FDReq", F("a", INT), F("i", L_S, flat=True, factory=lambda: L_S.cls(u=7, w="seven")), F("j", L_O, flat=True, required=False))
FDOPT = TDC("FDNone", F("td", TTypedDict("FDNoneI", F("n", STR), F("k", INT), optional=("n", "k")), flat=True, factory=lambda: {"n": "none", "k": 3}), F("a", INT))
ALIASED = TDC("FAliased", F("a", INT), F("i", L_S, flat=True, aliases=("no", "effect")))


@dataclasses.dataclass
class FBase:
    a: int
    inner: t.Annotated[L_S.cls, Flattened()]


@dataclasses.dataclass
class FChild(FBase):
    c: t.Optional[str] = None


INH = TDC("FChild", F("a", INT), F("inner", L_S, flat=True), F("c", TOpt(STR)), cls=FChild)
ALL = [SIMPLE, FIRST, TWO, ADEEP, DEEPER, SIBL, SIBL2, OWNNAME, GEN, TDI, INH, ALIASED, FDFLT, FDREQ]


def keys_of(ty):
    out = []
    for f in ty.leaves():
        out.extend(k for k in f.keys if k not in out)
    return out


@harness("C06", "load", shards=[{"ty": x} for x in ALL + [TDOPT, FDOPT, FLAT2, FLATTD]], cover=["accepted", "refused"],
         bounds="every subset of the keys plus the names of the flattened fields, 1 arbitrary key; values: every scalar")
def load_flat(ctx, ty):
    names = [f.name for f in ty.fields if f.flat and f.name not in keys_of(ty)]
    keys = keys_of(ty) + (names[:1] if len(keys_of(ty)) < 5 else [])
    p = presence(ctx, "p", keys, lambda n, k: scalar(ctx, n, ("fin",)), extra=1 if len(keys) < 5 else 0,
                 extra_value=lambda n: None, orders=False)
    got = ctx.attempt(load, p, ty.hint)
    agree(ctx, got, lambda: ty.ref_load(p, S()), "load")


@harness("C06", "wellformed", shards=[{"ty": x} for x in ALL + [TDOPT, FDOPT, FLAT2, FLATTD]], cover=["accepted", "refused"],
         bounds="every subset of the keys with values of the right type, in both orders, 1 arbitrary key")
def wellformed(ctx, ty):
    tys = {}
    for f in ty.leaves():
        for k in f.keys:
            tys.setdefault(k, f.type)
    p = presence(ctx, "p", list(tys), lambda n, k: tys[k].gen(ctx, n), extra=1 if len(tys) < 7 else 0, extra_value=lambda n: 1, orders=len(tys) < 5)
    got = ctx.attempt(load, p, ty.hint)
    agree(ctx, got, lambda: ty.ref_load(p, S()), "load")


@harness("C06", "dump", shards=[{"ty": x, "sd": sd} for x in ALL + [OFF, FLAT1, FLATD] for sd in (True, False)], cover=["accepted"],
         bounds="every conforming value, defaults written or left out")
def dump_flat(ctx, ty, sd):
    v = ty.gen(ctx, "v")
    got = ctx.attempt(dump, v, ty.hint, settings=[SerializeDefaults(sd)])
    agree(ctx, got, lambda: ty.ref_dump(v, S(serialize_defaults=sd)), "dump")
    if got.ok:
        for k in got.value:
            ctx.check(disj(*[k == x for x in keys_of(ty)]) if ty is not OFF else True, "unexpected key", lambda: repr(got.value))
        again = ctx.attempt(load, got.value, ty.hint)
        ctx.check(again.ok, "what was dumped is refused", lambda: f"{v!r} -> {got.value!r}: {again.exc!r}")
        if again.ok:
            ctx.check(same(again.value, v), "round trip changed the value", lambda: f"{v!r} -> {got.value!r} -> {again.value!r}")


def merged(ty):
    """The class that declares all the fields itself (renamed where names clash)."""
    fs, used = [], set()
    for f in ty.leaves():
        name = f.name
        while name in used:
            name += "_"
        used.add(name)
        fs.append(dataclasses.replace(f, name=name, aliases=f.keys))
    return TDC(ty.name + "Merged", *fs)


MERGED = {ty.name: merged(ty) for ty in ALL}


def leaf_values(ty, x):
    out = []
    for f in ty.fields:
        v = x[f.name] if isinstance(x, dict) else getattr(x, f.name)
        if f.flat:
            out.extend(leaf_values(f.type, v))
        else:
            out.append(v)
    return out


@harness("C06", "merged", shards=[{"ty": x} for x in ALL], cover=["loaded", "refused"],
         bounds="every subset of the keys with arbitrary scalars")
def like_merged(ctx, ty):
    """The payload is that of the class which declares the fields directly."""
    m = MERGED[ty.name]
    keys = keys_of(ty)
    p = presence(ctx, "p", keys, lambda n, k: scalar(ctx, n, ("fin",)) if len(keys) < 5 else ctx.lazy(n, [("int", int, lambda: ctx.int(n)), ("str", str, lambda: ctx.str(n))]), orders=False)
    a = ctx.attempt(load, p, ty.hint)
    b = ctx.attempt(load, p, m.hint)
    ctx.check(a.ok == b.ok, "not accepted and refused like fields declared directly", lambda: f"{p!r}: {a!r}, {b!r}")
    if not a.ok:
        ctx.cover("refused")
        ctx.check(isinstance(a.exc, ConversionError), "refusal is not a conversion error", lambda: repr(a.exc))
        return
    if not b.ok:
        return
    ctx.cover("loaded")
    ctx.check(same(leaf_values(ty, a.value), leaf_values(m, b.value)), "fields filled differently", lambda: f"{p!r}: {a!r}, {b!r}")
    da, db = ctx.attempt(dump, a.value, ty.hint), ctx.attempt(dump, b.value, m.hint)
    ctx.check(da.ok and db.ok, "dump failed", lambda: f"{da!r} {db!r}")
    if da.ok and db.ok:
        ctx.check(same(da.value, db.value), "payload differs from fields declared directly", lambda: f"{da!r}, {db!r}")


# two fields that write the same key, at different distances and in both orders of declaration
IN_K = TDC("InK", F("k", INT), F("o", STR, default="o"))
IN_AL = TDC("InAl", F("q", INT, aliases=("k", "kk")))
IN_DEEP = TDC("InDeep", F("r", INT), F("d", IN_AL, flat=True))
CLASH = [
    TDC("Clash1", F("a", INT, aliases=("k",)), F("i", IN_K, flat=True)),
    TDC("Clash2", F("i", IN_K, flat=True), F("a", INT, aliases=("k",))),
    TDC("Clash3", F("i", IN_AL, flat=True), F("j", IN_K, flat=True)),
    TDC("Clash4", F("j", IN_K, flat=True), F("i", IN_AL, flat=True)),
    TDC("Clash5", F("k", INT), F("i", IN_DEEP, flat=True)),
    TDC("Clash6", F("i", IN_DEEP, flat=True), F("k", INT, default=3)),
    TDC("Clash7", F("x", IN_DEEP, flat=True), F("y", TDC("InDeep2", F("s", IN_K, flat=True)), flat=True)),
    TDC("Clash8", F("i", IN_K, flat=True), F("a", STR, aliases=("o",), default="x")),
]


@harness("C06", "clash", shards=[{"ty": x, "sd": sd} for x in CLASH for sd in (True, False) if sd or x is not CLASH[-1]], cover=["refused"],
         bounds="every value of classes in which two fields have the same key, defaults written or left out")
def clash(ctx, ty, sd):
    v = ty.gen(ctx, "v")
    got = ctx.attempt(dump, v, ty.hint, settings=[SerializeDefaults(sd)])
    if got.ok:
        # only possible if one of them was left out, and then it must be read back like that
        ctx.check(not sd, "two fields wrote the same key", lambda: f"{v!r} -> {got.value!r}")
        again = ctx.attempt(load, got.value, ty.hint, observe=False)
        ctx.check(again.ok and same(again.value, v), "a field was lost", lambda: f"{v!r} -> {got.value!r} -> {again!r}")
    else:
        ctx.cover("refused")
        ctx.check(isinstance(got.exc, ConversionError), "refusal is not a conversion error", lambda: repr(got.exc))


SEEN = []


class Spy(Converter):
    """Declines, but remembers what it was offered."""

    def convert(self, ctx):
        SEEN.append((ctx.key, ctx.value))
        raise NotImplementedError


SPYL = TDC("SpyL", F("u", INT), F("w", STR, aliases=("v", "w"), default="w"))
SPYM = TDC("SpyM", F("p", INT), F("leaf", SPYL, flat=True, extra=(JsonConverter(Spy()),)))
SPY1 = TDC("Spy1", F("a", INT), F("i", SPYL, flat=True, extra=(JsonConverter(Spy()),)), F("b", INT, default=0))
SPY2 = TDC("Spy2", F("a", INT), F("mid", SPYM, flat=True, extra=(JsonConverter(Spy()),)))
SPY3 = TDC("Spy3", F("i", SPYL, flat=True, extra=(JsonConverter(Spy()),)), F("rest", TDict(STR, INT), remainder=True))


@harness("C06", "own_keys", shards=[{"ty": x, "extra": e} for x in (SPY1, SPY2, SPY3) for e in (True, False)], cover=["loaded"],
         bounds="well-formed payloads with every subset of the optional keys and up to 2 arbitrary keys")
def own_keys(ctx, ty, extra):
    """Exactly the keys of the flattened type reach it; the keys are not unknown keys of the parent."""
    tys = {}
    for f in ty.leaves():
        for k in f.keys:
            tys[k] = f.type
    calls = []
    req = [f.keys[0] for f in ty.leaves() if f.is_required()]
    more = [k for k in tys if k not in req and (k != "w" or extra and ty is not SPY3) and ctx.flag("has." + k)]
    xs = [ctx.str(f"x{i}") for i in range(ctx.pick("n", 3) if extra else 0)]
    ctx.distinct(list(tys) + xs)
    v = {k: tys[k].gen(ctx, "v." + k) for k in req + more}
    p = ctx.mkdict([(k, ctx.int("xv." + str(i))) for i, k in enumerate(xs)] + list(v.items()))
    del SEEN[:]
    got = ctx.attempt(load, p, ty.hint, settings=[ExtraKeys(True, lambda c, ks: calls.append((c.key, ks)))] if extra else None)
    ctx.check(got.ok, "refused", lambda: repr(got.exc))
    ctx.cover("loaded")
    want = {"i": ["u", "v"], "leaf": ["u", "v"], "mid": ["p", "u", "v"]}
    if "v" not in v:
        want = {"i": ["u", "w"], "leaf": ["u", "w"], "mid": ["p", "u", "w"]}
    spied = [f.name for f in ty.fields if f.flat] + (["leaf"] if ty is SPY2 else [])
    ctx.check([k for k, _ in SEEN] == spied, "flattened fields are not converted once each", lambda: repr(SEEN))
    for key, val in SEEN:
        exp = {k: v[k] for k in want[key] if k in v}
        ctx.check(same(val, exp), "a flattened field got other keys than its own", lambda: f"{key}: {val!r} instead of {exp!r}")
    unread = ["w"] if "v" in v and "w" in v else []
    if ty is SPY3:
        ctx.check(not calls, "unknown keys reported despite the remainder", lambda: repr(calls))
    else:
        n = len(xs) + len(unread)
        if not extra:
            return
        ctx.check(len(calls) == (1 if n else 0), "recorder calls", lambda: repr(calls))
        if n and calls:
            ctx.check(len(calls[0][1]) == n and conj(*[k in calls[0][1] for k in xs + unread]), "wrong unknown keys", lambda: repr(calls))
