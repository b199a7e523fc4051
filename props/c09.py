"""Discriminated unions select the member by its ID in every style."""

import abc

from databind.json import dump, load
from typeapi import TypeHint
from databind.core.union import ChainUnionMembers, StaticUnionMembers
from props.zoo import *
from symex.harness import harness

STYLES = [("nested", "type", None), ("nested", "kind", None), ("nested", "uses", "with"), ("flat", "type", None), ("flat", "kind", None), ("keyed", "type", None)]
M3 = [("xy", XY), ("d", DEF2), ("pq", PQ)]
CLS = [TTagged(s, M, d, n) for s, d, n in STYLES]
THREE = [TTagged(s, M3, d, n) for s, d, n in STYLES]
SCAL = [("int", INT), ("str", STR), ("flag", BOOL)]
PLAINM = [TTagged(s, SCAL, d, n) for s, d, n in STYLES]
TWICE = [TTagged(s, [("xy", XY), ("again", XY), ("pq", PQ)]) for s in ("nested", "flat", "keyed")]  # two IDs of one type
HAS_T = TDC("HasType", F("type", STR), F("v", INT))  # a field named like the discriminator
HAS_TA = TDC("HasTypeAlias", F("x", INT, aliases=("type",)))
HAS_N = TDC("HasName", F("xy", INT), F("type", INT, default=0))
FIELDS = [TTagged(s, [("t", HAS_T), ("ta", HAS_TA), ("xy", HAS_N)], d, n) for s, d, n in STYLES]
# IDs named like the keys of the union
NAMES = [TTagged(s, [("type", XY), ("with", PQ)], d, n) for s, d, n in (("nested", "type", None), ("nested", "type", "with"), ("nested", "with", "type"), ("flat", "type", None), ("keyed", "type", None))]
REMM = [TTagged(s, [("r", REM), ("a", ALI)]) for s in ("nested", "flat", "keyed")]
# members that can be made from next to nothing
class Anything:
    pass


def easy(style, members, *names):
    u = Union({n: m.hint for n, m in members}, style, *names)
    return TTagged(style, members, *names, hint=t.Annotated[Anything, u])


NOTHING = TDC("NoFields")
EASY = [easy(s, [("e", NOTHING), ("d", DEF2), ("o", TOpt(INT)), ("any", ANY), ("m", TDict(STR, INT, width=1))], *n)
        for s, n in (("nested", ()), ("nested", ("uses", "with")), ("keyed", ()))]
EASY += [easy("flat", [("e", NOTHING), ("d", DEF2), ("m", TDict(STR, INT, width=1))])]
INNER_U = TTagged("flat", M)
NEST_U = [TTagged(s, [("in", TDC("HasU", F("u", INNER_U))), ("pq", PQ)]) for s in ("nested", "flat", "keyed")]


# -- a decorated base class


def decorated(style, disc="type", nest=None, of="abc"):
    kw = {"style": style, "discriminator_key": disc}
    if nest:
        kw["nesting_key"] = nest

    if of == "abc":
        class Base(abc.ABC):
            pass
    elif of == "plain":
        @dataclasses.dataclass(kw_only=True)
        class Base:
            x: int = 5
            y: t.Optional[str] = None
    else:
        @dataclasses.dataclass(kw_only=True)
        class Base(abc.ABC):
            x: int = 5

            @abc.abstractmethod
            def method(self):
                pass

    Union(**kw)(Base)
    if of != "abc":
        @dataclasses.dataclass(kw_only=True)
        class BaseA(Base):
            y: t.Optional[str]

            def method(self):
                pass

        @dataclasses.dataclass(kw_only=True)
        class BaseB(Base):
            def method(self):
                pass

        Union.register(Base, "a")(BaseA)
        Union.register(Base)(BaseB)
        y = (F("y", TOpt(STR), default=None),) if of == "plain" else ()
        a = TDC("BaseA", F("x", INT, default=5), F("y", TOpt(STR), default=None) if y else F("y", TOpt(STR)), cls=BaseA)
        b = TDC("BaseB", F("x", INT, default=5), *y, cls=BaseB)
        return TTagged(style, [("a", a), ("BaseB", b)], disc, nest, hint=Base)

    a = TDC("DecoA", F("x", INT), F("y", TOpt(STR)), bases=(Base,))
    b = TDC("DecoB", F("p", STR, default="p"), bases=(Base,))
    c = TDC("DecoC", F("x", INT), F("y", TOpt(STR)), F("z", BOOL, default=False), cls=dataclasses.make_dataclass("DecoC", [("z", bool, False)], bases=(a.cls,), module=MOD, kw_only=True))
    Union.register(Base, "a")(a.cls)
    Union.register(Base)(b.cls)
    Union.register(Base, "c")(c.cls)
    return TTagged(style, [("a", a), ("DecoB", b), ("c", c)], disc, nest, hint=Base)


DECO = [decorated(s, d, n) for s, d, n in STYLES] + [decorated(s, d, n, of) for s, d, n in STYLES for of in ("plain", "abstract")]
HOLD = [TSeq(DECO[0], width=1), TSeq(DECO[6], width=1), TOpt(DECO[3]), TDict(STR, DECO[5], width=1), TDC("HoldD", F("u", DECO[3], aliases=("uu",)), F("k", TOpt(INT)))]


# -- members given as functions, chained, type hints


def later(m):
    return lambda: m.hint


def given(style, members):
    return t.Annotated[t.Union[XY.cls, PQ.cls, Box], Union(members, style)]


class Unrelated:
    pass


BOXI = TBox(INT, 1)
HINTS = {
    "lazy": lambda s: TTagged(s, M, hint=given(s, {n: later(m) for n, m in M})),
    "alias": lambda s: TTagged(s, [("box", BOXI), ("pq", PQ)], hint=given(s, {"box": TypeHint(Box[int]), "pq": lambda: PQ.cls})),
    "chain": lambda s: TTagged(s, M, hint=given(s, [StaticUnionMembers({"xy": XY.cls}), {"pq": PQ.cls}])),
    "chain2": lambda s: TTagged(s, [("xy", XY), ("pq", PQ)], hint=given(s, [{"xy": XY.cls}, ChainUnionMembers(StaticUnionMembers({"xy": Unrelated, "pq": PQ.cls}))])),
    "static": lambda s: TTagged(s, M, hint=given(s, StaticUnionMembers(dict((n, m.hint) for n, m in M)))),
    "cls": lambda s: TTagged(s, M, hint=t.Annotated[Unrelated, Union({n: m.hint for n, m in M}, s)]),
}
GIVEN = [HINTS[k](s) for k in HINTS for s in ("nested", "flat", "keyed")]


def body(ctx, m, name):
    """Something for the member: a well-formed payload, or one with a missing or additional key, or a scalar."""
    how = ctx.pick(name + ".how", 4)
    if how == 3:
        return scalar(ctx, name + ".s", ("fin",))
    try:
        d = m.ref_dump(m.gen(ctx, name + ".v"), S())
    except Bad:
        ctx.cut("no such value")
    if how == 0 or not isinstance(d, dict):
        return d
    if how == 1:
        keys = list(d)
        gone = keys[ctx.pick(name + ".del", len(keys))] if keys else None
        return ctx.mkdict([(k, d[k]) for k in keys if k is not gone])
    d = dict(d)
    return ctx.mkdict(list(d.items()) + [(xkey(ctx, name + ".x", list(d)), 1)])


def xkey(ctx, name, known):
    k = ctx.str(name)
    ctx.distinct([k] + known)
    return k


def payload_of(ctx, ty):
    i = ctx.pick("member", len(ty.members))
    mid, m = ty.members[i]
    shape = ctx.pick("shape", 6)
    b = body(ctx, m, "b")
    if shape == 5:
        return b
    if ty.style == "keyed":
        if shape == 0:
            return {mid: b}
        if shape == 1:
            return ctx.mkdict([(ctx.str("id"), b)])
        if shape == 2:
            return ctx.mkdict([(mid, b), (xkey(ctx, "other", [mid]), b)])
        if shape == 3:
            return {}
        return ctx.mkdict([(ty.disc, mid), (mid, b)]) if ty.disc != mid else {}
    tag = mid if shape == 0 else ctx.str("id") if shape in (1, 4) else scalar(ctx, "tag", ("fin",)) if shape == 2 else None
    entries = [] if shape == 3 else [(ty.disc, tag)]
    if ty.style == "nested":
        key = (ty.nest or mid) if shape != 4 else ctx.str("nest")
        if shape == 4:
            ctx.distinct([key, ty.disc])
        if key == ty.disc:
            return dict(entries)
        return ctx.mkdict([(key, b)] + entries + ([(xkey(ctx, "other", [key, ty.disc]), 1)] if shape == 1 else []))
    if not isinstance(b, dict) or ty.disc in b:
        return dict(entries)
    for k in b:
        ctx.assume(neg(k == ty.disc))
    rest = list(b.items())
    return ctx.mkdict(rest + entries) if shape != 4 else ctx.mkdict(entries + rest)


@harness("C09", "load", shards=[{"ty": x} for x in CLS + PLAINM + TWICE + FIELDS + NAMES + REMM + DECO + GIVEN + EASY], cover=["accepted", "refused"],
         thorough=[{"ty": x} for x in CLS + THREE + PLAINM + TWICE + FIELDS + NAMES + REMM + DECO + GIVEN + EASY + NEST_U],
         bounds="payloads of each style with arbitrary IDs, discriminators of every kind, missing and additional keys")
def load_union(ctx, ty):
    p = payload_of(ctx, ty)
    got = ctx.attempt(load, p, ty.hint)
    agree(ctx, got, lambda: ty.ref_load(p, S()), "load")
    if got.ok and type(ty.members) is list:
        ctx.check(disj(*[isinstance(got.value, pytype(m)) if isinstance(m, TDC) else True for _, m in ty.members]), "result is of no member type", lambda: repr(got.value))


DUMPS = CLS + THREE + PLAINM + TWICE + FIELDS + NAMES + REMM + DECO + HOLD + GIVEN + NEST_U


@harness("C09", "dump", shards=[{"ty": x} for x in DUMPS], cover=["accepted"],
         bounds="every value of every member, and 25 kinds of values that are of no member type")
def dump_union(ctx, ty):
    v = Wild(ty).gen(ctx, "v")
    got = ctx.attempt(dump, v, ty.hint)
    agree(ctx, got, lambda: ty.ref_dump(v, S()), "dump")
    if got.ok and isinstance(ty, TTagged) and ty not in FIELDS and ty not in REMM:
        again = ctx.attempt(load, got.value, ty.hint, observe=False)
        ctx.check(again.ok and same(again.value, v), "round trip changed the value", lambda: f"{v!r} -> {got.value!r} -> {again!r}")


@dataclasses.dataclass
class XYSub(XY.cls):
    pass


class FakeT:
    def __init__(self):
        self.x, self.y = 1, "y"


@harness("C09", "non_members", shards=[{"ty": x} for x in CLS + DECO + GIVEN], cover=["refused"], bounds="instances of subclasses and look-alikes of the members, the members themselves")
def non_members(ctx, ty):
    x, y = ctx.int("x"), ctx.str("y")
    if ty in DECO:
        sub = dataclasses.make_dataclass("SubA", [], bases=(pytype(ty.members[0][1]),))
        base = ty.hint if dataclasses.is_dataclass(ty.hint) and not getattr(ty.hint, "__abstractmethods__", None) else None
        v = [lambda: sub(x=x, y=y), lambda: ty.hint, lambda: pytype(ty.members[0][1]), FakeT, lambda: base() if base else None][ctx.pick("which", 5)]()
    else:
        v = [lambda: XYSub(x=x, y=y), lambda: XY.cls, FakeT, lambda: {"x": x, "y": y}][ctx.pick("which", 4)]()
    got = ctx.attempt(dump, v, ty.hint)
    ctx.cover("refused")
    ctx.check(not got.ok and isinstance(got.exc, ConversionError), "dumped a value of no member type", lambda: repr(got))


@harness("C09", "holders", shards=[{"ty": x} for x in HOLD], cover=["loaded"], bounds="unions in lists, options, mappings and fields")
def holders(ctx, ty):
    v = ty.gen(ctx, "v")
    p = ty.ref_dump(v, S())
    got = ctx.attempt(load, p, ty.hint)
    ctx.cover("loaded")
    ctx.check(got.ok and same(got.value, v), "load", lambda: f"{p!r} -> {got!r}")
