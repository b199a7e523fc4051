"""Unknown keys are refused unless allowed exactly where they occur."""

from databind.core import ConversionError, Priority, Settings
from databind.json import get_object_mapper, load
from props.zoo import *
from symex.ctx import enum_int
from symex.harness import harness


def path_of(c):
    out = []
    while c is not None:
        if c.parent is not None and c.key is not None:
            out.append(c.key)
        c = c.parent
    out.reverse()
    return out


class Places:
    """The settings put at each place (in order of precedence) with symbolic priority and direction."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.calls = []

    def recorder(self, name):
        return lambda c, keys: self.calls.append((name, path_of(c), keys))

    def arm(self, name, inst=None, record=True):
        """An ExtraKeys with arbitrary priority and direction (an existing class setting is modified)."""
        prio = enum_int(self.ctx, name + ".prio", Priority)
        allow = self.ctx.flag(name + ".allow")
        if inst is None:
            inst = ExtraKeys(allow)
        inst.allow, inst.priority = allow, prio
        inst.recorder = self.recorder(name) if record else None
        inst.name = name if record else None
        return inst

    @staticmethod
    def effective(places):
        best = None
        for p in places:
            if p is not None and (best is None or p.priority > best.priority):
                best = p
        return best


K_CLS = ExtraKeys()
K_IN = ExtraKeys()
K_BASE = ExtraKeys()


@dataclasses.dataclass
class Plain:
    a: int
    b: str = "b"


@K_CLS
@dataclasses.dataclass
class Deco:
    a: int
    b: str = "b"


@dataclasses.dataclass
class Sub(Deco):
    """The setting of the base class does not apply to it."""


@K_IN
@dataclasses.dataclass
class In:
    x: int


@dataclasses.dataclass
class InPlain:
    x: int


def settle(ctx, P, got, expected, calls, what="load"):
    """expected: refused?, list of (place, path, unknown keys) of the recorder calls when accepted."""
    if expected is None:
        ctx.cover("refused")
        ctx.check(not got.ok, f"{what}: accepted unknown keys that are not allowed", lambda: repr(got))
        ctx.check(isinstance(got.exc, ConversionError), f"{what}: refusal is not a conversion error", lambda: repr(got.exc))
        return
    ctx.cover("accepted")
    ctx.check(got.ok, f"{what}: refused allowed unknown keys", lambda: repr(got.exc))
    if not got.ok:
        return
    ctx.check(same(got.value, expected), f"{what}: unknown keys changed the result", lambda: f"{got.value!r} instead of {expected!r}")
    ctx.check(len(P.calls) == len(calls), f"{what}: wrong number of recorder calls", lambda: f"{P.calls!r} instead of {calls!r}")
    left = list(P.calls)
    for name, path, keys in calls:
        for i, (n, p, ks) in enumerate(left):
            if n == name and p == path:
                ctx.check(len(ks) == len(keys), f"{what}: recorder got the wrong keys", lambda: f"{ks!r} instead of {keys!r}")
                ctx.check(conj(*[k in ks for k in keys]), f"{what}: recorder got the wrong keys", lambda: f"{ks!r} instead of {keys!r}")
                ctx.cover("recorded")
                del left[i]
                break
        else:
            ctx.check(False, f"{what}: recorder not called for an object", lambda: f"{name} {path}")


def unknown(ctx, name, known, n):
    keys = [ctx.str(f"{name}.u{i}") for i in range(ctx.pick(name + ".n", n + 1))]
    ctx.distinct(list(known) + keys)
    return keys


@harness("C04", "one_object", cover=["accepted", "refused", "recorded"],
         shards=[{"cls": c, "place": p} for c in (Plain, Deco, Sub) for p in ("none", "annotation", "local", "conditional", "global", "call", "two", "all")],
         bounds="1 object with up to 2 unknown keys; one setting per place, arbitrary priorities and directions")
def one_object(ctx, cls, place):
    P = Places(ctx)
    st = Settings()
    hint = cls
    ann = P.arm("annotation") if place in ("annotation", "all", "two") else None
    if ann is not None:
        hint = t.Annotated[cls, "text", ann]
    klass = P.arm("class", K_CLS) if cls is Deco else None
    if cls is not Deco:
        K_CLS.allow, K_CLS.priority, K_CLS.recorder, K_CLS.name = True, Priority.HIGH, P.recorder("base"), "base"
    loc = P.arm("local") if place in ("local", "all") else None
    if loc is not None:
        st.add_local(cls, loc)
    st.add_local(In, ExtraKeys(priority=Priority.ULTIMATE))  # of another type
    cond = P.arm("conditional") if place in ("conditional", "two") else None
    if cond is not None:
        st.add_conditional(lambda c: c.datatype is not None and c.key is c.ROOT, cond)
    st.add_conditional(lambda c: c.key is not c.ROOT, ExtraKeys(priority=Priority.ULTIMATE))
    glob = P.arm("global", record=False) if place in ("global", "all") else None
    if glob is not None:
        st.add_global(glob)
    call = P.arm("call") if place in ("call", "two") else None
    xs = unknown(ctx, "p", ("a", "b"), 2)
    entries = [("a", ctx.int("a"))] + [(k, scalar(ctx, f"v{i}", ("fin",))) for i, k in enumerate(xs)]
    m = get_object_mapper(st)
    got = ctx.attempt(m.deserialize, ctx.mkdict(entries), hint, settings=[call] if call is not None else None)
    # settings of a call stand before those of the mapper (type-local and conditional ones included), which are its parent
    own = P.effective([loc, cond, glob])
    eff = P.effective([ann, klass, call, own] if call is not None else [ann, klass, own])
    want = cls(entries[0][1])
    if xs and (eff is None or not eff.allow):
        want = None
    settle(ctx, P, got, want, [(eff.name, [], xs)] if xs and eff is not None and eff.name else [])


OUT = {
    (ic, ann): dataclasses.make_dataclass(
        "Out", [("i", t.Annotated[ic, K_ANN] if ann else ic), ("l", t.List[ic], dataclasses.field(default_factory=list))], module=MOD
    )
    for ic in (In, InPlain)
    for ann, K_ANN in ((False, None), (True, ExtraKeys()))
}
OUT_ANN = {ic: t.get_type_hints(OUT[ic, True], include_extras=True)["i"].__metadata__[0] for ic in (In, InPlain)}


@harness("C04", "nested", cover=["accepted", "refused", "recorded"],
         shards=[{"ic": c, "ann": a, "place": p} for c in (In, InPlain) for a in (False, True) for p in ("root", "local", "global", "conditional")],
         bounds="an object holding one object and a list of up to 1, each with up to 1 unknown key")
def nested(ctx, ic, ann, place):
    """Allowing them for one object does not carry over to the objects inside; a global setting does."""
    P = Places(ctx)
    st = Settings()
    out = OUT[ic, ann]
    klass = P.arm("class", K_IN) if ic is In else None
    fa = P.arm("field", OUT_ANN[ic]) if ann else None
    x = P.arm("x")
    hint = t.Annotated[out, x] if place == "root" else out
    if place == "local":
        st.add_local(out, x)
    elif place == "global":
        st.add_global(x)
    elif place == "conditional":
        st.add_conditional(lambda c: c.key == 0, x)
    known = {"o": ("i", "l"), "i": ("x",), "e": ("x",)}
    n = ctx.pick("n", 2)
    xs = {}
    for w in ("o", "i", "e"):
        xs[w] = [ctx.str(f"{w}.u")] if (w != "e" or n) and ctx.flag(f"{w}.has") else []
        ctx.distinct(list(known[w]) + xs[w])
    v = {w: ctx.int(w) for w in ("i", "e")}
    ie = ctx.mkdict([("x", v["i"])] + [(k, None) for k in xs["i"]])
    ee = ctx.mkdict([(k, 1) for k in xs["e"]] + [("x", v["e"])])
    p = ctx.mkdict([("i", ie), ("l", [ee] * n)] + [(k, "u") for k in xs["o"]])
    got = ctx.attempt(get_object_mapper(st).deserialize, p, hint)
    g = x if place == "global" else None
    eff = {
        "o": x if place != "conditional" else None,
        "i": P.effective([fa, klass, g]),
        "e": P.effective([klass, x if place == "conditional" else None, g]),
    }
    paths = {"o": [], "i": ["i"], "e": ["l", 0]}
    want = out(ic(v["i"]), [ic(v["e"])] * n)
    calls = []
    for w in ("i", "e", "o"):
        if xs[w]:
            if eff[w] is None or not eff[w].allow:
                want = None
            else:
                calls.append((eff[w].name, paths[w], xs[w]))
    settle(ctx, P, got, want, calls)


UBASE = ExtraKeys()
UANN = ExtraKeys()
UNIONS = {
    style: t.Annotated[t.Union[Plain, Deco], Union({"plain": Plain, "deco": Deco}, style)] for style in ("flat", "nested", "keyed")
}


@harness("C04", "union", cover=["accepted", "refused", "recorded"],
         shards=[{"style": s, "mid": m, "place": p} for s in UNIONS for m in ("plain", "deco") for p in ("none", "local", "global")],
         bounds="tagged unions of 2 members, up to 1 unknown key in the member")
def union(ctx, style, mid, place):
    """The discriminator is no unknown key; the member's own settings decide about the others."""
    P = Places(ctx)
    st = Settings()
    klass = P.arm("class", K_CLS) if mid == "deco" else None
    x = P.arm("x") if place != "none" else None
    cls = Deco if mid == "deco" else Plain
    if place == "local":
        st.add_local(cls, x)
    elif place == "global":
        st.add_global(x)
    xs = unknown(ctx, "p", ("a", "b", "type"), 1)
    a = ctx.int("a")
    body = [("a", a)] + [(k, "u") for k in xs]
    if style == "flat":
        p = ctx.mkdict([("type", mid)] + body)
        path = []
    elif style == "nested":
        p = ctx.mkdict([("type", mid), (mid, ctx.mkdict(body))])
        path = [mid]
    else:
        p = ctx.mkdict([(mid, ctx.mkdict(body))])
        path = [mid]
    got = ctx.attempt(get_object_mapper(st).deserialize, p, UNIONS[style])
    eff = P.effective([klass, x])
    want = cls(a)
    if xs and (eff is None or not eff.allow):
        want = None
    settle(ctx, P, got, want, [(eff.name, path, xs)] if xs and eff is not None else [])


@harness("C04", "kinds", cover=["accepted", "refused"],
         shards=[{"ty": x, "allow": a} for x in (TD, NT, FLAT1, FLAT2, FLATD, DEF2, TBox(INT), FLATTD, TNode(1)) for a in (None, True, False)],
         bounds="well-formed payloads of every kind of object with up to 2 unknown keys at the top")
def kinds(ctx, ty, allow):
    leaves = ty.leaves()
    known = []
    for f in leaves:
        known.extend(f.keys)
    xs = unknown(ctx, "p", known, 2)
    body = [(f.keys[0], None) for f in leaves]
    v = ty.gen(ctx, "v")
    d = ty.ref_dump(v, S())
    p = ctx.mkdict([(k, 1) for k in xs] + [(k, d[k]) for k in d])
    calls = []
    st = [] if allow is None else [ExtraKeys(allow, lambda c, ks: calls.append((path_of(c), ks)))]
    got = ctx.attempt(load, p, ty.hint, settings=st)
    if xs and not allow:
        ctx.cover("refused")
        ctx.check(not got.ok and isinstance(got.exc, ConversionError), "unknown keys accepted", lambda: repr(got))
        return
    ctx.cover("accepted")
    ctx.check(got.ok, "refused", lambda: repr(got.exc))
    if got.ok:
        ctx.check(same(got.value, v), "unknown keys changed the result", lambda: f"{got.value!r} instead of {v!r}")
        ctx.check(len(calls) == (1 if xs else 0), "wrong number of recorder calls", lambda: repr(calls))
        if xs and calls:
            ctx.check(calls[0][0] == [], "wrong position", lambda: repr(calls))
            ctx.check(len(calls[0][1]) == len(xs) and conj(*[k in calls[0][1] for k in xs]), "recorder got the wrong keys", lambda: repr(calls))


LONGA = TDC("LongA", F("x", ANY, aliases=("k1", "k2", "x")), F("y", INT, aliases=("z", "yy"), default=2), F("w", TOpt(INT)))
TDA = TTypedDict("TDA", F("n", STR, aliases=("n1", "n2")), F("k", INT), optional=("k",))


@harness("C04", "leftover", cover=["accepted", "refused", "recorded"],
         shards=[{"ty": x, "allow": a} for x in (LONGA, ALI, FLAT2, FLATD, TDA, FLATTD) for a in (None, True)],
         bounds="every subset of the aliases and names of the fields (all but the first alias of a field that is there are unknown keys)")
def leftover(ctx, ty, allow):
    """Of several aliases of a field in the payload only one is read, the others are unknown keys."""
    leaves = ty.leaves()
    names = []
    for f in leaves:
        names.extend(k for k in tuple(f.keys) + (f.name,) if k not in names)
    have = [k for k in names if ctx.flag("has." + k)]
    if ctx.flag("reversed"):
        have.reverse()
    owner = {k: f for f in leaves for k in f.keys}
    p = {k: owner[k].type.gen(ctx, "v." + k) if k in owner and not isinstance(owner[k].type, TSeq) else "v" for k in have}
    read = [k for k in [next((k for k in f.keys if k in have), None) for f in leaves] if k is not None]
    complete = all([any([k in have for k in f.keys]) or not f.is_required() for f in leaves if f.name not in getattr(ty, "optional", ())])
    xs = [k for k in have if k not in read]
    calls = []
    got = ctx.attempt(load, p, ty.hint, settings=[ExtraKeys(True, lambda c, ks: calls.append((path_of(c), ks)))] if allow else None)
    if not complete or xs and not allow:
        ctx.cover("refused")
        ctx.check(not got.ok and isinstance(got.exc, ConversionError), "an entry of the payload that no field reads was dropped silently", lambda: f"{p!r} -> {got!r}")
        return
    ctx.cover("accepted")
    agree(ctx, got, lambda: ty.ref_load({k: p[k] for k in read}, S()), "load")
    if got.ok:
        ctx.check(len(calls) == (1 if xs else 0), "wrong number of recorder calls", lambda: repr(calls))
        if xs and calls:
            ctx.cover("recorded")
            ctx.check(calls[0][0] == [] and len(calls[0][1]) == len(xs) and conj(*[k in calls[0][1] for k in xs]), "recorder got the wrong keys", lambda: repr(calls))
