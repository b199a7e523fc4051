"""Fields of class hierarchies and generics resolve like the language does."""

from databind.core.schema import convert_to_schema
from databind.json import dump, load
from typeapi import TypeHint
from props.mods import first, second
from props.zoo import *
from symex.harness import harness

dc = dataclasses.dataclass
field = dataclasses.field
A, B, C, K = t.TypeVar("A"), t.TypeVar("B"), t.TypeVar("C"), t.TypeVar("K")

# -- hand-written hierarchies


@dc
class Gr:
    a: int
    b: str = "b"


@dc
class Pa(Gr):
    b: t.Optional[str] = None
    c: t.List[int] = field(default_factory=list)


@dc
class Ch(Pa):
    a: float = 1.5
    d: bool = False


@dc
class Keep(Gr):
    """Has no fields of its own."""


class Undeco(Pa):
    """Not decorated."""

    z: int = 3


@dc
class AfterUndeco(Undeco):
    e: int = 4


class Mix:
    """No dataclass."""

    m: int = 1


@dc
class WithMix(Mix, Gr):
    n: int = 2


@dc
class L:
    x: int
    y: int = 0


@dc
class R:
    x: str
    y: str = "r"


@dc
class LR(L, R):
    z: int = 1


@dc
class RL(R, L):
    y: t.Optional[int] = None


@dc
class Root:
    x: int = 1
    y: int = 1


@dc
class D1(Root):
    x: str = "d1"


@dc
class D2(Root):
    x: bool = True
    y: str = "d2"


@dc
class Dia(D1, D2):
    pass


@dc
class Dia2(D2, D1):
    w: t.Optional[str] = None


@dc
class Same1(Root):
    pass


@dc
class DiaSame(Same1, D2):
    pass


@dc
class Inits:
    a: int
    hidden: int = field(default=5, init=False)
    made: t.List[int] = field(default_factory=list, init=False)
    const: t.ClassVar[int] = 7
    b: str = "b"


@dc
class SubInits(Inits):
    a: int = field(default=3, init=False)
    c: int = 1


@dc
class SubInits2(Inits):
    hidden: int = 9


@dc(frozen=True)
class Fr:
    a: int
    b: t.Optional[str] = None


@dc(frozen=True)
class SubFr(Fr):
    c: t.List[Fr] = field(default_factory=list)


@dc
class Sl:
    __slots__ = ("a", "b")
    a: int
    b: str


@dc(kw_only=True)
class Kw:
    a: int = 1
    b: str


@dc
class SubKw(Kw):
    c: int


@dc
class G1(t.Generic[A]):
    x: A
    l: t.List[A] = field(default_factory=list)


@dc
class G2(G1[t.List[B]], t.Generic[B]):
    y: t.Optional[B] = None


@dc
class G3(G2[int]):
    z: str = "z"


@dc
class SameVar(G1[int], t.Generic[A]):
    """The same variable with another meaning."""

    w: t.Optional[A] = None


@dc
class Pair(t.Generic[A, B]):
    p: A
    q: B


@dc
class Swap(Pair[B, A], t.Generic[A, B]):
    r: t.Optional[A] = None


@dc
class Half(Pair[str, C], t.Generic[C]):
    h: t.Optional[C] = None


@dc
class Both(G1[int], Pair[str, bool]):
    o: int = 0


@dc
class BothSame(G1[A], Pair[A, t.List[A]], t.Generic[A]):
    pass


@dc
class OverGen(G1[int]):
    x: str
    n: int = 0


@dc
class Inner(t.Generic[A]):
    box: G1[A]
    boxes: t.List[G1[A]] = field(default_factory=list)
    pair: t.Optional[Pair[str, A]] = None


@dc
class Anno(t.Generic[A]):
    v: t.Annotated[A, Alias("vv", "v")]
    o: t.Annotated[t.Optional[A], Alias("oo")] = None
    u: t.Union[A, t.List[A], None] = None
    d: t.Dict[str, A] = field(default_factory=dict)
    tu: t.Optional[t.Tuple[A, int]] = None


@dc
class Tree(t.Generic[A]):
    v: A
    kids: "t.List[Tree[A]]" = field(default_factory=list)


@dc
class IntTree(Tree[int]):
    n: int = 0


@dc
class Fl(t.Generic[A]):
    k: int
    inner: t.Annotated[Pair[A, str], Flattened()]


@dc
class Abs(t.Generic[A]):
    a: A


@dc
class Mid1(Abs[A]):
    """No explicit Generic[...]."""

    m: t.Optional[A] = None


@dc
class Leaf1(Mid1[str]):
    pass


@dc
class New[X]:
    """With the syntax of Python 3.12."""

    a: X
    b: list[X] = field(default_factory=list)


@dc
class SubNew[Y](New[list[Y]]):
    c: Y | None = None


OPT_ = lambda x: t.Optional[x]  # noqa: E731
NO = NODEF


def flat(name, *specs):
    """A flat class: (name, type[, default or factory])."""
    out = []
    for s in specs:
        if len(s) == 2:
            out.append((s[0], s[1], field()))
        elif callable(s[2]):
            out.append((s[0], s[1], field(default_factory=s[2])))
        else:
            out.append((s[0], s[1], field(default=s[2])))
    return dataclasses.make_dataclass(name + "Flat", out, module=MOD, kw_only=True)


I1, I2 = first.Item, second.Item
G1i = flat("G1i", ("x", int), ("l", t.List[int], list))
G1x = flat("G1x", ("x", XY.cls), ("l", t.List[XY.cls], list))
PairSI = flat("PairSI", ("p", str), ("q", int))
TreeI = None
LI = t.List[int]

# hint -> (flat class, names of the fields that are not constructor arguments)
CASES = {
    "Pa": (Pa, flat("Pa", ("a", int), ("b", OPT_(str), None), ("c", LI, list))),
    "Ch": (Ch, flat("Ch", ("a", float, 1.5), ("b", OPT_(str), None), ("c", LI, list), ("d", bool, False))),
    "Keep": (Keep, flat("Keep", ("a", int), ("b", str, "b"))),
    "Undeco": (Undeco, flat("Undeco", ("a", int), ("b", OPT_(str), None), ("c", LI, list))),
    "AfterUndeco": (AfterUndeco, flat("AfterUndeco", ("a", int), ("b", OPT_(str), None), ("c", LI, list), ("e", int, 4))),
    "WithMix": (WithMix, flat("WithMix", ("a", int), ("b", str, "b"), ("n", int, 2))),
    "LR": (LR, flat("LR", ("x", int), ("y", int, 0), ("z", int, 1))),
    "RL": (RL, flat("RL", ("x", str), ("y", OPT_(int), None))),
    "Dia": (Dia, flat("Dia", ("x", str, "d1"), ("y", int, 1))),
    "Dia2": (Dia2, flat("Dia2", ("x", bool, True), ("y", str, "d2"), ("w", OPT_(str), None))),
    "DiaSame": (DiaSame, flat("DiaSame", ("x", int, 1), ("y", int, 1))),
    "Inits": (Inits, flat("Inits", ("a", int), ("b", str, "b"))),
    "SubInits": (SubInits, flat("SubInits", ("b", str, "b"), ("c", int, 1))),
    "SubInits2": (SubInits2, flat("SubInits2", ("a", int), ("b", str, "b"), ("hidden", int, 9))),
    "SubFr": (SubFr, flat("SubFr", ("a", int), ("b", OPT_(str), None), ("c", t.List[flat("Fr", ("a", int), ("b", OPT_(str), None))], list))),
    "Sl": (Sl, flat("Sl", ("a", int), ("b", str))),
    "Kw": (Kw, flat("Kw", ("a", int, 1), ("b", str))),
    "SubKw": (SubKw, flat("SubKw", ("a", int, 1), ("b", str), ("c", int))),
    "G1[int]": (G1[int], G1i),
    "G1[XY]": (G1[XY.cls], G1x),
    "G1[G1[int]]": (G1[G1[int]], flat("GG", ("x", G1i), ("l", t.List[G1i], list))),
    "G1[List[int]]": (G1[t.List[int]], flat("GL", ("x", LI), ("l", t.List[LI], list))),
    "G1[Optional[int]]": (G1[t.Optional[int]], flat("GO", ("x", OPT_(int), None), ("l", t.List[OPT_(int)], list))),
    "G2[str]": (G2[str], flat("G2s", ("x", t.List[str]), ("l", t.List[t.List[str]], list), ("y", OPT_(str), None))),
    "G3": (G3, flat("G3", ("x", LI), ("l", t.List[LI], list), ("y", OPT_(int), None), ("z", str, "z"))),
    "SameVar[str]": (SameVar[str], flat("SV", ("x", int), ("l", LI, list), ("w", OPT_(str), None))),
    "Swap[int,str]": (Swap[int, str], flat("Sw", ("p", str), ("q", int), ("r", OPT_(int), None))),
    "Swap[str,int]": (Swap[str, int], flat("Sw2", ("p", int), ("q", str), ("r", OPT_(str), None))),
    "Half[int]": (Half[int], flat("Ha", ("p", str), ("q", int), ("h", OPT_(int), None))),
    "Both": (Both, flat("Bo", ("x", int), ("l", LI, list), ("p", str), ("q", bool), ("o", int, 0))),
    "BothSame[int]": (BothSame[int], flat("BS", ("x", int), ("l", LI, list), ("p", int), ("q", LI))),
    "OverGen": (OverGen, flat("OG", ("x", str), ("l", LI, list), ("n", int, 0))),
    "Inner[int]": (Inner[int], flat("In", ("box", G1i), ("boxes", t.List[G1i], list), ("pair", OPT_(PairSI), None))),
    "Anno[int]": (Anno[int], flat("An", ("v", t.Annotated[int, Alias("vv", "v")]), ("o", t.Annotated[OPT_(int), Alias("oo")], None), ("u", t.Union[int, LI, None], None), ("d", t.Dict[str, int], dict), ("tu", OPT_(t.Tuple[int, int]), None))),
    "Fl[int]": (Fl[int], flat("Fl", ("k", int), ("inner", t.Annotated[flat("PIS", ("p", int), ("q", str)), Flattened()]))),
    "Leaf1": (Leaf1, flat("Le", ("a", str), ("m", OPT_(str), None))),
    "Mid1[int]": (Mid1[int], flat("Mi", ("a", int), ("m", OPT_(int), None))),
    "New[int]": (New[int], flat("Ne", ("a", int), ("b", LI, list))),
    "SubNew[str]": (SubNew[str], flat("SN", ("a", t.List[str]), ("b", t.List[t.List[str]], list), ("c", OPT_(str), None))),
    "Later[int]": (first.Later[int], flat("La", ("item", I1), ("more", t.List[I1]), ("own", int), ("opt", OPT_(I1), None), ("later", OPT_(first.Late), None))),
    "Sub": (second.Sub, flat("Su", ("item", I1), ("more", t.List[I1]), ("own", I2), ("opt", OPT_(I1), None), ("later", OPT_(first.Late), None), ("mine", OPT_(I2), None), ("theirs", OPT_(I1), None))),
    "SubV[int]": (second.SubV[int], flat("SuV", ("item", I1), ("more", t.List[I1]), ("own", LI), ("opt", OPT_(I1), None), ("later", OPT_(first.Late), None), ("late", OPT_(int), None))),
    "Over": (second.Over, flat("Ov", ("item", I2), ("more", t.List[I1]), ("own", int), ("opt", OPT_(I1), None), ("later", OPT_(first.Late), None))),
    "NotDecorated": (second.NotDecorated, flat("ND", ("item", I1), ("more", t.List[I1]), ("own", str), ("opt", OPT_(I1), None), ("later", OPT_(first.Late), None))),
    "SubAlias": (second.SubAlias, flat("SA", ("items", t.List[I1]), ("table", t.Dict[str, I1], dict), ("extra", OPT_(second.Late), None))),
}


def parts(x):
    """*x* with the objects in it replaced by their fields (those that are constructor arguments)."""
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return {f.name: parts(getattr(x, f.name)) for f in dataclasses.fields(x) if f.init}
    if isinstance(x, list):
        return [parts(y) for y in x]
    if isinstance(x, dict):
        return {k: parts(v) for k, v in x.items()}
    if isinstance(x, tuple):
        return tuple([parts(y) for y in x])
    return x


LEAF = {int: ("int", int), str: ("str", str)}


def anything(ctx, name, depth=2, shapes=None):
    """An int, a string, none, or a list, object or mapping of such."""
    kinds = [("int", int, lambda: ctx.int(name)), ("str", str, lambda: ctx.str(name)), ("null", type(None), lambda: None), ("bool", bool, lambda: ctx.bool(name))]
    if depth > 0:
        kinds.append(("list", list, lambda: [anything(ctx, name + "[0]", depth - 1, shapes)] if ctx.flag(name + ".any") else []))
        kinds.append(("dict", dict, lambda: thing(ctx, name, depth, shapes)))
    return ctx.lazy(name, kinds)


SHAPES = [("n",), ("s",), ("x", "y"), ("p", "q"), ("x",), ("a",), ("key",)]


def thing(ctx, name, depth, shapes):
    keys = ctx.choice(name + ".shape", shapes or SHAPES)
    return {k: anything(ctx, f"{name}.{k}", depth - 1, shapes) for k in keys}


# payload keys that are offered in addition to the names of the fields
ALSO = {"Anno[int]": ["vv", "oo"], "Fl[int]": ["p", "q"], "Inits": ["hidden", "const"], "SubInits": ["a", "made"], "Undeco": ["z"], "WithMix": ["m"], "SubInits2": ["made"]}


def compare_load(ctx, hint, flat_cls, p, observe=True):
    got = ctx.attempt(load, p, hint, observe=observe)
    want = ctx.attempt(load, p, flat_cls, observe=False)
    ctx.check(got.ok == want.ok, "the flat class with the same fields behaves differently", lambda: f"{p!r}: {got!r}, flat: {want!r}")
    if got.ok and want.ok:
        ctx.cover("accepted")
        cls = t.get_origin(hint) or hint
        ctx.check(type(got.value) is cls, "type of the result", lambda: repr(got.value))
        ctx.check(same(parts(got.value), parts(want.value)), "the flat class with the same fields gives another result", lambda: f"{p!r}: {got!r}, flat: {want!r}")
        return got.value
    elif not got.ok:
        ctx.cover("refused")
        ctx.check(isinstance(got.exc, ConversionError) and isinstance(want.exc, ConversionError), "not a conversion error", lambda: f"{got.exc!r} {want.exc!r}")
    return NOVAL


@harness("C17", "load", shards=[{"case": c} for c in CASES], cover=["accepted", "refused"], bounds="44 classes; any one field missing or of any other kind, the others arbitrary in depth 1", max_paths=30000)
def load_class(ctx, case):
    hint, fl = CASES[case]
    names = [f.name for f in dataclasses.fields(fl)]
    if case == "Fl[int]":
        names.remove("inner")
    names += ALSO.get(case, [])
    w = ctx.pick("which", len(names) + 1)
    p = {}
    for i, n in enumerate(names):
        if w == i and ctx.flag("missing"):
            continue
        if i == w:
            p[n] = anything(ctx, n, 2)
        else:
            g = good(ctx, fl, n, case)
            if g is not NOVAL:
                p[n] = g
    if w == len(names):
        p[names[0]] = anything(ctx, names[0], 1)
        p[names[-1]] = anything(ctx, names[-1], 1)
    compare_load(ctx, hint, fl, p)


def good(ctx, fl, name, case):
    """A payload for the field of the flat class (or nothing, if it has a default)."""
    fs = {f.name: f for f in dataclasses.fields(fl)}
    if name in ("p", "q") and case == "Fl[int]":
        return 1 if name == "p" else "q"
    if name not in fs:
        return NOVAL
    f = fs[name]
    if f.default is not dataclasses.MISSING or f.default_factory is not dataclasses.MISSING:
        return NOVAL
    return payload_for(f.type)


def payload_for(h):
    if t.get_origin(h) is t.Annotated:
        return payload_for(t.get_args(h)[0])
    if t.get_origin(h) is list:
        return [payload_for(t.get_args(h)[0])]
    if t.get_origin(h) is t.Union:
        return payload_for(t.get_args(h)[0])
    if h is int:
        return 3
    if h is float:
        return 2.5
    if h is bool:
        return True
    if h is str:
        return "text"
    if dataclasses.is_dataclass(h):
        hints = t.get_type_hints(h, include_extras=True)
        return {f.name: payload_for(hints[f.name]) for f in dataclasses.fields(h) if f.default is dataclasses.MISSING and f.default_factory is dataclasses.MISSING}
    raise AssertionError(h)


def plain_for(ctx, h, name):
    """As python_for, but with no choice: shortest containers and first members."""
    o, a = t.get_origin(h), t.get_args(h)
    if o is t.Annotated:
        return plain_for(ctx, a[0], name)
    if o in (list, dict):
        return o()
    if o is tuple:
        return tuple([plain_for(ctx, x, f"{name}.{i}") for i, x in enumerate(a)])
    if o is t.Union:
        return None if type(None) in a else plain_for(ctx, a[0], name)
    if dataclasses.is_dataclass(h):
        return h(**{k: plain_for(ctx, x, f"{name}.{k}") for k, x in t.get_type_hints(h, include_extras=True).items()})
    return python_for(ctx, h, name, 0)


def python_for(ctx, h, name, depth=2):
    """An arbitrary value for the type of a field of a flat class, with the class to construct given by *make*."""
    o, a = t.get_origin(h), t.get_args(h)
    if o is t.Annotated:
        return python_for(ctx, a[0], name, depth)
    if o is list:
        return [python_for(ctx, a[0], name + "[0]", depth - 1)] if depth > 0 and ctx.flag(name + ".any") else []
    if o is dict:
        return {"k": python_for(ctx, a[1], name + ".v", depth - 1)} if ctx.flag(name + ".any") else {}
    if o is tuple:
        return tuple([python_for(ctx, x, f"{name}.{i}", depth - 1) for i, x in enumerate(a)])
    if o is t.Union:
        i = ctx.pick(name + ".m", len(a))
        return python_for(ctx, a[i], f"{name}.{i}", depth - 1)
    if h is type(None):
        return None
    if h is int:
        return ctx.int(name)
    if h is float:
        return ctx.choice(name, [0.0, 2.5])
    if h is bool:
        return ctx.bool(name)
    if h is str:
        return ctx.str(name)
    hints = t.get_type_hints(h, include_extras=True)
    return h(**{f.name: python_for(ctx, hints[f.name], f"{name}.{f.name}", depth - 1) for f in dataclasses.fields(h)})


@harness("C17", "dump", shards=[{"case": c} for c in CASES], cover=["done"], bounds="44 classes; arbitrary values, containers up to 1 entry, optional field values also wrong", max_paths=30000)
def dump_class(ctx, case):
    """Dumps the value of the flat class, loads that as the other class, and dumps it again."""
    hint, fl = CASES[case]
    hints = t.get_type_hints(fl, include_extras=True)
    names = list(hints)
    n = ctx.choice("vary", names)
    v = fl(**{k: python_for(ctx, h, f"v.{k}") if k == n else plain_for(ctx, h, f"v.{k}") for k, h in hints.items()})
    want = ctx.attempt(dump, v, fl, observe=False)
    ctx.check(want.ok, "flat", lambda: repr(want))
    x = compare_load(ctx, hint, fl, want.value, observe=False)
    ctx.check(x is not NOVAL, "refused the output of the flat class", lambda: repr(want))
    if x is NOVAL:
        return
    ctx.check(same(parts(x), parts(v)), "loaded something else", lambda: f"{x!r} instead of {v!r}")
    got = ctx.attempt(dump, x, hint, observe=False)
    ctx.check(got.ok and same(got.value, want.value), "dumped something else than the flat class", lambda: f"{got!r} instead of {want!r}")
    # one field with a value of another type
    if case not in ("SubFr", "Fl[int]"):
        bad = scalar(ctx, "bad", ("fin",))
        setattr(x, n, bad)
        setattr(v, n, bad)
        got = ctx.attempt(dump, x, hint)
        want = ctx.attempt(dump, v, fl, observe=False)
        ctx.check(got.ok == want.ok and (same(got.value, want.value) if got.ok else isinstance(got.exc, ConversionError)), "a wrong value is treated differently by the flat class", lambda: f"{n}={bad!r}: {got!r}, flat: {want!r}")
    ctx.cover("done")


# -- recursive


@harness("C17", "recursive", shards=[{"cls": c} for c in ("Tree[int]", "IntTree", "Tree[str]")], cover=["accepted", "refused"], bounds="trees of depth 2 with arbitrary values in the nodes")
def recursive(ctx, cls):
    hint = {"Tree[int]": Tree[int], "IntTree": IntTree, "Tree[str]": Tree[str]}[cls]
    ok = int if cls != "Tree[str]" else str

    def val(n):
        return ctx.lazy(n, [("int", int, lambda: ctx.int(n)), ("str", str, lambda: ctx.str(n))])

    a, b, c = val("a"), val("b"), val("c")
    p = {"v": a, "kids": [{"v": b}, {"v": "s" if ok is str else 0, "kids": [{"v": c}]}]}
    got = ctx.attempt(load, p, hint)
    good_ = type(a) is ok and type(b) is ok and type(c) is ok
    ctx.check(got.ok == good_, "type parameter of a recursive class", lambda: f"{p!r} {got!r}")
    if got.ok:
        ctx.cover("accepted")
        x = got.value
        ctx.check(conj(x.v == a, x.kids[0].v == b, x.kids[1].kids[0].v == c), "values", lambda: repr(x))
        ctx.check(type(x) is (IntTree if cls == "IntTree" else Tree) and type(x.kids[0]) is Tree and type(x.kids[1].kids[0]) is Tree, "types", lambda: repr(x))
        out = dump(x, hint)
        want = {"v": a, "kids": [{"v": b, "kids": []}, {"v": "s" if ok is str else 0, "kids": [{"v": c, "kids": []}]}]}
        if cls == "IntTree":
            want["n"] = 0
        ctx.check(same(out, want), "dump", lambda: repr(out))
    else:
        ctx.cover("refused")
        ctx.check(isinstance(got.exc, ConversionError), "not a conversion error", lambda: repr(got.exc))


# -- generated hierarchies: what is in effect is what dataclasses says

DECL = {"no": None, "int": (int, NODEF), "str=": (str, "s"), "opt": (t.Optional[int], NODEF), "int=": (int, 5), "list": (t.List[int], list)}


def build(ctx, name, bases, decls):
    ns = {"__annotations__": {}, "__module__": MOD}
    for fname, d in decls.items():
        if DECL[d] is None:
            continue
        ty, df = DECL[d]
        ns["__annotations__"][fname] = ty
        if df is list:
            ns[fname] = field(default_factory=list)
        elif df is not NODEF:
            ns[fname] = df
    return type(name, bases, ns)


FORMS = ["chain", "mi", "diamond", "undecorated"]


@harness("C17", "generated", shards=[{"form": f, "first": d} for f in FORMS for d in DECL], cover=["done"], bounds="3 or 4 classes in 4 arrangements, each declaring (or not) two fields in 6 ways; every scalar or list of a scalar for one of them", max_paths=60000)
def generated(ctx, form, first):
    deco = dataclasses.dataclass(kw_only=True)
    kinds = list(DECL)
    ca = deco(build(ctx, "CA", (), {"x": first, "y": "int="}))
    if form == "undecorated":
        kinds.remove("list")  # (would leave a Field object behind, which dataclasses cannot cope with)
    db = {"x": ctx.choice("bx", kinds)}
    cb_bases = (ca,) if form in ("chain", "diamond", "undecorated") else ()
    cb = build(ctx, "CB", cb_bases, db)
    if form != "undecorated":
        cb = deco(cb)
    dd = {"x": ctx.choice("cx", ["no", "int", "str=", "opt"])}
    if form == "chain" or form == "undecorated":
        cc = deco(build(ctx, "CC", (cb,), dd))
    elif form == "mi":
        cc = deco(build(ctx, "CC", (cb, ca) if ctx.flag("order") else (ca, cb), dd))
    else:
        cd = deco(build(ctx, "CD", (ca,), {"y": ctx.choice("dy", ["no", "str="])}))
        cc = deco(build(ctx, "CC", (cb, cd), dd))
    specs = []
    for f in dataclasses.fields(cc):
        if f.default is not dataclasses.MISSING:
            specs.append((f.name, f.type, field(default=f.default)))
        elif f.default_factory is not dataclasses.MISSING:
            specs.append((f.name, f.type, field(default_factory=f.default_factory)))
        else:
            specs.append((f.name, f.type, field()))
    fl = dataclasses.make_dataclass("FlatC", specs, module=MOD, kw_only=True)
    which = ctx.choice("which", ["x", "y"])
    v = ctx.lazy("v", [("int", int, lambda: ctx.int("v")), ("str", str, lambda: ctx.str("v")), ("null", type(None), lambda: None), ("list", list, lambda: [])])
    p = {which: v}
    if which == "y" and ctx.flag("x"):
        p["x"] = 1
    ctx.check(set(convert_to_schema(TypeHint(cc)).fields) == {f.name for f in dataclasses.fields(cc)}, "names of the fields")
    x = compare_load(ctx, cc, fl, p)
    if x is not NOVAL:
        out = ctx.attempt(dump, x, cc)
        want = ctx.attempt(dump, fl(**{f.name: getattr(x, f.name) for f in dataclasses.fields(fl)}), fl)
        ctx.check(out.ok == want.ok and (not out.ok or same(out.value, want.value)), "dump", lambda: f"{out!r} {want!r}")
    ctx.cover("done")


# -- generated generics: types as little terms over the variables

TERMS = {
    "v": lambda v: v, "list": lambda v: t.List[v], "opt": lambda v: t.Optional[v], "int": lambda v: int, "dict": lambda v: t.Dict[str, v],
    "anno": lambda v: t.Annotated[v, "text"],
}


@harness("C17", "generics", shards=[{"x": a, "b": b} for a in TERMS for b in TERMS], cover=["done"], bounds="chains of 3 generic classes with 6 kinds of field types and of arguments each, same or different variables; arbitrary payload of depth 2")
def generics(ctx, x, b):
    var2 = ctx.choice("var", [A, B])  # the same variable or another one
    c = ctx.choice("c", ["v", "list", "opt", "int"])
    sub = ctx.flag("sub")
    arg = int if sub else str
    tx, tb, tc = TERMS[x], TERMS[b], TERMS[c]
    g1 = dc(types.new_class("G", (t.Generic[A],), exec_body=lambda ns: ns.update({"__annotations__": {"x": tx(A)}, "__module__": MOD})))
    base = g1[tb(var2)]
    orig = (base, t.Generic[var2])
    g2 = types.new_class("H", orig, exec_body=lambda ns: ns.update({"__annotations__": {"y": tc(var2)}, "y": None, "__module__": MOD}))
    g2 = dc(g2)
    if sub:
        g3 = types.new_class("I", (g2[arg],), exec_body=lambda ns: ns.update({"__annotations__": {"z": int}, "z": 0, "__module__": MOD}))
        hint = dc(g3)
        extra = [("z", int, 0)]
    else:
        hint, extra = g2[arg], []
    ft_x = tx(tb(arg))
    fl = flat("Gen", ("x", ft_x), ("y", tc(arg), None), *extra)
    p = {}
    if ctx.flag("vary_y"):
        p["x"] = payload_for2(ft_x)
        p["y"] = anything(ctx, "y", 1, [("k",)])
    else:
        p["x"] = anything(ctx, "x", 2, [("k",)])
    compare_load(ctx, hint, fl, p)
    ctx.cover("done")


def payload_for2(h):
    o, a = t.get_origin(h), t.get_args(h)
    if o is dict:
        return {}
    if o is list:
        return []
    if o is t.Union:
        return None
    if o is t.Annotated:
        return payload_for2(a[0])
    return 1 if h is int else "s"
