"""The dataclass extension behaves like standard dataclasses."""

import itertools

from databind.core import dataclasses as ext
from databind.json import dump, load
from props.zoo import *
from symex.harness import harness

std = dataclasses
META = {"m": 1}


class Post:
    """Told what the post-init hooks of a class saw."""

    def __init__(self):
        self.log = []


def declare(kind, name, api):
    """(annotation, class attribute or NOVAL) of one field."""
    v = api.field
    return {
        "plain": lambda: (int, NOVAL), "default": lambda: (int, 10), "none": lambda: (t.Optional[int], None), "factory": lambda: (list, v(default_factory=list)), "field": lambda: (int, v()),
        "fdefault": lambda: (int, v(default=11, metadata=META)), "kw": lambda: (int, v(kw_only=True)), "kwdefault": lambda: (int, v(default=12, kw_only=True)),
        "noinit": lambda: (int, v(init=False)), "noinitdefault": lambda: (int, v(init=False, default=13)), "initvar": lambda: (std.InitVar[int], NOVAL), "initdefault": lambda: (std.InitVar[int], 14),
        "classvar": lambda: (t.ClassVar[int], NOVAL), "classdefault": lambda: (t.ClassVar[int], 15), "nocompare": lambda: (int, v(compare=False, repr=False, default=16)), "KW": lambda: (std.KW_ONLY, NOVAL),
        "hash": lambda: (int, v(hash=False)), "string": lambda: ("int", NOVAL), "stringvar": lambda: ("t.ClassVar[int]", NOVAL),
    }[kind]()


def make(api, spec, bases=(), hook="none", log=None, kw_only=False, options=None, force_kw=False, name="Made"):
    """A class with the fields *spec* [(name, kind)], made with the decorator of *api*."""
    ann, ns = {}, {"__module__": __name__, "__qualname__": name}
    for n, kind in spec:
        a, d = declare(kind, n, api)
        ann[n] = a
        if d is not NOVAL:
            ns[n] = d
    ns["__annotations__"] = ann
    inits = [n for n, kind in spec if kind in ("noinit",)]
    if hook != "none":
        def __post_init__(self, *args, **kw):
            if hook == "super":
                super(holder[0], self).__post_init__(*args, **kw)
            log.append((name, args, sorted(kw)))
            for n in inits:
                object.__setattr__(self, n, 99)

        ns["__post_init__"] = __post_init__
    holder = []
    cls = type(name, bases, ns)
    opts = dict(options or {})
    if force_kw:
        opts["kw_only"] = True
    cls = api.dataclass(cls, **opts) if opts else api.dataclass(cls)
    holder.append(cls)
    return cls


NOINIT = ("noinit", "noinitdefault")


def effective_spec(levels):
    """[(name, kind)] in the order of the standard: a redeclared field keeps its place."""
    d = {}
    kw = set()
    for spec in levels:
        seen_kw = False
        for n, k in spec:
            if k == "KW":
                seen_kw = True
                continue
            d[n] = k
            (kw.add if seen_kw or k in ("kw", "kwdefault") else kw.discard)(n)
    return d, kw


def parameters(levels, kw_all=False):
    d, kw = effective_spec(levels)
    order = [n for n, k in d.items() if k not in NOINIT and k not in ("classvar", "classdefault", "stringvar")]
    pos = [n for n in order if n not in kw and not kw_all]
    return order, pos


def call_pattern(ctx, names, extra="zz"):
    n = ctx.pick("positional", len(names) + 2)
    args = [ctx.int(f"arg{i}") for i in range(n)]
    kws = {k: ctx.int("kw_" + k) for k in names if ctx.flag("has_" + k)}
    if ctx.flag("unknown"):
        kws[extra] = 1
    return args, kws


def bind(args, kws, pos):
    """Positional arguments by name; refuses what Python refuses."""
    if len(args) > len(pos):
        raise Bad
    named = dict(zip(pos, args))
    if set(named) & set(kws):
        raise Bad
    return {**named, **kws}


def state(x, names):
    return {n: getattr(x, n, NOVAL) for n in names}


def same_state(a, b):
    return all([k in b and (a[k] is NOVAL) == (b[k] is NOVAL) and (a[k] is NOVAL or same(a[k], b[k])) for k in a])


def compare_calls(ctx, cls, twin, log, twin_log, args, kws, pos, names):
    """*cls* called with (args, kws) against *twin*, whose parameters are all keywords."""
    del log[:], twin_log[:]
    got = ctx.attempt(cls, *args, observe=False, **kws)
    try:
        want = ctx.attempt(twin, observe=False, **bind(args, kws, pos))
    except Bad:
        ctx.cover("refused")
        ctx.check(not got.ok and type(got.exc) is TypeError, "too many arguments, or one twice", lambda: repr(got))
        return None
    if not want.ok:
        ctx.cover("refused")
        ctx.check(not got.ok and type(got.exc) is TypeError, "a call the standard class refuses", lambda: f"{got!r}, not {want!r}")
        ctx.check(log == twin_log or not log, "hook", lambda: f"{log!r}, not {twin_log!r}")
        return None
    ctx.cover("accepted")
    ctx.check(got.ok and type(got.value) is cls, "a call the standard class accepts", lambda: repr(got))
    a, b = state(got.value, names), state(want.value, names)
    ctx.check(same_state(a, b), "attributes", lambda: f"{a!r}, not {b!r}")
    ctx.check(len(log) == len(twin_log) and all([x[0] == y[0] and same(list(x[1]), list(y[1])) and x[2] == y[2] for x, y in zip(log, twin_log)]), "post-init hooks", lambda: f"{log!r}, not {twin_log!r}")
    return got.value, want.value


FEW = ("plain", "default", "factory", "kw", "initvar")
ALL = ("plain", "default", "none", "factory", "field", "fdefault", "kw", "kwdefault", "noinit", "noinitdefault", "initvar", "initdefault", "classvar", "classdefault", "nocompare", "KW", "hash", "string", "stringvar")
MID = ("plain", "default", "factory", "field", "kw", "kwdefault", "noinit", "noinitdefault", "initvar", "initdefault", "classvar", "classdefault", "KW")


@harness("C22", "calls", shards=[{"first": k, "kinds": MID, "n": 2} for k in ALL] + [{"first": (a, b), "kinds": FEW[:3], "n": 3} for a in FEW[:4] for b in FEW[:4]], thorough=[{"first": k, "kinds": ALL, "n": 2} for k in ALL] + [{"first": (a, b), "kinds": ALL, "n": 3} for a in MID for b in ALL], cover=["accepted", "refused"], bounds="classes of up to 3 fields, each of 19 kinds; every number of positional arguments and every set of keywords, any integers", max_paths=100000)
def calls(ctx, first, kinds, n):
    """Any call of the class."""
    first = (first,) if isinstance(first, str) else first
    spec = [("abc"[i], first[i] if i < len(first) else ctx.choice(f"kind{i}", kinds)) for i in range(n)]
    if sum([k == "KW" for _, k in spec]) > 1:
        ctx.cut("two KW_ONLY")
    hook = ctx.choice("hook", ["none", "own"])
    log, twin_log = [], []
    twin = make(std, spec, hook=hook, log=twin_log, options={"kw_only": True})
    cls = make(ext, spec, hook=hook, log=log)
    order, pos = parameters([spec])
    args, kws = call_pattern(ctx, order)
    compare_calls(ctx, cls, twin, log, twin_log, args, kws, pos, "abc"[:n])
    ctx.check([hasattr(cls, x) for x in "abc"] == [hasattr(twin, x) for x in "abc"], "class attributes")


# -- inheritance

INHERIT = ("plain", "default", "factory", "noinit", "initvar")


@harness("C22", "inherit", shards=[{"a": a, "b": b} for a in INHERIT for b in ("-",) + INHERIT], cover=["accepted", "refused"], thorough=[{"a": a, "b": b, "names": 3} for a in ALL for b in ("-",) + ALL], bounds="a base of up to 2 fields, a class with one or none (new, or declaring a field again), 7 (19) kinds each; hooks in either, with and without super()", max_paths=100000)
def inherit(ctx, a, b, names=2):
    base_spec = [("a", a)] + ([("b", "default")] if ctx.flag("two") else [])
    sub_spec = [] if b == "-" else [(ctx.choice("name", ["c", "a"]), b)]
    if names == 3 and sub_spec and ctx.flag("more"):
        sub_spec.append(("d", ctx.choice("kind", ["plain", "default"])))
    hooks = ctx.choice("hooks", [("none", "none"), ("own", "none"), ("none", "own"), ("own", "own"), ("own", "super")])
    # (the base may be a standard dataclass, or one made by the extension)
    base_api = ctx.choice("base", [ext, std])
    log, twin_log = [], []
    twin_base = make(std, base_spec, hook=hooks[0], log=twin_log, options={"kw_only": True}, name="Base")
    try:
        twin = make(std, sub_spec, (twin_base,), hook=hooks[1], log=twin_log, options={"kw_only": True})
    except TypeError:
        ctx.cut("not a class")
    try:
        base = make(base_api, base_spec, hook=hooks[0], log=log, name="Base")
    except TypeError:
        ctx.check(base_api is std, "the base is a class")
        ctx.cut("not a standard class")
    before = [(f.name, f.type, f.init, f.kw_only, f.default, f.default_factory) for f in std.fields(base)]
    cls = make(ext, sub_spec, (base,), hook=hooks[1], log=log)
    ctx.check(before == [(f.name, f.type, f.init, f.kw_only, f.default, f.default_factory) for f in std.fields(base)], "the base class was changed")
    order, pos = parameters([base_spec, sub_spec])
    args, kws = call_pattern(ctx, order)
    compare_calls(ctx, cls, twin, log, twin_log, args, kws, pos, ("a", "b", "c"))
    ctx.check([hasattr(cls, x) for x in "abc"] == [hasattr(twin, x) for x in "abc"], "class attributes")
    ctx.check([f.name for f in ext.fields(cls)] == [f.name for f in std.fields(twin)], "order of fields")
    # the base class is as before
    log2, base2 = [], make(std, base_spec, hook=hooks[0], log=twin_log, options={"kw_only": True}, name="Base")
    order, pos = parameters([base_spec])
    compare_calls(ctx, base, base2, log, twin_log, [], {n: 1 for n in order}, pos, ("a", "b"))


@harness("C22", "redeclare", cover=["accepted"], bounds="three levels, each declaring or not a field of any of 4 kinds")
def redeclare(ctx):
    """Three levels that declare one field again and again."""
    kinds = [ctx.choice(f"k{i}", ["plain", "default", "factory", "str", "-"]) for i in range(3)]
    if kinds[0] == "-":
        ctx.cut("no field")
    log = []

    def build(api, opts):
        cls = None
        for i, k in enumerate(kinds):
            spec = [] if k == "-" else [("a", "plain" if k == "str" else k)]
            cls = make(api, spec, (cls,) if cls else (), log=log, options=opts, name=f"L{i}")
            yield cls

    mine, theirs = list(build(ext, None)), list(build(std, None))
    v = ctx.int("v")
    for x, y in zip(mine, theirs):
        compare_calls(ctx, x, y, log, log, [v] if ctx.flag("given" + x.__name__) else [], {}, ["a"], ("a",))
        ctx.check([(f.name, f.type, f.kw_only) for f in ext.fields(x)] == [(f.name, f.type, f.kw_only) for f in std.fields(y)], "fields")
        ctx.check(hasattr(x, "a") == hasattr(y, "a"), "class attribute")


# -- options, equality, order: against the same class made with the standard decorator

OPTIONS = [{}, {"eq": False}, {"order": True}, {"frozen": True}, {"unsafe_hash": True}, {"slots": True}, {"kw_only": True}, {"repr": False}, {"match_args": False}, {"init": False}, {"frozen": True, "order": True}, {"slots": True, "frozen": True}, {"slots": True, "order": True}]
VALID = [
    [("a", "plain"), ("b", "default")], [("a", "plain"), ("b", "nocompare")], [("a", "hash"), ("b", "plain")], [("a", "plain"), ("b", "noinitdefault")], [("a", "plain"), ("b", "kw")], [("a", "initdefault"), ("b", "default")],
    [("a", "classdefault"), ("b", "plain")], [("a", "default"), ("b", "factory")], [("a", "plain"), ("b", "noinit")],
]


def outcome(ctx, fn, *a):
    return ctx.attempt(fn, *a, observe=False)


def text(x):
    return repr(x).replace("<sym>", "?")


@harness("C22", "options", shards=[{"o": i} for i in range(len(OPTIONS))], cover=["equal", "different"], bounds="13 sets of options, 9 classes of 2 fields; two instances with any integers")
def options(ctx, o):
    opts = OPTIONS[o]
    spec = VALID[ctx.pick("spec", len(VALID))]
    if opts.get("init", True) is False:
        no_init(ctx, spec)
        return
    log = []
    hook = "own" if dict(spec)["b"] == "noinit" else "none"
    mine, theirs = make(ext, spec, hook=hook, log=log, options=opts), make(std, spec, hook=hook, log=log, options=opts)
    order, pos = parameters([spec], kw_all=bool(opts.get("kw_only")))
    v = [{n: ctx.int(f"{n}{i}") if declare(dict(spec)[n], n, std)[0] is not list else [i] for n in order} for i in range(2)]
    m, s = [mine(**x) for x in v], [theirs(**x) for x in v]
    how = ctx.choice("what", ["eq", "hash", "order", "set", "delete", "repr", "fields", "tuple", "replace", "positional", "attributes"])
    if how == "eq":
        got, want = outcome(ctx, lambda: m[0] == m[1]), outcome(ctx, lambda: s[0] == s[1])
        ctx.check(got.ok and want.ok, "equality")
        ctx.cover("equal" if want.value else "different")
        ctx.check(bool(got.value) == bool(want.value), "equality", lambda: f"{got!r}, not {want!r}")
        ctx.check(bool(m[0] == s[0]) is False and bool(m[0] != m[1]) == (not want.value), "unequal to other classes")
    elif how == "hash":
        got, want = outcome(ctx, lambda: mine.__hash__ is None), outcome(ctx, lambda: theirs.__hash__ is None)
        ctx.check(got.value == want.value, "hashable or not")
        ctx.check((mine.__hash__ is object.__hash__) == (theirs.__hash__ is object.__hash__), "hashed by identity or not")
    elif how == "order":
        for f in (lambda x: x[0] < x[1], lambda x: x[0] >= x[1]):
            got, want = outcome(ctx, f, m), outcome(ctx, f, s)
            ctx.check(got.ok == want.ok and (not want.ok or bool(got.value) == bool(want.value)), "order", lambda: f"{got!r}, not {want!r}")
    elif how == "set":
        for n in ("a", "b", "zz"):
            got, want = outcome(ctx, setattr, m[0], n, 5), outcome(ctx, setattr, s[0], n, 5)
            ctx.check(got.ok == want.ok and type(got.exc) is type(want.exc), f"setting {n}", lambda: f"{got!r}, not {want!r}")
            ctx.check(same_state(state(m[0], [n]), state(s[0], [n])), f"after setting {n}")
    elif how == "delete":
        for n in ("a", "b"):
            got, want = outcome(ctx, delattr, m[0], n), outcome(ctx, delattr, s[0], n)
            ctx.check(got.ok == want.ok and type(got.exc) is type(want.exc), f"deleting {n}", lambda: f"{got!r}, not {want!r}")
            ctx.check(same_state(state(m[0], [n]), state(s[0], [n])), f"after deleting {n}")
    elif how == "repr":
        a, b = text(m[0]), text(s[0])
        if opts.get("repr", True) is False:
            ctx.check(a.startswith("<") and b.startswith("<"), "repr")
        else:
            ctx.check(a == b, "repr", lambda: f"{a}, not {b}")
    elif how == "fields":
        def info(c):
            return [(f.name, f.type, f.init, f.repr, f.compare, f.hash, f.kw_only, dict(f.metadata), f.default if f.default is not ext.MISSING and type(f.default) is int else None, f.default_factory) for f in std.fields(c)]

        ctx.check(info(mine) == info(theirs), "fields", lambda: f"{info(mine)}, not {info(theirs)}")
        ctx.check(ext.is_dataclass(mine) and [getattr(mine, "__match_args__", None)] == [getattr(theirs, "__match_args__", None)], "match args")
        ctx.check(getattr(mine, "__slots__", None) == getattr(theirs, "__slots__", None) and hasattr(m[0], "__dict__") == hasattr(s[0], "__dict__"), "slots")
    elif how == "tuple":
        for f in (std.asdict, std.astuple):
            got, want = outcome(ctx, f, m[0]), outcome(ctx, f, s[0])
            ctx.check(got.ok == want.ok and (not want.ok or same(list(got.value.items()) if f is std.asdict else list(got.value), list(want.value.items()) if f is std.asdict else list(want.value))), f.__name__, lambda: f"{got!r}, not {want!r}")
    elif how == "replace":
        n = ctx.choice("replaced", ["a", "b", "zz"])
        got, want = outcome(ctx, lambda: std.replace(m[0], **{n: 5})), outcome(ctx, lambda: std.replace(s[0], **{n: 5}))
        ctx.check(got.ok == want.ok and type(got.exc) is type(want.exc) and (not want.ok or same_state(state(got.value, "ab"), state(want.value, "ab"))), "replace", lambda: f"{got!r}, not {want!r}")
    elif how == "attributes":
        ctx.check(sorted([k for k in vars(mine) if k != "__post_init__"]) == sorted([k for k in vars(theirs) if k != "__post_init__"]), "attributes of the class", lambda: f"{sorted(vars(mine))}, not {sorted(vars(theirs))}")
        ctx.check(mine.__name__ == theirs.__name__ and mine.__module__ == theirs.__module__ and str(mine.__annotations__) == str(theirs.__annotations__) and mine.__bases__ == theirs.__bases__, "the class itself")
    else:
        got, want = outcome(ctx, mine, *v[0].values()), outcome(ctx, theirs, *v[0].values())
        ctx.check(got.ok == want.ok and type(got.exc) is type(want.exc) and (not want.ok or same_state(state(got.value, "ab"), state(want.value, "ab"))), "positional", lambda: f"{got!r}, not {want!r}")


def no_init(ctx, spec):
    def build(api):
        ann, ns = {}, {"__module__": __name__}
        for n, k in spec:
            a, d = declare(k, n, api)
            ann[n] = a
            if d is not NOVAL:
                ns[n] = d

        def __init__(self, x):
            self.a = x

        ns.update(__annotations__=ann, __init__=__init__)
        return api.dataclass(type("Own", (), ns), init=False)

    mine, theirs = build(ext), build(std)
    x = ctx.int("x")
    ctx.check(same_state(state(mine(x), "ab"), state(theirs(x), "ab")), "own constructor")
    ctx.cover("equal")
    ctx.cover("different")


class Equal:
    """Equal to everything."""

    def __eq__(self, other):
        return True

    __hash__ = None


class Odd:
    """Cannot be compared."""

    def __eq__(self, other):
        raise RuntimeError("comparison")

    __hash__ = None


@harness("C22", "values", cover=["accepted"], bounds="any JSON scalar and special objects as arguments and defaults")
def values(ctx):
    """Any value may be given for a field."""
    mk = ctx.choice("value", [lambda: scalar(ctx, "v"), Equal, Odd, object, lambda: int, lambda: std.MISSING, lambda: [], lambda: Ellipsis, lambda: NotImplemented, lambda: float("nan")])
    x = mk()
    how = ctx.choice("how", ["positional", "keyword", "default"])
    if how == "default":
        if isinstance(x, list) or x is std.MISSING or isinstance(x, (Equal, Odd)):
            ctx.cut("no default value")
        cls = ext.dataclass(type("Made", (), {"__annotations__": {"a": object, "b": int}, "a": x, "__module__": __name__}))
        got = ctx.attempt(cls, b=1, observe=False)
    else:
        cls = make(ext, [("a", "plain"), ("b", "default")])
        got = ctx.attempt(cls, x, observe=False) if how == "positional" else ctx.attempt(cls, a=x, observe=False)
    ctx.cover("accepted")
    ctx.check(got.ok and got.value.a is x, "the value given", lambda: repr(got))


# -- generic classes, decorator forms, hooks that fail

T_G = t.TypeVar("T_G")


@harness("C22", "forms", cover=["accepted", "refused"], bounds="decorator with and without arguments, generic classes, mixins, a hook that fails")
def forms(ctx):
    v = ctx.int("v")
    form = ctx.choice("form", ["bare", "called", "generic", "mixin", "failing", "nofields", "ordinary base"])
    if form in ("bare", "called"):
        def build(api):
            class A:
                a: int = 1
                b: int = 2

            return api.dataclass(A) if form == "bare" else api.dataclass()(A)

        mine, theirs = build(ext), build(std)
    elif form == "generic":
        def build(api):
            @api.dataclass
            class A(t.Generic[T_G]):
                a: T_G
                b: int = 2

            @api.dataclass
            class B(A[int]):
                c: int = 3

            return B

        mine, theirs = build(ext), build(std)
    elif form == "mixin":
        def build(api):
            class M:
                def __post_init__(self):
                    self.seen = self.a

            @api.dataclass
            class A(M):
                a: int
                b: int = 2

            return A

        mine, theirs = build(ext), build(std)
    elif form == "failing":
        def build(api):
            @api.dataclass
            class A:
                a: int
                b: int = 2

                def __post_init__(self):
                    if self.a > 5:
                        raise ZeroDivisionError

            return A

        mine, theirs = build(ext), build(std)
    elif form == "nofields":
        def build(api):
            @api.dataclass
            class A:
                a: int

            @api.dataclass
            class B(A):
                pass

            @api.dataclass
            class C(B):
                b: int = 2

            return C

        mine, theirs = build(ext), build(std)
    else:
        def build(api):
            class O:
                a = 5

            @api.dataclass
            class A(O):
                a: int
                b: int = 2

            return A

        mine, theirs = build(ext), build(std)
    args = [v, 3, 4, 5][:ctx.pick("n", 5)]
    got, want = ctx.attempt(mine, *args, observe=False), ctx.attempt(theirs, *args, observe=False)
    ctx.cover("accepted" if want.ok else "refused")
    ctx.check(got.ok == want.ok and type(got.exc) is type(want.exc), "outcome", lambda: f"{got!r}, not {want!r}")
    if want.ok:
        ctx.check(same_state(state(got.value, ("a", "b", "c", "seen")), state(want.value, ("a", "b", "c", "seen"))), "attributes")


# -- field()


@harness("C22", "annotations", cover=["kept"], bounds="annotations given or not, with and without metadata shared by two fields")
def annotations(ctx):
    anns = ctx.choice("annotations", [None, ["x"], ("y", 1), [Strict(False)]])
    meta = ctx.choice("metadata", [None, "dict", "proxy", "shared"])
    d = {"k": ctx.int("k")}
    given = None if meta is None else types.MappingProxyType(d) if meta == "proxy" else d
    f = ext.field(default=1, annotations=anns, metadata=given)
    other = ext.field(default=2, annotations=["other"], metadata=given) if meta == "shared" else None
    ctx.cover("kept")
    ctx.check(list(d) == ["k"], "the metadata passed in was changed", lambda: repr(d))

    def right(f, anns):
        want = {} if meta is None else {"k": d["k"]}
        if anns:
            want[ext.ANNOTATIONS_METADATA_KEY] = anns
        return sorted(f.metadata) == sorted(want) and all([f.metadata[k] == want[k] for k in want])

    ctx.check(right(f, anns), "metadata of the field", lambda: repr(f))
    if other is not None:
        ctx.check(right(other, ["other"]), "metadata of the other field", lambda: repr(other))
    cls = ext.dataclass(type("Made", (), {"__annotations__": {"a": int}, "a": f, "__module__": __name__}))
    ctx.check(right(ext.fields(cls)[0], anns) and cls().a == 1, "metadata of the field of the class")


# -- in conversions


@harness("C22", "convert", cover=["accepted", "refused"], bounds="a class of 4 fields (required after default), every subset of keys, any integers")
def convert(ctx):
    """Loading and dumping use the fields of the class."""
    base = make(ext, [("a", "default"), ("b", "plain")], name="Base")
    cls = make(ext, [("c", "factory"), ("d", "plain")], (base,))
    cls.__annotations__["c"] = t.List[int]
    ext.fields(cls)[2].type = t.List[int]
    p = {n: ctx.int(n) for n in "abd" if ctx.flag("has " + n)}
    got = ctx.attempt(load, p, cls, observe=False)
    if "b" in p and "d" in p:
        ctx.cover("accepted")
        ctx.check(got.ok, "load", lambda: repr(got))
        ctx.check(type(got.value) is cls and same_state(state(got.value, "abcd"), {"a": p.get("a", 10), "b": p["b"], "c": [], "d": p["d"]}), "load", lambda: repr(got))
        out = ctx.attempt(dump, got.value, cls)
        ctx.check(out.ok and same([out.value[k] for k in "abcd"], [p.get("a", 10), p["b"], [], p["d"]]), "dump", lambda: repr(out))
    else:
        ctx.cover("refused")
        ctx.check(not got.ok and isinstance(got.exc, ConversionError), "a required field is missing", lambda: repr(got))
