"""Conversions do not modify inputs and do not influence each other."""

from databind.core import Context, Converter, Direction, ExtraKeys, Location, ObjectMapper, Setting, Settings, Strict
from databind.core.union import StaticUnionMembers
from databind.json import JsonConverter, dump, get_object_mapper, load
from typeapi import TypeHint
from props.zoo import *
from symex.harness import harness

# -- pictures of values


def snap(x):
    """A picture of *x* that remembers the identity of its parts."""
    if isinstance(x, dict):
        return ("dict", x, [(k, snap(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple, collections.deque)):
        return ("list", x, [snap(v) for v in x])
    if isinstance(x, (set, frozenset)):
        return ("set", x, list(x))
    if dataclasses.is_dataclass(x) and not isinstance(x, type) and not isinstance(x, duration):
        return ("object", x, [(f.name, snap(getattr(x, f.name, NOVAL))) for f in dataclasses.fields(x)])
    return ("leaf", x, None)


def unchanged(s, x):
    kind, was, parts = s
    if kind == "leaf":
        return x is was or same(x, was)
    if x is not was:
        return False
    if kind == "dict":
        if len(x) != len(parts):
            return False
        return conj(*[same(k, p[0]) for k, p in zip(x, parts)], *[unchanged(p[1], v) for v, p in zip(x.values(), parts)])
    if kind == "list":
        return len(x) == len(parts) and conj(*[unchanged(p, v) for p, v in zip(parts, x)])
    if kind == "set":
        return len(x) == len(parts) and all([p in x for p in parts])
    return conj(*[unchanged(p, getattr(x, n, NOVAL)) for n, p in parts])


def mutables(x, out=None):
    """All the objects in *x* that can be modified."""
    out = [] if out is None else out
    if isinstance(x, dict):
        out.append(x)
        for v in x.values():
            mutables(v, out)
    elif isinstance(x, (list, collections.deque, set)):
        out.append(x)
        for v in x:
            mutables(v, out)
    elif isinstance(x, (tuple, frozenset)):
        for v in x:
            mutables(v, out)
    elif dataclasses.is_dataclass(x) and not isinstance(x, type) and not isinstance(x, duration):
        out.append(x)
        for f in dataclasses.fields(x):
            mutables(getattr(x, f.name, None), out)
    return out


def shared(a, b):
    return [x for x in mutables(a) if any([x is y for y in mutables(b)])]


def slots(x, out=None):
    out = [] if out is None else out
    if isinstance(x, dict):
        for k, v in x.items():
            out.append((x, k))
            slots(v, out)
    elif isinstance(x, list):
        for i, v in enumerate(x):
            out.append((x, i))
            slots(v, out)
    return out


def disturb(ctx, p, name="d"):
    """Makes any one place of the payload wrong (or none)."""
    sl = slots(p)
    i = ctx.pick(name, len(sl) + 1)
    if i == len(sl):
        return p
    c, k = sl[i]
    how = ctx.pick(name + ".how", 3)
    if how == 0:
        c[k] = None
    elif how == 1:
        c[k] = [[]]
    elif isinstance(c, dict):
        c["unknown key"] = 1
    else:
        c.append({})
    return p


TYPES = [
    TSeq(INT), TSeq(TSeq(STR, "frozenset", width=1), "vtuple", 1), TDict(STR, INT), TDict(STR, TSeq(XY, width=1), width=1), TTuple(XY, TDict(STR, INT, width=1)), TOpt(XY), TUnion(INT, XY), XY, DEF2, ALI, FLAT1, FLATD, REM, TDC("RemList", F("a", INT, aliases=("al", "a")), F("rest", TDict(STR, TSeq(INT, width=1), width=1), remainder=True)), NEST1 := TDC(
        "Nest1", F("i", XY), F("l", TSeq(XY, width=1)), F("o", TOpt(XY))), TD, NT, FLATTD, TTagged("nested", M, "k", "v"), TTagged("flat", [("xy", XY), ("r", REM)]), TTagged("keyed", M), TBox(XY, 1), TNode(1),
    TDC("FlatRem14", F("k", INT), F("in_", REM, flat=True)),
    TTagged("flat", [("td", TD), ("xy", XY)], hint=t.Annotated[XY.cls, Union({"td": TD.hint, "xy": XY.hint}, Union.FLAT)]), TTagged("flat", [("f", FLAT1), ("xy", XY)]),
    # within other values
    TSeq(TTagged("flat", [("xy", XY), ("r", REM)]), width=1), TDict(STR, TTagged("nested", M, "k", "v"), width=1), TDC("Hold14", F("u", TTagged("flat", [("xy", XY), ("d", DEF2)])), F("k", TTagged("keyed", M))), TOpt(TTagged("flat", M)),
    TSeq(REM, width=1), TDC("Hold14b", F("r", REM), F("f", FLAT1)), TDict(STR, TD, width=1), TUnion(INT, FLATD),
]


class Recorder:
    def __init__(self):
        self.seen = []

    def __call__(self, ctx, keys):
        self.seen.append((ctx, keys))


@harness("C14", "load_input", shards=[{"ty": x} for x in TYPES], cover=["ok", "failed"], bounds="well-formed payloads with any one place wrong; containers up to 2 entries")
def load_input(ctx, ty):
    try:
        v = ty.gen(ctx, "v")
        p = ty.ref_dump(v, S())
    except Bad:
        ctx.cut("no such value")
    p = disturb(ctx, p)
    before = snap(p)
    sets = [Strict(ctx.flag("strict")), ExtraKeys(ctx.flag("extra"))]
    listed = list(sets)
    a = ctx.attempt(load, p, ty.hint, None, listed, observe=False)
    ctx.cover("ok" if a.ok else "failed")
    ctx.check(unchanged(before, p), "loading modified the payload", lambda: repr(p))
    ctx.check(len(listed) == 2 and all([x is y for x, y in zip(listed, sets)]), "loading modified the list of settings", lambda: repr(listed))
    b = ctx.attempt(load, p, ty.hint, None, listed)
    ctx.check(a.ok == b.ok and (same(a.value, b.value) if a.ok else type(a.exc) is type(b.exc) and (disturbed_text(a.exc, b.exc))), "the second time with another result", lambda: f"{a!r} {b!r}")
    if a.ok and b.ok:
        ctx.check(not shared(a.value, b.value), "results share state", lambda: repr(shared(a.value, b.value)))
        ctx.check(not shared(a.value, p), "the result shares state with the payload", lambda: repr(shared(a.value, p)))
        for m in mutables(a.value):  # modifying the result changes nothing else
            if type(m) is list:
                m.append("modified")
            elif type(m) is dict:
                m["modified"] = 1
        ctx.check(unchanged(before, p), "modifying the result modified the payload", lambda: repr(p))
        c = ctx.attempt(load, p, ty.hint, None, listed, observe=False)
        ctx.check(c.ok and same(c.value, b.value), "modifying a result changed a later one", lambda: f"{c!r} {b!r}")


def disturbed_text(a, b):
    return a.message == b.message


@harness("C14", "dump_input", shards=[{"ty": x} for x in TYPES], cover=["ok"], bounds="values with any one field of another type; containers up to 2 entries")
def dump_input(ctx, ty):
    v = ty.gen(ctx, "v")
    ms = [m for m in mutables(v) if type(m) is list or type(m) is dict or dataclasses.is_dataclass(m)]
    i = ctx.pick("wrong", len(ms) + 1)
    if i < len(ms):
        m = ms[i]
        if type(m) is list:
            m.append(object)
        elif type(m) is dict:
            m["w"] = object
        else:
            n = dataclasses.fields(m)[-1].name
            setattr(m, n, object)
    before = snap(v)
    a = ctx.attempt(dump, v, ty.hint, observe=False)
    ctx.cover("ok" if a.ok else "failed")
    ctx.check(unchanged(before, v), "dumping modified the value", lambda: repr(v))
    b = ctx.attempt(dump, v, ty.hint)
    ctx.check(a.ok == b.ok and (not a.ok or same(a.value, b.value)), "the second time with another result", lambda: f"{a!r} {b!r}")
    if a.ok and b.ok:
        ctx.check(not shared(a.value, b.value), "results share state", lambda: repr(shared(a.value, b.value)))
        ctx.check(not shared(a.value, v), "the result shares state with the value", lambda: repr(shared(a.value, v)))
        for m in mutables(a.value):
            if type(m) is list:
                m.append("modified")
            elif type(m) is dict:
                m["modified"] = 1
        ctx.check(unchanged(before, v), "modifying the result modified the value", lambda: repr(v))
        c = ctx.attempt(dump, v, ty.hint, observe=False)
        ctx.check(c.ok and same(c.value, b.value), "modifying a result changed a later one", lambda: f"{c!r} {b!r}")


# -- defaults


class Thing:
    """A default that is shared as it is in Python."""


THING = Thing()
MADE = []


def make():
    MADE.append({"made": []})
    return MADE[-1]


@dataclasses.dataclass
class Defaults:
    n: int = 5
    made: t.Dict[str, t.List[int]] = dataclasses.field(default_factory=make)
    items: t.List[int] = dataclasses.field(default_factory=list)
    opt: t.Optional[t.List[int]] = None
    thing: t.Any = THING
    tup: t.Tuple[int, ...] = (1, 2)


@dataclasses.dataclass
class Holder:
    a: t.Annotated[Defaults, Flattened()]
    b: Defaults = dataclasses.field(default_factory=lambda: Defaults(7))
    l: t.List[Defaults] = dataclasses.field(default_factory=list)


@harness("C14", "defaults", shards=[{"how": h} for h in ("alone", "list", "holder", "generic")], cover=["done"], bounds="3 loads, each with an arbitrary choice of fields present; results modified in between")
def defaults(ctx, how):
    del MADE[:]
    loaded = []
    given = []
    for i in range(3 if how == "alone" else 2):
        p = {}
        if ctx.flag(f"n{i}"):
            p["n"] = ctx.int(f"n{i}.v")
        if ctx.flag(f"made{i}"):
            p["made"] = {"x": [1]}
        if ctx.flag(f"items{i}"):
            p["items"] = [ctx.int(f"items{i}.v")]
        given.append(p)
    n = len(given)
    before = snap(given)
    if how == "alone":
        for p in given:
            m = len(MADE)
            got = ctx.attempt(load, p, Defaults)
            ctx.check(got.ok, "load", lambda: repr(got))
            loaded.append(got.value)
            ctx.check(len(MADE) == m + (0 if "made" in p else 1), "the factory is called once for every missing field", lambda: repr(MADE))
            got.value.items.append("junk")
            got.value.made["junk"] = 1
            got.value.items.pop()
            del got.value.made["junk"]
    elif how == "list":
        got = ctx.attempt(load, given, t.List[Defaults])
        ctx.check(got.ok, "load", lambda: repr(got))
        loaded = got.value
    elif how == "generic":
        got = ctx.attempt(load, {"content": given[0], "tags": given[1:]}, Box[Defaults])
        ctx.check(got.ok, "load", lambda: repr(got))
        loaded = [got.value.content] + got.value.tags
    else:
        got = ctx.attempt(load, dict(given[0], l=given[1:]), Holder)
        ctx.check(got.ok, "load", lambda: repr(got))
        loaded = [got.value.a] + got.value.l
        ctx.check(got.value.b.n == 7 and got.value.b.items == [], "default of the holder", lambda: repr(got.value))
        other = load({}, Holder)
        ctx.check(not shared(other, got.value), "defaults are shared", lambda: repr(shared(other, got.value)))
    ctx.check(len(loaded) == n, "number of results")
    for p, x in zip(given, loaded):
        ctx.check(x.n == (p["n"] if "n" in p else 5), "n", lambda: repr(x))
        ctx.check(x.items == (p["items"] if "items" in p else []), "items", lambda: repr(x))
        ctx.check(any([x.made is y for y in MADE]) if "made" not in p else x.made == {"x": [1]}, "made", lambda: repr(x))
        ctx.check(x.opt is None and x.thing is THING and x.tup == (1, 2), "other defaults", lambda: repr(x))
    for i in range(n):
        for j in range(i):
            ctx.check(not shared(loaded[i], loaded[j]), "results share their defaults", lambda: repr(shared(loaded[i], loaded[j])))
    ctx.check(unchanged(before, given), "payload modified", lambda: repr(given))
    x = Defaults()
    for y in loaded:
        ctx.check(not shared(x, y), "a result shares state with the class")
    ctx.check(x == Defaults(5, {"made": []}, [], None, THING, (1, 2)), "the defaults of the class were modified", lambda: repr(x))
    ctx.cover("done")


# -- histories of conversions on one mapper


class Cust:
    pass


@dataclasses.dataclass
class Gen(t.Generic[T_Var]):
    v: T_Var
    w: t.Optional["Gen[T_Var]"] = None


EXTRA = TDC("Extra14", F("a", INT), extra=True)
UNI = TTagged("flat", [("a", EXTRA), ("xy", XY)], "t")


def op_table(ctx, name):
    """The operations of which histories consist: name -> (mapper -> outcome)."""
    v = ctx.lazy(name + ".v", [("int", int, lambda: ctx.int(name + ".v")), ("str", str, lambda: ctx.str(name + ".v"))])
    return {
        "int": lambda m: m.deserialize(v, int),
        "int lenient": lambda m: m.deserialize(v, int, settings=[Strict(False)]),
        "xy": lambda m: m.deserialize({"x": v, "y": "y"}, XY.hint),
        "xy extra": lambda m: m.deserialize({"x": v, "y": "y", "z": 1}, XY.hint),
        "xy extra allowed": lambda m: m.deserialize({"x": v, "y": "y", "z": 1}, XY.hint, settings=[ExtraKeys()]),
        "xy annotated": lambda m: m.deserialize({"x": v, "y": "y", "z": 1}, t.Annotated[XY.hint, ExtraKeys()]),
        "xy dump": lambda m: m.serialize(XY.cls(x=v, y="y"), XY.hint),
        "box int": lambda m: m.deserialize({"content": v, "tags": []}, Box[int]),
        "box str": lambda m: m.deserialize({"content": v, "tags": []}, Box[str]),
        "box dump": lambda m: m.serialize(Box(v, [v]), Box[int]),
        "gen int": lambda m: m.deserialize({"v": v, "w": {"v": v}}, Gen[int]),
        "gen str": lambda m: m.serialize(Gen(v, Gen(v)), Gen[str]),
        "list": lambda m: m.deserialize([v], t.List[int]),
        "opt": lambda m: m.deserialize(v, t.Optional[str]),
        "union": lambda m: m.deserialize({"t": "xy", "x": v, "y": "q"}, UNI.hint),
        "union bad": lambda m: m.deserialize({"t": v, "x": 1}, UNI.hint),
        "union dump": lambda m: m.serialize(EXTRA.cls(a=v), UNI.hint),
        "defaults": lambda m: m.deserialize({"a": v}, DEF2.hint),
        "omit": lambda m: m.serialize(DEF2.cls(a=v), DEF2.hint, settings=[SerializeDefaults(False)]),
        "full": lambda m: m.serialize(DEF2.cls(a=v), DEF2.hint),
        "rem": lambda m: m.deserialize({"a": 1, "b": v, "c": v}, REM.hint),
        "enum": lambda m: m.deserialize(v, Pet),
        "node": lambda m: m.deserialize({"label": v, "kids": [{"label": "k"}]}, Node),
        "no converter": lambda m: m.deserialize(v, Cust),
    }


OPS = ["int", "int lenient", "xy", "xy extra", "xy extra allowed", "xy annotated", "xy dump", "box int", "box str", "box dump", "gen int", "gen str", "list", "opt", "union", "union bad", "union dump", "defaults", "omit", "full", "rem",
       "enum", "node", "no converter"]


def equal_outcomes(a, b):
    if a.ok != b.ok:
        return False
    if a.ok:
        return same(a.value, b.value)
    return type(a.exc) is type(b.exc) and len(getattr(a.exc, "errors", ())) == len(getattr(b.exc, "errors", ()))


@harness("C14", "history", shards=[{"last": x} for x in OPS], cover=["done"], bounds="two conversions (24 kinds each, with arbitrary scalars) on one mapper", thorough=[{"last": x, "n": 2} for x in OPS], max_paths=60000)
def history(ctx, last, n=1):
    m = get_object_mapper()
    table = op_table(ctx, "last")
    want = ctx.attempt(table[last], get_object_mapper(), observe=False)
    for i in range(n):
        first = ctx.choice(f"op{i}", OPS)
        ctx.attempt(op_table(ctx, f"op{i}.v")[first], m, observe=False)
    got = ctx.attempt(table[last], m)
    ctx.check(equal_outcomes(got, want), "another result after other conversions", lambda: f"{got!r} instead of {want!r}")
    again = ctx.attempt(table[last], get_object_mapper(), observe=False)
    ctx.check(equal_outcomes(again, want), "another result of a fresh mapper", lambda: f"{again!r} instead of {want!r}")
    ctx.cover("done")


# -- copies of settings and mappers


class Mark(Setting):
    def __init__(self, name):
        self.name = name


class Stub(Converter):
    def __init__(self, name, log):
        self.name, self.log = name, log

    def convert(self, ctx):
        self.log.append(self.name)
        raise NotImplementedError


def found(settings, hint=int):
    """The names of the marks in effect, in the order of lookup."""
    c = Context(None, Direction.SERIALIZE, None, TypeHint(hint), settings, Context.ROOT, Location.EMPTY, lambda x: None)
    out = {}
    for cls in CLASSES:
        s = c.get_setting(cls)
        out[cls.__name__] = None if s is None else s.name
    return out


CLASSES = [type(f"Mark{i}", (Mark,), {}) for i in range(3)]


@harness("C14", "settings_copies", shards=[{"start": s} for s in range(4)], cover=["done"], thorough=[{"start": s, "n": 4} for s in range(4)], bounds="3 (4) modifications of settings, a copy and a copy of the copy made at any time", max_paths=60000)
def settings_copies(ctx, start, n=3):
    """Reference: each settings object is a list of (place, mark); a copy copies the list."""
    parent = Settings()
    parent.add_global(CLASSES[2]("parent"))
    st = Settings(parent)
    every = [st]
    ref = [[]]
    count = 0

    def add(i, place):
        nonlocal count
        count += 1
        cls = CLASSES[(count + start) % 2]
        m = cls(f"m{count}")
        x = every[i]
        if place == 0:
            x.add_global(m)
        elif place == 1:
            x.add_local(int, m)
        elif place == 2:
            x.add_conditional(lambda c: True, m)
        else:
            x.add_provider(lambda c, m=m: [m])
        ref[i].append((place, m))

    add(0, start)
    for k in range(n):
        what = ctx.pick(f"op{k}", len(every) * 4 + (1 if len(every) < 3 else 0))
        if what == len(every) * 4:
            i = len(every) - 1
            every.append(every[i].copy())
            ref.append(list(ref[i]))
        else:
            add(what // 4, what % 4)
    for i, x in enumerate(every):
        got = found(x)
        for cls in CLASSES[:2]:
            names = [m.name for p in (1, 2, 0) for q, m in ref[i] if type(m) is cls and (q == p or (p == 2 and q == 3))]
            ctx.check(got[cls.__name__] == (names[0] if names else None), "settings of a copy", lambda: f"{got} instead of {names}")
        ctx.check(got["Mark2"] == "parent", "settings of the parent", lambda: repr(got))
        ctx.check(found(x, str)["Mark0"] == first_other(ref[i], CLASSES[0]), "settings of another type")
    ctx.check(type(every[-1]) is Settings and every[-1] is not every[0] or len(every) == 1, "copy")
    ctx.cover("done")


def first_other(entries, cls):
    names = [m.name for p in (2, 0) for q, m in entries if type(m) is cls and (q == p or (p == 2 and q == 3))]
    return names[0] if names else None


@harness("C14", "mapper_copies", shards=[{"n": 3, "full": f} for f in (True, False)], thorough=[{"n": 4, "full": f} for f in (True, False)], cover=["done"],
         bounds="3 (4) modifications of a mapper, a copy of it and a copy of that, made at any time", max_paths=60000)
def mapper_copies(ctx, n, full):
    """Reference: a mapper is a list of converters and a list of settings; a copy copies both."""
    st = Settings()
    base = get_object_mapper(st) if full else ObjectMapper(st)
    ctx.check(base.settings is st, "settings of the mapper")
    every = [base]
    log = []
    ref = [([], [])]
    if ctx.flag("before"):
        base.module.register(Stub("before", log))
        ref[0][0].append("before")
    for k in range(n):
        what = ctx.pick(f"op{k}", len(every) * 3 + (1 if len(every) < 3 else 0))
        if what == len(every) * 3:
            every.append(every[-1].copy())
            ref.append((list(ref[-1][0]), list(ref[-1][1])))
            continue
        i, op = what // 3, what % 3
        if op == 2:
            m = CLASSES[0](f"m{k}")
            every[i].settings.add_global(m)
            ref[i][1].append(f"m{k}")
        else:
            s = Stub(f"s{k}", log)
            every[i].module.register(s, first=op == 1)
            ref[i][0].insert(0 if op == 1 else len(ref[i][0]), f"s{k}")
    for i, m in enumerate(every):
        ctx.check(type(m) is ObjectMapper, "type of the copy")
        del log[:]
        got = ctx.attempt(m.deserialize, object(), Cust)
        ctx.check(not got.ok and isinstance(got.exc, ConversionError), "conversion", lambda: repr(got))
        ctx.check(log == ref[i][0], "converters of a copy", lambda: f"{log} instead of {ref[i][0]}")
        s = found(m.settings)["Mark0"]
        ctx.check(s == (ref[i][1][0] if ref[i][1] else None), "settings of a copy", lambda: f"{s} instead of {ref[i][1]}")
        if full:
            ctx.check(m.deserialize({"x": 1, "y": "y"}, XY.hint) == XY.cls(x=1, y="y"), "built-in conversions of a copy")
    ctx.check(found(get_object_mapper().settings)["Mark0"] is None and len(get_object_mapper().module.converters) == 1, "a fresh mapper")
    ctx.cover("done")


# -- settings given to a call, mapper and registry state


@harness("C14", "call_settings", shards=[{"how": h} for h in ("list", "settings", "mapper", "none")], cover=["done"], bounds="settings passed to one of two calls, every scalar")
def call_settings(ctx, how):
    v = scalar(ctx, "v", ("fin",))
    m = get_object_mapper()
    fresh = ctx.attempt(load, v, int, observe=False)
    lst = [Strict(False)]
    given = lst if how == "list" else Settings(m.settings, lst) if how == "settings" else None
    if how == "mapper":
        m2 = m.copy()
        m2.settings.add_global(lst[0])
        a = ctx.attempt(m2.deserialize, v, int)
    elif how == "none":
        a = ctx.attempt(m.deserialize, v, int, settings=[])
    else:
        a = ctx.attempt(m.deserialize, v, int, settings=given)
    ctx.check(len(lst) == 1 and len(m.settings.global_settings) == 0 and len(m.settings.providers) == 0 and len(m.settings.local_settings) == 0 and m.settings.parent is None, "the settings of the mapper were modified")
    lst.append(Strict(True))
    b = ctx.attempt(m.deserialize, v, int)
    ctx.check(equal_outcomes(fresh, b), "settings of an earlier call are still in effect", lambda: f"{b!r} instead of {fresh!r}")
    if how in ("list", "settings"):
        ref = ctx.attempt(load, v, int, settings=[Strict(False)], observe=False)
        ctx.check(equal_outcomes(a, ref), "the settings of the call", lambda: f"{a!r} instead of {ref!r}")
        if how == "settings":
            c = ctx.attempt(m.deserialize, v, int, settings=given)
            ctx.check(equal_outcomes(c, ref), "the list given to the settings is still used", lambda: f"{c!r} instead of {ref!r}")
    ctx.cover("done")


@harness("C14", "members", shards=[{"style": s} for s in ("nested", "flat", "keyed")], cover=["done"], bounds="a dictionary of members that is modified after it was given to a union; loads in between")
def members(ctx, style):
    table = {"xy": XY.cls}
    given = table if ctx.flag("dict") else [table]
    u = Union(given, style)
    hint = t.Annotated[t.Union[XY.cls, PQ.cls], object(), u]

    def attempt_xy():
        p = {"x": ctx_x, "y": "y"}
        p = {"xy": p} if style == "keyed" else {"type": "xy", "xy": p} if style == "nested" else {"type": "xy", "x": ctx_x, "y": "y"}
        return ctx.attempt(load, p, hint)

    ctx_x = ctx.int("x")
    if ctx.flag("early"):
        a = attempt_xy()
        ctx.check(a.ok and a.value == XY.cls(x=ctx_x, y="y"), "load", lambda: repr(a))
    table["pq"] = PQ.cls
    table["xy"] = PQ.cls
    b = attempt_xy()
    ctx.check(b.ok and b.value == XY.cls(x=ctx_x, y="y"), "modifying the dictionary modified the union", lambda: repr(b))
    ids = u.members.get_type_ids()
    ctx.check(ids == ["xy"], "members", lambda: repr(ids))
    ids.append("junk")
    ctx.check(u.members.get_type_ids() == ["xy"], "the list of IDs is the state of the union")
    ctx.check(list(table) == ["xy", "pq"], "the dictionary was modified")
    ctx.cover("done")


@harness("C14", "recorder", shards=[{}], cover=["done"], bounds="payloads with up to 2 unknown keys; a recorder that modifies what it is given")
def recorder(ctx):
    p = presence(ctx, "p", ["x"], lambda n, k: ctx.int(n), extra=2)
    before = snap(p)

    def rec(c, keys):
        keys.clear()

    got = ctx.attempt(load, p, TDC("OneX", F("x", INT, default=3)).hint, None, [ExtraKeys(True, rec)])
    ctx.check(got.ok, "load", lambda: repr(got))
    ctx.check(unchanged(before, p), "payload", lambda: repr(p))
    ctx.cover("done")
