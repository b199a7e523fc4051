"""Setting lookup: priority first, then the most specific place."""

from databind.core import Context, Direction, Location, ObjectMapper, Priority, Setting, Settings, Strict
from databind.core.settings import (
    BooleanSetting, ClassDecoratorSetting, DeserializeAs, Priority as P, get_annotation_setting, get_class_setting, get_class_settings, get_highest_setting,
)
from databind.json import dump, get_object_mapper, load
from typeapi import TypeHint
from props.zoo import *
from symex.ctx import enum_int
from symex.harness import harness


class Mark(Setting):
    """A setting without any meaning."""

    def __init__(self, name, priority):
        self.name = name
        self.priority = priority

    def __repr__(self):
        return f"Mark({self.name})"


class SubMark(Mark):
    """Is found when looking for a Mark."""


class Other(Setting):
    def __init__(self, priority):
        self.priority = priority


class ClsMark(ClassDecoratorSetting):
    def __init__(self, name, priority=Priority.NORMAL):
        self.name = name
        self.priority = priority


class ClsOther(ClassDecoratorSetting):
    priority = Priority.ULTIMATE


def context(hint, settings=None, value=None, parent=None, key=None):
    th = hint if isinstance(hint, TypeHint) else TypeHint(hint)
    root = Context(None, Direction.SERIALIZE, value, TypeHint(dict), settings or Settings(), Context.ROOT, Location.EMPTY, lambda c: c.value)
    return root.spawn(value, th, key)


def annotated(hint, items):
    return t.Annotated[tuple([hint, object()] + items)] if items else hint


class Places:
    """Marks at the places given, each present or not, with an arbitrary priority."""

    def __init__(self, ctx, places, kinds=(Mark,)):
        self.ctx = ctx
        self.found = {}
        self.order = []
        for p in places:
            n = ctx.pick(p + ".n", 2)
            self.found[p] = [self.mark(f"{p}{i}") for i in range(n)]

    def mark(self, name):
        return Mark(name, enum_int(self.ctx, name + ".prio", Priority))

    def first(self, *places):
        out = []
        for p in places:
            out.extend(self.found.get(p, ()))
        return effective(out)


class Plain:
    pass


class Sub(Plain):
    pass


def expect(ctx, got, want):
    ctx.check(got is want, "not the setting of highest priority at the most specific place", lambda: f"{got!r} instead of {want!r}")
    ctx.cover("none" if want is None else "some")


COMBOS = [
    ("annotation", "local", "global"), ("annotation", "annotation2", "global"), ("annotation", "conditional", "provider"), ("local", "local2", "conditional"),
    ("local", "provider", "global"), ("conditional", "provider", "conditional2"), ("provider", "conditional", "global"), ("global", "global2", "parent"),
    ("annotation", "parent", "call"), ("local", "call", "global"), ("conditional", "call", "parent"), ("call", "call2", "global"), ("provider2", "provider", "parent"),
    ("annotation", "local", "conditional", "parent"), ("local", "provider", "global", "call"), ("annotation", "conditional", "global", "call"),
]


def build(ctx, m, hint, pytype):
    """(hint, settings, order) with the marks of *m*."""
    f = lambda n: m.found.get(n, [])  # noqa: E731
    o = Other(Priority.ULTIMATE)
    ann = [o] + f("annotation") + f("annotation2")
    parent = None
    if "parent" in m.found:
        parent = Settings()
        for s in f("parent"):
            parent.add_global(s)
        parent.add_local(Sub, Mark("parent of another type", Priority.ULTIMATE))
    st = Settings(parent, [o])
    for s in f("global") + f("global2"):
        st.add_global(s)
    providers = []
    for p in m.found:  # in the order given
        for s in f(p):
            if p.startswith("conditional"):
                st.add_conditional(lambda c: c.key == "here", s)
                providers.append(s)
            elif p.startswith("provider"):
                st.add_provider(lambda c, s=s: [Other(Priority.ULTIMATE), s])
                providers.append(s)
    st.add_conditional(lambda c: c.key != "here", Mark("elsewhere", Priority.ULTIMATE))
    for s in f("local") + f("local2"):
        st.add_local(pytype, s)
    st.add_local(Sub, Mark("derived", Priority.ULTIMATE))
    st.add_local(object, Mark("base", Priority.ULTIMATE))
    st.add_local(type(None), Mark("value", Priority.ULTIMATE))
    own = f("local") + f("local2") + providers + f("global") + f("global2") + f("parent")
    calls = f("call") + f("call2")
    return annotated(hint, ann), st, calls, f("annotation") + f("annotation2") + calls + own


@harness("C11", "lookup", shards=[{"places": c, "hint": h} for c in COMBOS for h in ("class", "list")], cover=["some", "none"],
         bounds="up to 4 places with up to 1 setting each, arbitrary priorities")
def lookup(ctx, places, hint):
    m = Places(ctx, places)
    base, pytype = (Plain, Plain) if hint == "class" else (t.List[int], list)
    h, st, calls, order = build(ctx, m, base, pytype)
    if calls:
        st = Settings(st, calls)
    c = context(h, st, key="here")
    got = ctx.attempt(c.get_setting, Mark)
    ctx.check(got.ok, "lookup failed", lambda: repr(got.exc))
    if got.ok:
        expect(ctx, got.value, effective(order))
    # a context at another position, and of another type
    c2 = context(h, st, key="other")
    got = c2.get_setting(Mark)
    ctx.check(got is not None and got.name == "elsewhere" or conj(*[s.priority == 3 for s in [got] if s is not None]), "conditional setting at another position", lambda: repr(got))


# every place at once, in particular class decorators
D1, D2 = ClsMark("decorator1"), ClsMark("decorator2")
DB = ClsMark("decorator of the base", Priority.ULTIMATE)
DS = ClsMark("decorator of the derived", Priority.ULTIMATE)


@DB
class DBase:
    pass


@ClsOther()
@D2
@D1
class Deco(DBase):
    pass


@DS
class DSub(Deco):
    pass


class DNone(Deco):
    pass


@harness("C11", "decorators", shards=[{"where": w} for w in ("class", "with_annotation", "with_local", "with_call", "sub", "generic")], cover=["some"],
         bounds="two decorators of one class, a setting at another place, arbitrary priorities")
def decorators(ctx, where):
    D1.priority = enum_int(ctx, "d1", Priority)
    D2.priority = enum_int(ctx, "d2", Priority)
    x = ClsMark("x", enum_int(ctx, "x", Priority))
    st = Settings()
    if where == "sub":
        got = context(DNone, st).get_setting(ClsMark)
        ctx.check(got is None, "the setting of a base class was found", lambda: repr(got))
        got = context(t.Type[Deco], st).get_setting(ClsMark)
        ctx.check(got is None, "the setting of a type argument was found", lambda: repr(got))
        got = context(t.List[Deco], st).get_setting(ClsMark)
        ctx.check(got is None, "the setting of an element type was found", lambda: repr(got))
        ctx.check(get_class_setting(DSub, ClsMark) is DS, "setting of the derived class")
        ctx.check(get_class_setting(DBase, ClsMark) is DB, "setting of the base class")
        ctx.check(list(get_class_settings(Deco, ClsMark)) == [D1, D2], "settings of the class")
        ctx.check(get_class_setting(Deco, ClsMark) is effective([D1, D2]), "highest setting of the class")
        ctx.cover("some")
        return
    h, order = Deco, [D1, D2]
    if where == "with_annotation":
        h, order = annotated(Deco, [x]), [x, D1, D2]
        ctx.check(get_annotation_setting(TypeHint(h), ClsMark) is x, "annotation setting")
    elif where == "with_local":
        st.add_local(Deco, x)
        order = [D1, D2, x]
    elif where == "with_call":
        st = Settings(st, [x])
        order = [D1, D2, x]
    elif where == "generic":
        h = annotated(Deco, [])
        st.add_global(x)
        order = [D1, D2, x]
    expect(ctx, context(h, st).get_setting(ClsMark), effective(order))


@harness("C11", "types", cover=["some", "none"], bounds="settings of 3 related types at 3 places, arbitrary priorities")
def types_(ctx):
    """Settings are looked up by type, instances of subtypes count."""
    a, b, c = (enum_int(ctx, n, Priority) for n in "abc")
    marks = [Mark("a", a), SubMark("b", b), Other(c)]
    where = ctx.pick("where", 3)
    st = Settings(None, [marks[where]])
    ann = [m for i, m in enumerate(marks) if i != where]
    ctx_ = context(annotated(int, ann), st)
    order = ann + [marks[where]]
    for ty in (Mark, SubMark, Other, Setting):
        expect(ctx, ctx_.get_setting(ty), effective([m for m in order if isinstance(m, ty)]))
    ctx.check(ctx_.get_setting(Strict) is None, "found a setting of another type")
    ctx.cover("none")


@harness("C11", "highest", cover=["some", "none"], bounds="up to 4 settings of arbitrary priority")
def highest(ctx):
    n = ctx.pick("n", 5)
    ms = [Mark(str(i), enum_int(ctx, f"p{i}", Priority)) for i in range(n)]
    expect(ctx, get_highest_setting(iter(ms)), effective(ms))


@harness("C11", "decorate", cover=["done"], bounds="histories of decorations")
def decorate(ctx):
    """One instance decorates one class; decorating keeps the class and the earlier settings."""
    base = type("Base", (), {})
    names = []
    for i in range(ctx.pick("base.n", 3)):
        ctx.check(ClsMark(f"b{i}")(base) is base, "the class was replaced")
        names.append(f"b{i}")
    sub = type("Sub", (base,), {})
    m = ClsMark("s")
    m(sub)
    for i in range(ctx.pick("base.later", 2)):
        ClsMark(f"l{i}")(base)
        names.append(f"l{i}")
    ctx.check([s.name for s in get_class_settings(base, ClsMark)] == names, "settings of the base class", lambda: repr(names))
    ctx.check([s.name for s in get_class_settings(sub, ClsMark)] == ["s"], "settings of the derived class")
    ctx.check(m.bound_to is sub, "bound_to")
    got = ctx.attempt(m, base if ctx.flag("other") else sub)
    ctx.check(not got.ok and isinstance(got.exc, RuntimeError), "the same instance decorated twice", lambda: repr(got))
    ctx.check([s.name for s in get_class_settings(base, ClsMark)] == names, "settings of the base class changed")
    ctx.cover("done")


# -- end to end: the mapper uses the setting in effect


@dataclasses.dataclass
class Strange:
    """Loaded by different classes depending on the settings."""

    x: int = 0


ALTS = {n: dataclasses.make_dataclass("Alt_" + n, [("x", int, 0)], module=MOD) for n in
        ("annotation", "annotation2", "local", "conditional", "provider", "global", "global2", "parent", "call", "elsewhere", "never")}


@harness("C11", "mapper", shards=[{"place": p, "how": h} for p in PLACES + ("three", "more") for h in ("root", "list", "field")], cover=["done"],
         bounds="one object at the root, in a list or in a field; settings with arbitrary priorities at up to 4 places")
def mapper(ctx, place, how):
    a = Arranged(ctx, place, lambda n, p: DeserializeAs(ALTS[n], p), Strange, Strange)
    m = get_object_mapper(a.settings)
    x = ctx.int("x")
    want = a.eff.type if a.eff is not None else Strange
    hint, v = a.hint, {"x": x}
    if how == "list":
        hint, v = t.List[a.hint], [v]
    elif how == "field":
        hint, v = dataclasses.make_dataclass("Holder", [("f", a.hint), ("g", int, 1)], module=MOD), {"f": v}
        if place in ("conditional", "global", "provider", "parent", "call", "two", "three", "more"):
            hint = None  # the setting also applies to the holder
    elif how == "root":
        pass
    if hint is None:
        ctx.cover("done")
        return
    got = ctx.attempt(m.deserialize, v, hint, settings=a.call, observe=False)
    ctx.check(got.ok, "load", lambda: repr(got.exc))
    if got.ok:
        r = got.value[0] if how == "list" else got.value.f if how == "field" else got.value
        ctx.check(type(r) is want, "another setting was used", lambda: f"{type(r)} instead of {want}")
        ctx.check(r.x == x, "wrong value")
    ctx.cover("done")


@harness("C11", "history", shards=[{"n": 2, "late": x} for x in ("none", "global", "local", "conditional", "parent")], thorough=[{"n": 3, "late": x} for x in ("none", "global", "local", "conditional", "parent")],
         cover=["some", "none"], bounds="2 (3) lookups at up to 3 positions, 2 providers that may apply to any of them, arbitrary priorities, one more setting added between two lookups", max_paths=60000)
def history(ctx, n, late):
    """A lookup depends on nothing but the settings and the context, not on the lookups before."""
    keys = ["k0", "k1", "k2"]
    ms = [Mark(f"m{i}", enum_int(ctx, f"p{i}", Priority)) for i in range(2)]
    table = {(i, k): ctx.flag(f"applies{i}.{k}") for i in range(2) for k in keys[:2]}
    applies = lambda i, k: table.get((i, k), False)  # noqa: E731
    parent = Settings()
    st = Settings(parent)
    st.add_conditional(lambda c: applies(0, c.key), ms[0])
    st.add_provider(lambda c: [ms[1]] if applies(1, c.key) else [])
    order = [(m, lambda k, i=i: applies(i, k)) for i, m in enumerate(ms)]
    extra = Mark("late", enum_int(ctx, "late.p", Priority))
    types = [Mark, Setting, Other]
    for step in range(n + 1):
        k = keys[ctx.pick(f"key{step}", 3 if step < n else 2)]
        ty = types[ctx.pick(f"type{step}", 3)] if step < n else Mark
        want = effective([m for m, f in order if f(k)]) if ty is not Other else None
        expect(ctx, context(Plain, st, key=k).get_setting(ty), want)
        if step == 0 and late != "none":
            if late == "global":
                st.add_global(extra)
                order.append((extra, lambda k: True))
            elif late == "local":
                st.add_local(Plain, extra)
                order.insert(0, (extra, lambda k: True))
            elif late == "conditional":
                st.add_conditional(lambda c: c.key == "k1", extra)
                order.append((extra, lambda k: k == "k1"))
            else:
                parent.add_global(extra)
                order.append((extra, lambda k: True))
