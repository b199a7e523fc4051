"""Registries of union members map IDs and types both ways."""

import itertools
import os
import sys

from databind.core.union import ChainUnionMembers, EntrypointUnionMembers, ImportUnionMembers, StaticUnionMembers
from databind.json import dump, load
from props.mods import eps
from props.zoo import *
from symex.harness import harness
from typeapi import TypeHint

DIST = os.path.join(os.path.dirname(os.path.abspath(__file__)), "dist")
if DIST not in sys.path:
    sys.path.append(DIST)


@dataclasses.dataclass
class A:
    n: int = 0


@dataclasses.dataclass
class B:
    n: int = 0


@dataclasses.dataclass
class SubA(A):
    m: int = 0


TYPES = [A, B, SubA]
THINGS = [A, B, SubA, int, None, "A", A(), TypeHint(bytes), t.List[int], {"a": 1}]


class Lazy:
    """A member given by a function; knows when it was called."""

    def __init__(self, cls):
        self.cls = cls
        self.calls = 0

        def provider():
            self.calls += 1
            return cls

        self.member = provider


def member_of(ctx, name, k):
    """(what is registered, the type that it stands for)"""
    kind = ctx.choice(name, ["A", "B", "lazyA", "lazyB", "hint"][:k])
    if kind == "A" or kind == "B":
        return (A if kind == "A" else B), None
    if kind == "hint":
        return TypeHint(B), None
    lazy = Lazy(A if kind == "lazyA" else B)
    return lazy.member, lazy


class Model:
    """An ordered list of (id, type)."""

    def __init__(self, entries=()):
        self.entries = [list(e) for e in entries]

    def put(self, id_, m):
        for e in self.entries:
            if e[0] == id_:
                e[1] = m
                return
        self.entries.append([id_, m])

    def by_id(self, id_):
        for i, m in self.entries:
            if i == id_:
                return m
        raise Bad

    def id_of(self, ty):
        for i, m in self.entries:
            if type(ty) is type and m is ty:
                return i
        raise Bad

    def ids(self):
        return [i for i, m in self.entries]


class ChainModel:
    def __init__(self, models):
        self.models = models

    def by_id(self, id_):
        for m in self.models:
            try:
                return m.by_id(id_)
            except Bad:
                pass
        raise Bad

    def id_of(self, ty):
        for m in self.models:
            try:
                return m.id_of(ty)
            except Bad:
                pass
        raise Bad

    def ids(self):
        out = []
        for m in self.models:
            for i in m.ids():
                if i not in out:
                    out.append(i)
        return out


class ImportModel(Model):
    """Everything in this module and in eps by its full name."""

    WORLD = {f"{c.__module__}.{c.__qualname__}": c for c in (A, B, SubA, eps.A, eps.B, eps.C, eps.B.Inner, int)}

    def by_id(self, id_):
        for n, c in self.WORLD.items():
            if n == id_:
                return c
        raise Bad

    def id_of(self, ty):
        for n, c in self.WORLD.items():
            if c is ty:
                return n
        raise Bad

    def ids(self):
        return []


def type_(x):
    """The class a member stands for."""
    return x.type if isinstance(x, TypeHint) else x


def lookup_id(ctx, reg, model, id_, what):
    got = ctx.attempt(reg.get_type_by_id, id_)
    try:
        want = model.by_id(id_)
    except Bad:
        ctx.cover("unknown")
        ctx.check(not got.ok and isinstance(got.exc, ValueError), f"{what}: an unknown ID must be a value error", lambda: repr(got))
        return
    ctx.cover("known")
    ctx.check(got.ok and type_(got.value) is want, f"{what}: type of an ID", lambda: f"{id_!r}: {got!r}, not {want}")


def lookup_type(ctx, reg, model, ty, what):
    got = ctx.attempt(reg.get_type_id, ty)
    try:
        want = model.id_of(ty)
    except Bad:
        ctx.cover("unknown type")
        ctx.check(not got.ok and isinstance(got.exc, ValueError), f"{what}: an unknown type must be a value error", lambda: f"{ty!r} {got!r}")
        return
    ctx.check(got.ok and got.value == want, f"{what}: ID of a type", lambda: f"{ty}: {got!r}, not {want!r}")


def lookup_ids(ctx, reg, model, what):
    got = ctx.attempt(reg.get_type_ids)
    ctx.check(got.ok and same(list(got.value), model.ids()), f"{what}: list of IDs", lambda: f"{got!r}, not {model.ids()}")


OPS = ["put", "put2", "call", "del", "id", "type", "ids"]


def step(ctx, reg, model, op, n, kinds):
    """One operation of a history."""
    if op in ("put", "put2", "call"):
        what, lazy = member_of(ctx, f"m{n}", kinds)
        cls = lazy.cls if lazy else type_(what)
        if op == "call" and (lazy or what is not cls):
            op = "put"
        if op == "call":
            id_ = ctx.str(f"id{n}") if ctx.flag(f"named{n}") else None
            r = reg.register(id_)(what)
            ctx.check(r is what, "register returns the class")
            model.put(id_ if id_ is not None and id_ != "" else what.__name__, cls)
        else:
            id_ = ctx.str(f"id{n}")
            reg.members[id_] = what
            model.put(id_, cls)
        if lazy:
            ctx.check(lazy.calls == 0, "a lazy member is evaluated when it is registered")
    elif op == "id":
        lookup_id(ctx, reg, model, ctx.str(f"q{n}"), "lookup")
    elif op == "type":
        lookup_type(ctx, reg, model, ctx.choice(f"t{n}", [A, B]), "lookup")
    elif op == "ids":
        lookup_ids(ctx, reg, model, "lookup")


def final(ctx, reg, model, what):
    if ctx.flag("by id"):
        lookup_id(ctx, reg, model, ctx.str("q"), what)
    else:
        lookup_type(ctx, reg, model, ctx.choice("t", THINGS), what)
    for id_ in model.ids():
        got = ctx.attempt(reg.get_type_by_id, id_, observe=False)
        ctx.check(got.ok and type_(got.value) is model.by_id(id_), f"{what}: a listed ID", lambda: f"{id_!r}: {got!r}")
        if got.ok:
            again = ctx.attempt(reg.get_type_id, type_(got.value), observe=False)
            ctx.check(again.ok and again.value == model.id_of(type_(got.value)), f"{what}: type of a listed ID", lambda: f"{id_!r}: {again!r}")
    lookup_ids(ctx, reg, model, what)


HISTORIES = [["put", "call"], ["call", "id", "put"], ["put", "type", "put"], ["put", "id", "type", "call"], ["put", "ids", "call", "put"], ["call", "call", "put"]]
DEEP = [list(h) for h in itertools.product(["put", "call", "id", "type"], repeat=4) if h.count("put") + h.count("call") in (2, 3)]


@harness("C19", "static", shards=[{"ops": h} for h in HISTORIES], thorough=[{"ops": h} for h in HISTORIES + DEEP], cover=["known", "unknown", "unknown type"], bounds="histories of up to 4 operations (up to 3 registrations) with arbitrary IDs, 5 kinds of members; one more lookup of any kind", max_paths=40000)
def static(ctx, ops):
    """IDs are arbitrary strings, so that registering and looking up may or may not concern the same one."""
    reg = StaticUnionMembers({})
    puts = ops.count("put") + ops.count("call")
    if puts < 3 and ctx.flag("given"):
        reg = StaticUnionMembers({"first": A})
    model = Model([("first", A)] if reg.members else [])
    for n, op in enumerate(ops):
        step(ctx, reg, model, op, n, 2 if puts == 3 or n > 0 and len(ops) > 3 else 5)
    final(ctx, reg, model, "static")


ENTRIES = {
    "verif.one": Model([("ann", eps.A), ("bob", eps.B), ("again", eps.A), ("inner", eps.B.Inner)]),
    "verif.two": Model([("cee", eps.C), ("ann", eps.B), ("dotted.name", eps.A)]),
    "verif.none": Model(),
}
EP_THINGS = [eps.A, eps.B, eps.C, eps.B.Inner, A, None, "ann"]


@harness("C19", "entrypoints", shards=[{"group": g} for g in ENTRIES], cover=["unknown", "unknown type"], bounds="arbitrary IDs in 3 groups of entry points, in either order of lookups")
def entrypoints(ctx, group):
    reg = Union("!" + group).members if ctx.flag("union") else EntrypointUnionMembers(group)
    model = ENTRIES[group]
    # (entry points are not in the order of declaration, only each once)
    got = reg.get_type_ids() if ctx.flag("list first") else []
    lookup_id(ctx, reg, model, ctx.str("q"), "entry point")
    ty = ctx.choice("t", EP_THINGS)
    r = ctx.attempt(reg.get_type_id, ty)
    ids = [i for i, m in model.entries if m is ty]
    ctx.check(r.value in ids if r.ok else isinstance(r.exc, ValueError) and not ids, "ID of a type", lambda: f"{ty} {r!r}")
    if not ids:
        ctx.cover("unknown type")
    got = reg.get_type_ids()
    ctx.check(sorted(got) == sorted(model.ids()), "list of IDs", lambda: repr(got))


# -- importing

NAMES = ["vroot", "vroot.a", "vroot.a.b", "vroot.K", "vroot.a.K", "vroot.a.K.N", "vroot.K.N", "vroot.a.b.K", "vroot.a.f", "vroot.x", "vroot.a.K.x", "vother.K", "", ".", "vroot.", ".K", "vroot..K", "vroot.a.K.", "vroot .K", "vroot.a.K.N.__class__", "int", "builtins.int"]


def fake_modules(ctx):
    """A package with a module in it, and classes of the same name in several places."""

    def cls(name):
        return type(name, (), {"__module__": "vroot"})

    mods = {}
    names = ["vroot"] + (["vroot.a"] if ctx.flag("has a") else [])
    names += ["vroot.a.b"] if "vroot.a" in names and ctx.flag("has b") else []
    for n in names:
        m = mods[n] = types.ModuleType(n)
        m.__path__ = []
    for n in names[1:]:
        parent, _, last = n.rpartition(".")
        setattr(mods[parent], last, mods[n])
    world = {"builtins.int": int}
    for n in names:
        k = cls("K")
        k.N = cls("N")
        mods[n].K = k
        world[n + ".K"] = k
        world[n + ".K.N"] = k.N
        world[n + ".K.N.__class__"] = type
        mods[n].f = fake_modules
    if "vroot.a" not in names and ctx.flag("a is a class"):
        k = cls("a")
        k.K = cls("K")
        mods["vroot"].a = k
        world["vroot.a"] = k
        world["vroot.a.K"] = k.K
    return mods, world


@harness("C19", "imports", cover=["known", "unknown"], bounds="23 names in every variant of a small package")
def imports(ctx):
    mods, world = fake_modules(ctx)
    reg = Union("<import>").members if ctx.flag("union") else ImportUnionMembers()
    name = ctx.choice("name", NAMES)
    sys.modules.update(mods)
    try:
        got = ctx.attempt(reg.get_type_by_id, name, observe=False)
    finally:
        for n in mods:
            del sys.modules[n]
    if name in world:
        ctx.cover("known")
        ctx.check(got.ok and got.value is world[name], "type of an ID", lambda: f"{name}: {got!r}")
    else:
        ctx.cover("unknown")
        ctx.check(not got.ok and isinstance(got.exc, ValueError), "an unknown ID must be a value error", lambda: f"{name} {got!r}")


FRESH = "props.mods.fresh"
FRESH_TYPES = ["K", "K.N", "leaf.K", "leaf.K.N", "inner.leaf.K", "inner.leaf.K.N"]
FRESH_OTHERS = ["", "leaf", "inner", "inner.K", "inner.leaf", "inner.leaf.X", "inner.leaf.K.X", "inner.X.K", "X", "leaf.leaf.K", "leaf.leaf"]


def forget():
    for n in [n for n in sys.modules if n == FRESH or n.startswith(FRESH + ".")]:
        del sys.modules[n]
    import props.mods

    if hasattr(props.mods, "fresh"):
        del props.mods.fresh


@harness("C19", "import_fresh", cover=["known", "unknown"], bounds="17 names of things in a package with modules at three levels that were not imported before, each looked up after any other one; directly and as the member of a union")
def import_fresh(ctx):
    """A module is imported if it is needed to find a type."""
    union = ctx.flag("union")
    first = ctx.choice("first", FRESH_TYPES + FRESH_OTHERS[:4] + [None])
    name = ctx.choice("name", FRESH_TYPES if union else FRESH_TYPES + FRESH_OTHERS)
    forget()
    try:
        reg = ImportUnionMembers()
        if first is not None:
            ctx.attempt(reg.get_type_by_id, f"{FRESH}.{first}" if first else FRESH, observe=False)
        full = f"{FRESH}.{name}" if name else FRESH
        if union:
            got = ctx.attempt(load, {full: {}}, Imported, observe=False)
            if name == "inner.leaf.K":
                ctx.cover("known")
                ctx.check(got.ok and type(got.value) is sys.modules[FRESH + ".inner.leaf"].K and got.value.n == 0, "loads the class", lambda: repr(got))
                back = ctx.attempt(dump, got.value, Imported, observe=False)
                ctx.check(back.ok and back.value == {full: {"n": 0}}, "dumps the class", lambda: repr(back))
            else:
                ctx.check(not got.ok and isinstance(got.exc, ConversionError), "no class with fields", lambda: repr(got))
            return
        got = ctx.attempt(reg.get_type_by_id, full, observe=False)
        if name in FRESH_TYPES:
            ctx.cover("known")
            mod, _, cls = full.partition(".K")
            want = sys.modules[mod].K
            ctx.check(got.ok and got.value is (want.N if cls else want), "type of an ID", lambda: f"{full}: {got!r}")
        else:
            ctx.cover("unknown")
            ctx.check(not got.ok and isinstance(got.exc, ValueError), "an unknown ID must be a value error", lambda: f"{full} {got!r}")
    finally:
        forget()


@Union("<import>", style="keyed")
class Imported:
    pass


@harness("C19", "import_types", cover=["back", "refused"], bounds="classes at module level, nested, local, built-in; other things")
def import_types(ctx):
    class Local:
        pass

    reg = ImportUnionMembers()
    th = ctx.choice("thing", [A, SubA, eps.B.Inner, int, dict, Union, StaticUnionMembers, Local, None, "A", 3, TypeHint(int), t.List[int], A()])
    got = ctx.attempt(reg.get_type_id, th)
    if isinstance(th, type) and th is not Local:
        ctx.cover("back")
        ctx.check(got.ok and got.value == f"{th.__module__}.{th.__qualname__}", "ID of a type", lambda: repr(got))
        back = ctx.attempt(reg.get_type_by_id, got.value)
        ctx.check(back.ok and back.value is th, "type of the ID", lambda: f"{th} {back!r}")
    else:
        ctx.cover("refused")
        ctx.check(not got.ok and isinstance(got.exc, ValueError), "no type", lambda: f"{th} {got!r}")


# -- chains

KINDS = ["static", "import", "entry", "chain"]


def registry(ctx, kind, name, n):
    if kind == "static":
        reg, model = StaticUnionMembers({}), Model()
        for i in range(n):
            m, lazy = member_of(ctx, f"{name}.m{i}", 2 if i else 3)
            id_ = ctx.str(f"{name}.id{i}")
            reg.members[id_] = m
            model.put(id_, lazy.cls if lazy else m)
        return reg, model
    if kind == "import":
        return ImportUnionMembers(), ImportModel()
    if kind == "entry":
        return EntrypointUnionMembers("verif.one"), ENTRIES["verif.one"]
    reg, model = StaticUnionMembers({"in": A}), Model([("in", A)])
    reg2, model2 = StaticUnionMembers({"in": B, "second": B}), Model([("in", B), ("second", B)])
    return ChainUnionMembers(reg, reg2), ChainModel([model, model2])


CHAINS = [[a, b] for a in KINDS for b in KINDS] + [[], ["static"], ["static", "static", "chain"]]
NAMED = ["ann", "first", "in", "second", "nope", "props.c19.A", "props.mods.eps.B.Inner", "props.c19.Nope", "builtins.int", ""]


@harness("C19", "chain", shards=[{"kinds": k, "ask": q} for k in CHAINS for q in ("id", "type", "ids", "later")], cover=["asked"], bounds="chains of up to three registries of any kind, static ones with one or two arbitrary IDs; arbitrary lookups; a registration in between", max_paths=40000)
def chain(ctx, kinds, ask):
    pairs = [registry(ctx, k, f"r{i}", 2 if kinds.count("static") < 2 else 2 - i) for i, k in enumerate(kinds)]
    regs = [r for r, m in pairs]
    model = ChainModel([m for r, m in pairs])
    reg = Union(list(regs)).members if ctx.flag("union") else ChainUnionMembers(*regs)
    ctx.cover("asked")
    if ask == "type":
        lookup_type(ctx, reg, model, ctx.choice("t", [A, B, SubA, eps.A, eps.B.Inner, None, "A"]), "chain")
    elif ask == "ids":
        got = ctx.attempt(reg.get_type_ids)
        want = model.ids()
        if "entry" not in kinds:
            ctx.check(got.ok and same(got.value, want), "list of IDs", lambda: f"{got!r}, not {want}")
        else:
            ctx.check(got.ok and len(got.value) == len(want) and all([i in got.value for i in want]), "list of IDs", lambda: repr(got))
    else:
        # (importing needs to know the name)
        id_ = ctx.choice("q", NAMED) if "import" in kinds else ctx.str("q")
        if ask == "later":
            for r, m in reversed(pairs):
                if type(r) is StaticUnionMembers:
                    if ctx.flag("before"):
                        lookup_id(ctx, reg, model, id_, "chain")
                    new = ctx.str("new")
                    r.members[new] = SubA
                    m.put(new, SubA)
                    lookup_type(ctx, reg, model, SubA, "chain")
                    break
        lookup_id(ctx, reg, model, id_, "chain")


# -- what the union setting makes of its argument


@harness("C19", "setting", cover=["refused", "accepted"], bounds="every form of the argument, arbitrary strings")
def setting(ctx):
    kind = ctx.choice("kind", ["none", "empty", "dict", "list", "string", "import", "group", "registry", "nested"])
    if kind == "string":
        s = ctx.str("s")
        ctx.assume(neg(s.startswith("!")))
        got = ctx.attempt(Union, s, observe=False)
        if s == "<import>":
            ctx.cover("accepted")
            ctx.check(got.ok and type(got.value.members) is ImportUnionMembers, "import", lambda: repr(got))
        else:
            ctx.cover("refused")
            ctx.check(not got.ok and isinstance(got.exc, ValueError), "invalid string", lambda: repr(got))
        return
    ctx.cover("accepted")
    st = StaticUnionMembers({"s": SubA})
    arg = {
        "none": None, "empty": {}, "dict": {"a": A, "b": lambda: B}, "list": [{"a": A}, "!verif.two", {"a": B, "c": B}, "<import>"], "import": "<import>",
        "group": "!verif.one", "registry": st, "nested": [st, ChainUnionMembers(st)],
    }[kind]
    u = Union(arg)
    ctx.check(Union(arg).members is not u.members or kind == "registry", "a registry is shared")
    ids = {
        "none": [], "empty": [], "dict": ["a", "b"], "list": ["a", "cee", "ann", "dotted.name", "c"], "import": None,
        "group": ["ann", "bob", "again", "inner"], "registry": ["s"], "nested": ["s"],
    }[kind]
    got = ctx.attempt(u.members.get_type_ids, observe=False)
    ctx.check(sorted(got.value) == sorted(ids) if ids is not None else isinstance(got.exc, NotImplementedError), "IDs", lambda: repr(got))
    ctx.check(u.style == "nested" and u.discriminator_key == "type" and u.nesting_key is None, "defaults")
    if kind in ("none", "empty", "dict"):
        u.members.register(None)(SubA)
        ctx.check(u.members.get_type_by_id("SubA") is SubA, "registered")
        ctx.check("SubA" not in Union(arg).members.get_type_ids() and "SubA" not in Union().members.get_type_ids(), "registered for all unions")
    if kind == "list":
        ctx.check(u.members.get_type_by_id("a") is A and u.members.get_type_by_id("c") is B and u.members.get_type_by_id("ann") is eps.B, "types")
        ctx.check(u.members.get_type_by_id("props.c19.SubA") is SubA and u.members.get_type_id(SubA) == "props.c19.SubA", "import")


# -- as seen by load and dump


@harness("C19", "register", shards=[{"style": s} for s in ("keyed", "nested", "flat")], cover=["known", "unknown"], bounds="two registrations with arbitrary names, before and after a conversion", max_paths=40000)
def register(ctx, style):
    """Classes registered by Union.register are found by load and dump from then on."""

    @Union(style=style)
    class Base:
        pass

    def make(name):
        @dataclasses.dataclass
        class Member(Base):
            n: int = 0

        Member.__name__ = name
        return Member

    M1, M2 = make("M1"), make("M2")
    model = Model()

    def reg(ctx, cls, n):
        id_ = ctx.str(n) if ctx.flag(n + ".named") else None
        ctx.check(Union.register(Base, id_)(cls) is cls, "returns the class")
        if id_ is not None:
            ctx.assume(id_ != "type")
        model.put(cls.__name__ if id_ is None or id_ == "" else id_, cls)

    def convert(n, q):
        v = 3
        p = {"keyed": lambda: {q: {"n": v}}, "nested": lambda: {"type": q, q: {"n": v}}, "flat": lambda: {"type": q, "n": v}}[style]()
        got = ctx.attempt(load, p, Base)
        try:
            want = model.by_id(q)
        except Bad:
            want = None
        if want is None:
            ctx.cover("unknown")
            ctx.check(not got.ok and isinstance(got.exc, ConversionError), "unknown ID", lambda: repr(got))
        else:
            ctx.cover("known")
            ctx.check(got.ok and type(got.value) is want and got.value.n == 3, "type of the ID", lambda: f"{p}: {got!r}")
        x = (M1 if ctx.flag(n + ".1") else M2)(4)
        got = ctx.attempt(dump, x, Base)
        try:
            i = model.id_of(type(x))
        except Bad:
            ctx.check(not got.ok and isinstance(got.exc, ConversionError), "no member", lambda: repr(got))
        else:
            want = {"keyed": lambda: {i: {"n": 4}}, "nested": lambda: {"type": i, i: {"n": 4}}, "flat": lambda: {"type": i, "n": 4}}[style]()
            ctx.check(got.ok and same(got.value, want), "ID of the type", lambda: f"{got!r}")

    q = ctx.str("q")
    ctx.assume(q != "type")
    reg(ctx, M1, "id1")
    if ctx.flag("between"):
        convert("first", q)
    reg(ctx, M2, "id2")
    convert("last", q)


@harness("C19", "misuse", cover=["done"], bounds="classes without a union setting, with another registry, that are no subclasses")
def misuse(ctx):
    members = ctx.choice("members", [None, "<import>", "!verif.one", [{}]])

    @Union(members)
    class Base:
        pass

    class Plain:
        pass

    class Sub(Base):
        pass

    on = ctx.choice("on", [Base, Plain, Sub])
    cls = ctx.choice("cls", [Sub, Plain, int])
    name = ctx.str("name")
    got = ctx.attempt(lambda: Union.register(on, name)(cls), observe=False)
    ctx.check(got.ok == (members is None and on is Base and cls is Sub), "registration", lambda: f"{on} {cls}: {got!r}")
    ctx.cover("done")
