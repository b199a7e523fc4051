"""Converters are tried in order and errors are kept."""

from databind.core import Context, ConversionError, Converter, Direction, Location, Module, NoMatchingConverter, ObjectMapper, Settings
from databind.json import get_object_mapper, load
from typeapi import TypeHint
from props.zoo import *
from symex.harness import harness

HOW = ("result", "declines", "fails", "no match", "value error", "type error", "key error", "sub error", "declines2", "fails below", "same text")
FAILS = ("fails", "no match", "sub error", "fails below", "same text")


class SubError(ConversionError):
    pass


class Declined(NotImplementedError):
    pass


class Stub(Converter):
    def __init__(self, name, log, how, result):
        self.name = name
        self.log = log
        self.how = how
        self.result = result
        self.exc = None

    def convert(self, ctx):
        self.log.append((self, ctx))
        h = self.how
        if h == "result":
            return self.result
        if h == "declines":
            raise NotImplementedError(self.name)
        if h == "declines2":
            raise Declined
        if self.exc is not None:
            raise self.exc
        if h == "fails":
            self.exc = ConversionError(self, ctx, self.name)
        elif h == "no match":
            self.exc = NoMatchingConverter(self, ctx, [])
        elif h == "fails below":  # about a nested value, and with errors of its own
            self.exc = ConversionError(self, ctx.spawn(1, str, "sub"), self.name, [(self, ConversionError(self, ctx, "inner"))])
        elif h == "same text":
            self.exc = ConversionError(self, ctx, "same")
        elif h == "sub error":
            self.exc = SubError(self, ctx, self.name)
        elif h == "value error":
            self.exc = ValueError(self.name)
        elif h == "type error":
            self.exc = TypeError(self.name)
        else:
            self.exc = KeyError(self.name)
        raise self.exc


class OneWay(Converter):
    """Implements one of the two methods only."""

    def __init__(self, log, result, ser):
        self.log, self.result = log, result
        if ser:
            self.serialize = lambda ctx: self.run(ctx, Direction.SERIALIZE)
        else:
            self.deserialize = lambda ctx: self.run(ctx, Direction.DESERIALIZE)

    def run(self, ctx, d):
        self.log.append((self, ctx))
        assert ctx.direction == d
        return self.result


def new_context(value, hint=int, convert=None, ser=True):
    d = Direction.SERIALIZE if ser else Direction.DESERIALIZE
    return Context(None, d, value, TypeHint(hint), Settings(), Context.ROOT, Location.EMPTY, convert or (lambda c: c.value))


def judge(ctx, got, order, log, origin, c):
    """The outcome against the plan of the converters in *order*."""
    asked, errors, final = [], [], None
    for s in order:
        asked.append(s)
        if s.how in ("result", "value error", "type error", "key error"):
            final = s
            break
        if s.how in FAILS:
            errors.append(s)
    ctx.check([x[0].name for x in log] == [s.name for s in asked], "converters are not asked in order", lambda: f"{[x[0].name for x in log]} instead of {[s.name for s in asked]}")
    if c is not None:
        ctx.check(all([x[1] is c for x in log]), "a converter was given another context", lambda: repr(log))
    if final is not None and final.how == "result":
        ctx.cover("result")
        ctx.check(got.ok and got.value is final.result, "not the first result", lambda: repr(got))
        return
    ctx.check(not got.ok, "a result although no converter gave one", lambda: repr(got))
    if got.ok:
        return
    if final is not None:
        ctx.cover("other")
        ctx.check(got.exc is final.exc, "another exception does not pass through", lambda: repr(got.exc))
    elif len(errors) == 1:
        ctx.cover("single")
        ctx.check(got.exc is errors[0].exc, "the only error is not raised as it is", lambda: repr(got.exc))
    else:
        ctx.cover("none" if not errors else "several")
        ctx.check(type(got.exc) is NoMatchingConverter, "not a NoMatchingConverter", lambda: repr(got.exc))
        if type(got.exc) is NoMatchingConverter:
            ctx.check([e[0].name for e in got.exc.errors] == [s.name for s in errors], "the converters of the remembered errors", lambda: repr(got.exc.errors))
            ctx.check(all([e[1] is s.exc for e, s in zip(got.exc.errors, errors)]), "the remembered errors", lambda: repr(got.exc.errors))
            ctx.check(all([s.exc.message in str(got.exc) for s in errors]), "the text does not contain the remembered errors", lambda: str(got.exc))
            ctx.check(got.exc.origin is origin, "origin", lambda: repr(got.exc.origin))
            if c is not None:
                ctx.check(got.exc.context is c, "context", lambda: repr(got.exc.context))


RESULTS = [None, False, 0, "", [], NotImplementedError, NotImplemented, "result"]


@harness("C12", "flat", shards=[{"n": n} for n in (0, 1, 2, 3)], thorough=[{"n": n} for n in (0, 1, 2, 3, 4)], cover=[],
         bounds="up to 3 (4) converters of 11 kinds, both directions", max_paths=20000)
def flat(ctx, n):
    log = []
    m = Module("m")
    hows = HOW if n < 4 else ("result", "declines", "fails", "no match", "value error")
    order = [Stub(f"s{i}", log, ctx.choice(f"s{i}", list(hows)), [i]) for i in range(n)]
    for s in order:
        m.register(s)
    c = new_context(object(), ser=n % 2 == 0)
    judge(ctx, ctx.attempt(m.convert, c), order, log, m, c)


@harness("C12", "falsy", shards=[{"i": i} for i in range(len(RESULTS))], cover=["done"], bounds="8 results, two converters")
def falsy(ctx, i):
    log = []
    m, inner = Module("m"), Module("i")
    nested = ctx.flag("nested")
    (inner if nested else m).register(Stub("a", log, ctx.choice("a", ["declines", "fails", "result"]), RESULTS[i]))
    if nested:
        m.register(inner)
    m.register(Stub("b", log, "result", RESULTS[i]))
    m.register(Stub("c", log, "result", "c"))
    got = ctx.attempt(m.convert, new_context(object()))
    ctx.check(got.ok and got.value is RESULTS[i], "not the result of the first converter that gave one", lambda: repr(got))
    ctx.cover("done")


# -- histories of registrations in trees of modules

SHAPES = {
    "one": ["m"], "nested": ["m", "a"], "siblings": ["m", "a", "b"], "deep": ["m", "a", "a.b"],
}


@harness("C12", "tree", shards=[{"shape": s, "n": 4} for s in SHAPES],
         thorough=[{"shape": s, "n": 5} for s in SHAPES] + [{"shape": "one", "n": 6}], cover=["several", "result"], bounds="up to 5 (6) registrations, first or not, into up to 3 modules nested up to 3 deep, at any time", max_paths=60000)
def tree(ctx, shape, n):
    """Registration order for every history of register(first=…) calls; the modules are registered in the course of it."""
    log = []
    names = SHAPES[shape]
    mods = {x: Module(x) for x in names}
    ref = {x: [] for x in names}  # the entries of every module, in order
    inner = [x for x in names if x != "m"]
    every = []
    for i in range(n):
        k = ctx.pick(f"op{i}", len(names) + (1 if inner else 0))
        first = ctx.flag(f"first{i}")
        if k == len(names):
            x = inner.pop()
            where = "a" if x == "a.b" else "m"
            mods[where].register(mods[x], first=first)
            ref[where].insert(0 if first else len(ref[where]), x)
            if not inner:
                inner = ["a"]  # the same module once more
        else:
            s = Stub(f"s{i}", log, "fails", i)
            every.append(s)
            if first:
                mods[names[k]].register(s, True)
            else:
                mods[names[k]].register(s)
            ref[names[k]].insert(0 if first else len(ref[names[k]]), s)

    def walk(x):
        out = []
        for e in ref[x]:
            if isinstance(e, str):
                out.extend(walk(e))
            else:
                out.append(e)
        return out

    order = walk("m")
    c = new_context("v")
    ctx.check([s.name for s in mods["m"].get_converters(c)] == [s.name for s in order], "get_converters", lambda: repr(list(mods["m"].get_converters(c))))
    if order:
        j = ctx.pick("result", len(order) + 1)
        if j < len(order):
            order[j].how = "result"
    judge(ctx, ctx.attempt(mods["m"].convert, c), order, log, mods["m"], c)


@harness("C12", "nested", shards=[{"hows": h} for h in (("result", "declines", "fails"), ("fails", "fails below", "same text"), ("fails", "sub error", "type error"), ("declines", "no match", "value error"))],
         cover=["done"], bounds="4 converters of 3 kinds, two of them in a nested module at any position")
def nested(ctx, hows):
    log = []
    m, inner, deep = Module("m"), Module("i"), Module("d")
    s = [Stub(f"s{i}", log, ctx.choice(f"s{i}", list(hows)), [i]) for i in range(4)]
    inner.register(s[0])
    inner.register(deep)
    deep.register(s[1])
    at = ctx.pick("at", 3)
    entries = [s[2], s[3]]
    order = s[2:]
    entries.insert(at, inner)
    order[at:at] = s[:2]
    for e in entries:
        m.register(e)
    c = new_context(object())
    judge(ctx, ctx.attempt(m.convert, c), order, log, m, c)
    ctx.cover("done")


@harness("C12", "directions", shards=[{}], cover=["done"], bounds="two converters that implement one direction each")
def directions(ctx):
    log = []
    m = Module("m")
    first = ctx.flag("first")
    a, b = OneWay(log, "a", first), OneWay(log, "b", not first)
    m.register(a)
    m.register(b)
    ser = ctx.flag("ser")
    got = ctx.attempt(m.convert, new_context(object(), ser=ser))
    ctx.check(got.ok and got.value == ("a" if first == ser else "b"), "the converter for the other direction was used", lambda: repr(got))
    ctx.check(len(log) == 1, "log", lambda: repr(log))
    for base in (Converter, Module):
        if base is Converter:
            class Nothing(Converter):
                pass

            got = ctx.attempt(Nothing().convert, new_context(1, ser=ser))
            ctx.check(not got.ok and isinstance(got.exc, NotImplementedError), "default converter", lambda: repr(got))
        else:
            got = ctx.attempt(Module("x").convert, new_context(1, ser=ser))
            ctx.check(not got.ok and type(got.exc) is NoMatchingConverter and len(got.exc.errors) == 0, "empty module", lambda: repr(got))
    ctx.cover("done")


# -- through a mapper: sub values go through the module of the mapper as well


class Wrap(Converter):
    """Handles Alien by delegating to another type and key."""

    def __init__(self, log):
        self.log = log

    def convert(self, ctx):
        if not (hasattr(ctx.datatype, "type") and ctx.datatype.type is Alien):
            raise NotImplementedError
        self.log.append("wrap")
        return [ctx.spawn(ctx.value, int, "sub").convert()]


@harness("C12", "mapper", shards=[{"how": h, "where": w} for h in ("result", "declines", "fails", "value error", "no match") for w in ("first", "last", "nested first", "json")], cover=["done"],
         bounds="one extra converter at 4 places of a mapper, every scalar value")
def mapper(ctx, how, where):
    log = []
    v = scalar(ctx, "v")
    s = Stub("s", log, how, "from the stub")
    m = ObjectMapper() if ctx.flag("plain") else get_object_mapper()
    plain = not m.module.converters
    if where == "first":
        m.module.register(s, first=True)
    elif where == "last":
        m.module.register(s)
    elif where == "nested first":
        extra = Module("extra")
        extra.register(s)
        m.module.register(extra, first=True)
    elif plain:
        m.module.register(s)
    else:
        m.module.converters[0].register(s, first=True)
    got = ctx.attempt(m.deserialize, v, int)
    alone = None if plain else ctx.attempt(load, v, int)
    early = where != "last" or plain
    if not early and alone.ok:
        ctx.check(got.ok and same(got.value, alone.value), "result of the built-in converter", lambda: repr(got))
        ctx.check(not log, "a later converter was asked", lambda: repr(log))
    elif how == "result":
        ctx.check(got.ok and got.value == "from the stub", "result of the stub", lambda: repr(got))
    elif how == "value error":
        ctx.check(not got.ok and got.exc is s.exc, "other exceptions pass through", lambda: repr(got))
    elif plain:
        ctx.check(not got.ok and (got.exc is s.exc if how != "declines" else type(got.exc) is NoMatchingConverter and len(got.exc.errors) == 0), "error", lambda: repr(got))
    elif alone.ok:
        ctx.check(got.ok and same(got.value, alone.value), "the built-in converter after the stub", lambda: repr(got))
    else:
        ctx.check(not got.ok and isinstance(got.exc, ConversionError), "refused by both", lambda: repr(got))
        if not got.ok:
            if how == "declines":
                ctx.check(str(got.exc) == str(alone.exc), "error of the built-in converter", lambda: repr(got.exc))
            else:
                errs = [e[1] for e in got.exc.errors]
                k = 0 if early else 1
                ctx.check(len(errs) == 2 and errs[k] is s.exc and type(errs[1 - k]) is ConversionError, "both errors, in order", lambda: repr(errs))
    ctx.cover("done")


@harness("C12", "sub", shards=[{"how": h} for h in ("result", "fails", "value error")], cover=["done"], bounds="a converter that delegates to the mapper, every scalar value")
def sub(ctx, how):
    log = []
    v = scalar(ctx, "v")
    m = get_object_mapper()
    m.module.register(Wrap(log), first=True)

    class Int(Converter):
        def convert(self, c):
            if not (hasattr(c.datatype, "type") and c.datatype.type is int):
                raise NotImplementedError
            return s.convert(c)

    s = Stub("s", log, how, ["stub"])
    m.module.register(Int(), first=True)
    got = ctx.attempt(m.deserialize, v, t.List[Alien] if ctx.flag("list") else Alien)
    want = ctx.attempt(load, v, int, observe=False)
    ctx.cover("done")
    if "wrap" not in log:
        ctx.check(not got.ok, "a scalar as a list", lambda: repr(got))
        return
    ctx.check(log[0] == "wrap" and len(log) == 2 and log[1][0] is s, "log", lambda: repr(log))
    if how == "result":
        ctx.check(got.ok and got.value[0] is s.result, "result of the inner conversion", lambda: repr(got))
    elif how == "value error":
        ctx.check(not got.ok and got.exc is s.exc, "other exceptions pass through", lambda: repr(got))
    elif want.ok:
        ctx.check(got.ok and same(got.value[0], want.value), "the built-in converter after the failure", lambda: repr(got))
    else:
        ctx.check(not got.ok and isinstance(got.exc, ConversionError), "refused", lambda: repr(got))
