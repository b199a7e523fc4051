"""Conversions and lookups that overlap do not influence each other."""

from databind.core import ConversionError, union
from databind.core.converter import Converter
from databind.core.union import ChainUnionMembers, EntrypointUnionMembers, ImportUnionMembers, StaticUnionMembers
from databind.json import get_object_mapper
from props import c19
from props.c31 import TYPES
from props.mods import eps
from props.zoo import *
from symex import schedule
from symex.ctx import Outcome
from symex.harness import harness

_BASE = []
_ENTRIES = {}
_iter_entry_points = getattr(union, "iter_entry_points", None)


def iter_entry_points(group):
    """(The distributions do not change, and take long to read.)"""
    if group not in _ENTRIES:
        _ENTRIES[group] = list(_iter_entry_points(group))
    return iter(_ENTRIES[group])


if _iter_entry_points is not None:
    union.iter_entry_points = iter_entry_points
    for _g in ("verif.one", "verif.two"):
        iter_entry_points(_g)


def pristine():
    """Everything that is kept between two conversions is as it was at the beginning."""
    schedule.free_locks()
    if not _BASE:
        _BASE.append(schedule.Shared())
    _BASE[0].restore()


def outcome(strand):
    return Outcome(False, exc=strand.exc) if strand.exc is not None else Outcome(True, strand.value)


def alone(make, fn):
    pristine()
    try:
        fn(make())  # (what is loaded when it is used for the first time)
    except Exception:
        pass
    pristine()
    w = make()
    s = schedule.Strand(lambda: fn(w), schedule.Shared([w], _BASE[0]).changed)
    s.resume()
    pristine()
    return s


def overlap(ctx, make, a, b, na=3, nb=2):
    """Runs *a* until any of its statements, *b* until any of its own, *a* to the end, and *b* to the end.
    Tells the outcomes of each on its own and of both in this way."""
    a0, b0 = alone(make, a), alone(make, b)
    if a0.wrote or b0.wrote:
        ctx.cover("shared")
    i = ctx.choice("first", schedule.points(a0, na))
    j = ctx.choice("second", schedule.points(b0, nb) + [None] * bool(a0.wrote or b0.wrote))
    w = make()
    sa, sb = schedule.Strand(lambda: a(w)), schedule.Strand(lambda: b(w))
    try:
        sa.resume(i)
        sb.resume(j)
        for _ in range(3):
            sa.resume()
            sb.resume()
        ctx.check(sa.finished and sb.finished, "the threads wait for each other")
    finally:
        sa.kill()
        sb.kill()
        pristine()
    return outcome(a0), outcome(b0), outcome(sa), outcome(sb)


def equal(a, b):
    if a.ok != b.ok:
        return False
    if a.ok:
        return same(a.value, b.value)
    if type(a.exc) is not type(b.exc):
        return False
    if isinstance(a.exc, ConversionError):
        return a.exc.message == b.exc.message and places(a.exc) == places(b.exc)
    return True


def places(exc):
    out = []
    c = exc.context
    while c is not None:
        out.append(str(c.key))
        c = c.parent
    return out


def twisted(v):
    """Another payload of (about) the same form."""
    if isinstance(v, dict):
        return {k: twisted(x) for k, x in v.items()}
    if isinstance(v, list):
        return [twisted(x) for x in v]
    if isinstance(v, bool):
        return not v
    if isinstance(v, (int, float)):
        return v + 40
    if isinstance(v, str):
        return {"a": 1, "s": "another", "RED": "GREEN", "2020-02-29": "1999-12-31", "2020-02-29T10:11:12Z": "1999-12-31T01:02:03Z", "01.02.2020": "1999", "1.50": "2.75", "1.55": "9.99", "READ": "w"}.get(v, v)
    return v


KEYS = list(TYPES)


def other(ctx, key):
    """What the other conversion may be."""
    good = TYPES[key][1]
    what = ctx.choice("other", ["twisted", "bad", "next"])
    if what == "next":
        key = KEYS[(KEYS.index(key) + 1) % len(KEYS)]
        return key, TYPES[key][1][0], []
    return key, {"twisted": twisted(good[-1]), "bad": [{"unexpected": None}]}[what], [[], [Strict(False), ExtraKeys(True)]][ctx.pick("other settings", 2) if what == "twisted" else 0]


def mine(ctx, key):
    """A good payload, in which one of the scalars may be any."""
    good = ctx.choice("good", TYPES[key][1])
    spots = list(leaves(good))
    return put(good, ctx.choice("at", spots), scalar(ctx, "g", ("fin",)))


def leaves(v, path=()):
    if isinstance(v, (dict, list)):
        for k, x in v.items() if isinstance(v, dict) else enumerate(v):
            yield from leaves(x, path + (k,))
    else:
        yield path


def put(v, path, x):
    if not path:
        return x
    out = dict(v) if isinstance(v, dict) else list(v)
    out[path[0]] = put(v[path[0]], path[1:], x)
    return out


def values(ctx, key, p):
    """A value of the type, or something else."""
    r = ctx.attempt(get_object_mapper().deserialize, p, TYPES[key][0], observe=False)
    return r.value if r.ok else p


def conversions(ctx, key):
    hint = TYPES[key][0]
    p = mine(ctx, key)
    k2, q, st2 = other(ctx, key)
    hint2 = TYPES[k2][0]
    if ctx.flag("dump"):
        p = values(ctx, key, p)
        a = lambda m: m.serialize(p, hint, "a.json")
    else:
        a = lambda m: m.deserialize(p, hint, "a.json")
    if k2 == key and ctx.flag("other dump"):
        q = values(ctx, k2, q)
        return a, lambda m: m.serialize(q, hint2, "b.json", settings=st2)
    return a, lambda m: m.deserialize(q, hint2, "b.json", settings=st2)


@harness("C32", "threads", shards=[{"key": k} for k in TYPES], cover=["done", "accepted"], bounds="49 types; good payloads with any scalar in one place (or the value of it), against 4 other conversions of the type and one of another; every statement around a modification of something that is shared, and another one, for either switch", max_paths=60000)
def threads(ctx, key):
    """Two threads convert with one mapper: the first is interrupted, then the second, then each goes on to its end."""
    a, b = conversions(ctx, key)
    a0, b0, a1, b1 = overlap(ctx, get_object_mapper, a, b, 1, 1)
    ctx.cover("done")
    if a0.ok:
        ctx.cover("accepted")
    ctx.check(equal(a1, a0), "another result of the first conversion", lambda: f"{a1!r} instead of {a0!r}")
    ctx.check(equal(b1, b0), "another result of the second conversion", lambda: f"{b1!r} instead of {b0!r}")


class Meddler(Converter):
    """Begins another conversion when it is asked for the n-th time."""

    def __init__(self, at, mapper, then):
        self.at, self.mapper, self.then = at, mapper, then
        self.asked = 0
        self.busy = False
        self.got = None

    def convert(self, ctx):
        if not self.busy:
            self.asked += 1
            if self.asked == self.at:
                self.busy = True
                try:
                    self.got = Outcome(True, self.then(self.mapper))
                except Exception as exc:
                    self.got = Outcome(False, exc=exc)
                self.busy = False
        raise NotImplementedError


@harness("C32", "within", shards=[{"key": k} for k in TYPES], cover=["done", "accepted"], bounds="conversions as above; the other one is begun by a converter or a settings provider that is asked in the course of the first", max_paths=60000)
def within(ctx, key):
    """A conversion that is begun in the course of another one."""
    a, b = conversions(ctx, key)

    def world(at):
        m = get_object_mapper()
        e = Meddler(at, m, b)
        m.module.register(e, first=True)
        return m, e

    def provider_world(at):
        m = get_object_mapper()
        e = Meddler(at, m, b)

        def ask(c):
            try:
                e.convert(c)
            except NotImplementedError:
                return []

        m.settings.add_provider(ask)
        return m, e

    make = ctx.choice("by", [world, provider_world])
    pristine()
    m, e = make(0)
    a0 = ctx.attempt(a, m, observe=False)
    pristine()
    m2, _ = make(0)
    b0 = ctx.attempt(b, m2, observe=False)
    pristine()
    n = e.asked
    if not n:
        ctx.cut("nothing is asked")
    m, e = make(ctx.choice("moment", sorted({1 + n // 3, n})))
    a1 = ctx.attempt(a, m, observe=False)
    pristine()
    ctx.cover("done")
    if a0.ok:
        ctx.cover("accepted")
    ctx.check(equal(a1, a0), "another result of the outer conversion", lambda: f"{a1!r} instead of {a0!r}")
    ctx.check(equal(e.got, b0), "another result of the inner conversion", lambda: f"{e.got!r} instead of {b0!r}")


# -- registries


def provider(cls):
    def provide():
        return cls

    return provide


def given():
    return StaticUnionMembers({"a": c19.A, "lazy": provider(c19.B), "b": provider(eps.A)})


REGS = {
    "static": (given, ["a", "lazy", "none"], [c19.A, c19.B, int]),
    "entry": (lambda: EntrypointUnionMembers("verif.one"), ["ann", "bob", "again", "none"], [eps.A, eps.B, int]),
    "import": (ImportUnionMembers, ["props.mods.eps.A", "props.mods.eps.B.Inner", "props.mods.eps.X"], [eps.A, eps.B.Inner, int]),
    "chain": (lambda: ChainUnionMembers(EntrypointUnionMembers("verif.two"), given()), ["ann", "lazy", "none"], [eps.A, c19.B, int]),
}


WHAT = ["id", "type", "list"]


def lookup(ctx, name, reg, what=None):
    _, ids, types_ = REGS[reg]
    what = what or ctx.choice(name + ".what", WHAT)
    if what == "id":
        x = ctx.choice(name + ".id", ids)
        return lambda r: r.get_type_by_id(x)
    if what == "type":
        x = ctx.choice(name + ".type", types_)
        return lambda r: r.get_type_id(x)
    return lambda r: sorted(r.get_type_ids())


@harness("C32", "lookups", shards=[{"reg": r, "what": w} for r in REGS for w in WHAT], cover=["known", "unknown"], bounds="4 registries, every pair of lookups; switches as above", max_paths=60000)
def lookups(ctx, reg, what):
    """Two threads look something up in one registry."""
    make = REGS[reg][0]
    a, b = lookup(ctx, "a", reg, what), lookup(ctx, "b", reg)
    a0, b0, a1, b1 = overlap(ctx, make, a, b)
    ctx.cover("known" if a0.ok else "unknown")
    for x, y, which in ((a1, a0, "first"), (b1, b0, "second")):
        ctx.check(x.ok == y.ok and (x.value == y.value if x.ok else type(x.exc) is type(y.exc)), f"another result of the {which} lookup", lambda: f"{x!r} instead of {y!r}")


@harness("C32", "registering", shards=[{"reg": r, "what": w} for r in ("static", "chain") for w in WHAT], cover=["before", "after"], bounds="every lookup, against the registration of a new name or of one that is replaced; switches as above", max_paths=60000)
def registering(ctx, reg, what):
    """A lookup in the course of which a member is registered gives what it gives before or afterwards."""
    a = lookup(ctx, "a", reg, what)
    name = ctx.choice("name", ["new", "a", "lazy"])
    cls = ctx.choice("cls", [eps.C, int])

    def put(r):
        (r if isinstance(r, StaticUnionMembers) else r.delegates[1]).register(name)(cls)

    def both(r):
        put(r)
        return a(r)

    make = REGS[reg][0]
    after = outcome(alone(make, both))
    before, _, a1, b1 = overlap(ctx, make, a, put)
    ctx.check(b1.ok, "the registration fails", lambda: repr(b1))

    def is_(x):
        return a1.ok == x.ok and (a1.value == x.value if x.ok else type(a1.exc) is type(x.exc))

    if is_(before):
        ctx.cover("before")
    if is_(after):
        ctx.cover("after")
    ctx.check(is_(before) or is_(after), "neither the result before nor after", lambda: f"{a1!r}, not {before!r} or {after!r}")
