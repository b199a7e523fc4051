"""Date formats are tried in order when parsing, and in order when formatting."""

import itertools

from nr.date import date_format, datetime_format, format_set, time_format
from nr.date.format_sets import ISO_8601, JAVA_OFFSET_DATETIME
from nr.date.options import DatetimeComponent, IFormatOption

from databind.core import ObjectMapper, Priority
from databind.json import dump, load
from props.zoo import *
from symex.ctx import enum_int
from symex.harness import harness

KINDS = {
    "date": (datetime.date, date_format, "date_formats", DatetimeComponent.Year, lambda i: datetime.date(2000 + i, 1, 1)),
    "time": (datetime.time, time_format, "time_formats", DatetimeComponent.Minute, lambda i: datetime.time(0, i)),
    "datetime": (datetime.datetime, datetime_format, "datetime_formats", DatetimeComponent.Year, lambda i: datetime.datetime(2000 + i, 1, 1)),
}
OTHER = {"date": "time", "time": "datetime", "datetime": "date"}
BUILTIN = {".ISO_8601": ISO_8601, ".JAVA_OFFSET_DATETIME": JAVA_OFFSET_DATETIME}
VALUES = {
    "date": [datetime.date(2001, 2, 3), datetime.date(1, 1, 1), datetime.date(9999, 12, 31)],
    "time": [datetime.time(10, 20, 30), datetime.time(0, 0), datetime.time(1, 2, 3, 4)],
    "datetime": [datetime.datetime(2001, 2, 3, 10, 20, 30), datetime.datetime(1, 1, 1, tzinfo=datetime.timezone.utc), datetime.datetime(2001, 2, 3, tzinfo=datetime.timezone(datetime.timedelta(hours=-5)))],
}
TEXTS = {
    "date": ["2001-02-03", "2001-13-03", "20010203", "03.02.2001", "2001", "10:20", "", "2001-02-03T10:20", " 2001-02-03", "2001-02-30", "2001.02.03"],
    "time": ["10:20", "102030", "10:20:30.5", "10", "25:00", "2001-02-03", "", "20.10", "10:20Z"],
    "datetime": ["2001-02-03T10:20:30Z", "2001-02-03T10:20", "20010203T102030", "2001-02-03", "10:20", "", "2001-02-03 10:20", "2001-02-03T10:20:30.25+01:00"],
}
STRINGS = {
    "date": ["%Y-%m-%d", "%Y-%d-%m", "%d.%m.%Y", "%Y.%m.%d", "%H:%M", "%Y-%m-%dT%H:%M", "fixed"],
    "time": ["%H:%M", "%M:%H", "%H.%M", "%H:%M%z", "%Y-%m-%d", "%Y-%m-%dT%H:%M", "fixed"],
    "datetime": ["%Y-%m-%d %H:%M", "%Y-%d-%mT%H:%M", "%Y-%m-%dT%H:%M", "%H:%M", "%Y-%m-%d", "fixed"],
}


class Stub:
    """One format of *kind* made of real nr.date objects, whose acceptance is arbitrary; it is known by its number."""

    def __init__(self, ctx, kind, number, log):
        self.kind, self.number = kind, number
        cls, component = KINDS[kind][1], KINDS[kind][3]
        memo = {}

        def flag(what):
            if what not in memo:
                memo[what] = bool(ctx.bool(f"{kind}{number}.{what}"))
            return memo[what]

        self.flag = flag

        class Option(IFormatOption):
            def parse_string(self, s):
                if not flag("valid"):
                    raise ValueError("invalid")
                return number if kind == "time" else 2000 + number

            def format_value(self, dt, v):
                log.append(number)
                if not flag("writes"):
                    raise ValueError("cannot write")
                return f"text{number}"

        class Regex:
            def match(self, s):
                log.append(number)
                return Match() if flag("matches") else None

        class Match:
            def groups(self):
                return ("1",)

        option = Option("Q", component, ".*")
        self.obj = cls(f"<{kind}{number}>", Regex(), [option])

    def parses(self):
        return self.flag("matches") and self.flag("valid")

    def writes(self):
        return self.flag("writes")


class Config:
    """Formats drawn from *shape*: o an object of the kind, x one of another kind, s a set with two formats of the kind and one of another,
    e a set without formats of the kind."""

    def __init__(self, ctx, kind, shape, prefix=0):
        self.log = []
        self.formats = []
        self.order = []  # the stubs of the kind, in the order they count
        self.sets = []
        other = OTHER[kind]
        n = prefix
        for c in shape:
            n += 3
            if c == "o":
                st = Stub(ctx, kind, n, self.log)
                self.order.append(st)
                self.formats.append(st.obj)
            elif c == "x":
                self.formats.append(Stub(ctx, other, n, self.log).obj)
            else:
                stubs = [Stub(ctx, kind, n, self.log), Stub(ctx, kind, n + 1, self.log)] if c == "s" else []
                self.order.extend(stubs)
                self.formats.append(format_set(f"set{n}", None, **{KINDS[kind][2]: [x.obj for x in stubs], KINDS[other][2]: [Stub(ctx, other, n + 2, self.log).obj]}))

    def winner(self, how):
        for st in self.order:
            if getattr(st, how)():
                return st
        return None


def shapes(kinds, n):
    return ["".join(p) for k in range(1, n + 1) for p in itertools.product(kinds, repeat=k)]


SHAPES = ["o", "x", "s", "e", "oo", "xo", "ox", "so", "os", "eo", "oe", "ss", "ooo", "oxo", "xsx", "eos", "soo", "oos"]


@harness("C21", "order", shards=[{"kind": k, "shape": s} for k in KINDS for s in SHAPES], thorough=[{"kind": k, "shape": s} for k in KINDS for s in shapes("oxse", 4)], cover=["parsed", "unparsed", "written", "unwritten"], bounds="up to 3 (4) configured formats, sets of two; every combination of formats that accept or reject, reading and writing")
def order(ctx, kind, shape):
    hint, _, _, _, result = KINDS[kind]
    cfg = Config(ctx, kind, shape)
    st = DateFormat(*cfg.formats)
    api = ctx.flag("direct")
    if ctx.flag("read"):
        got = ctx.attempt(st.parse, hint, "1") if api else ctx.attempt(load, "1", hint, settings=[st])
        w = cfg.winner("parses")
        if w is None:
            ctx.cover("unparsed")
            ctx.check(not got.ok and isinstance(got.exc, ValueError if api else ConversionError), "no format accepts the text", lambda: repr(got))
        else:
            ctx.cover("parsed")
            ctx.check(got.ok and type(got.value) is hint and got.value == result(w.number), "not the result of the first format that accepts", lambda: f"{got!r}, not {w.number}; asked {cfg.log}")
    else:
        v = VALUES[kind][0]
        got = ctx.attempt(st.format, v) if api else ctx.attempt(dump, v, hint, settings=[st])
        w = cfg.winner("writes")
        if w is None:
            ctx.cover("unwritten")
            ctx.check(not got.ok and isinstance(got.exc, ValueError if api else ConversionError), "no format can write the value", lambda: repr(got))
        else:
            ctx.cover("written")
            ctx.check(got.ok and got.value == f"text{w.number}", "not written with the first format that can", lambda: f"{got!r}, not {w.number}; asked {cfg.log}")


# -- real formats: texts and builtin names are expanded to what nr.date makes of them


def expand(formats, kind):
    cls, attr = KINDS[kind][1], KINDS[kind][2]
    for f in formats:
        if isinstance(f, str):
            if f.startswith("."):
                yield from getattr(BUILTIN[f], attr)
            else:
                try:
                    f = cls.compile(f)
                except ValueError:
                    continue
                yield f
        elif type(f) is cls:
            yield f
        elif isinstance(f, format_set):
            yield from getattr(f, attr)


def ref_parse(formats, kind, text):
    for f in expand(formats, kind):
        try:
            return getattr(f, "parse_" + kind)(text)
        except ValueError:
            pass
    raise Bad


def ref_format(formats, kind, value):
    for f in expand(formats, kind):
        try:
            return getattr(f, "format_" + kind)(value)
        except ValueError:
            pass
    raise Bad


def real_format(ctx, name, kind, compiled=True):
    cls = KINDS[kind][1]
    options = STRINGS[kind] + list(BUILTIN)
    if compiled:
        options = options + [cls.compile(STRINGS[kind][1]), ISO_8601, KINDS[OTHER[kind]][1].compile(STRINGS[OTHER[kind]][0])]
    return ctx.choice(name, options)


@harness("C21", "texts", shards=[{"kind": k, "n": n} for k in KINDS for n in (1, 2)], thorough=[{"kind": k, "n": n} for k in KINDS for n in (1, 2, 3)], cover=["accepted", "refused"], bounds="up to 2 (3) formats out of 12: texts, builtin sets, objects; arbitrary text (by what the formats make of it)", max_paths=60000)
def texts(ctx, kind, n):
    formats = [real_format(ctx, f"f{i}", kind) for i in range(n)]
    text = ctx.str("text")
    hint = KINDS[kind][0]
    got = ctx.attempt(load, text, hint, settings=[DateFormat(*formats)])
    agree(ctx, got, lambda: ref_parse(formats, kind, text), f"load with {formats}")


@harness("C21", "samples", shards=[{"kind": k, "n": n, "i": i} for k in KINDS for n in (1, 2) for i in ((None,) if n == 1 else range(3))], cover=["accepted", "refused", "written", "unwritten"], bounds="up to 2 formats out of 12; a pool of texts and values in the real notation of the formats", max_paths=60000)
def samples(ctx, kind, n, i):
    formats = [real_format(ctx, f"f{i}", kind) for i in range(n)]
    hint = KINDS[kind][0]
    st = DateFormat(*formats)
    pool = TEXTS[kind] if i is None else TEXTS[kind][i::3]
    vals = VALUES[kind] if i is None else VALUES[kind][i::3]
    k = ctx.pick("what", len(pool) + len(vals))
    if k < len(pool):
        text = pool[k]
        got = ctx.attempt(load, text, hint, settings=[st])
        agree(ctx, got, lambda: ref_parse(formats, kind, text), f"load {text!r} with {formats}")
        return
    v = vals[k - len(pool)]
    try:
        want = ref_format(formats, kind, v)
    except Bad:
        ctx.cover("unwritten")
        got = ctx.attempt(dump, v, hint, settings=[st])
        ctx.check(not got.ok and isinstance(got.exc, ConversionError), "there is no format to write the value with", lambda: repr(got))
        return
    ctx.cover("written")
    got = ctx.attempt(dump, v, hint, settings=[st])
    ctx.check(got.ok and got.value == want, "written", lambda: f"{got!r}, not {want!r}")


@harness("C21", "values", shards=[{"kind": k, "n": n} for k in KINDS for n in (0, 1, 2)], cover=["written"], bounds="arbitrary dates, times and datetimes (by what the formats make of them), up to 2 formats out of 10, and no setting")
def values(ctx, kind, n):
    """Any value, through formats whose output is arbitrary."""
    formats = [real_format(ctx, f"f{i}", kind) for i in range(n)]
    v = ctx.opaque("v", kind)
    hint = KINDS[kind][0]
    got = ctx.attempt(dump, v, hint, settings=[DateFormat(*formats)] if n else None)
    try:
        want = ref_format(formats or [".ISO_8601"], kind, v)
    except Bad:
        ctx.check(not got.ok and isinstance(got.exc, ConversionError), "there is no format to write the value with", lambda: repr(got))
        return
    ctx.cover("written")
    ctx.check(got.ok and same(got.value, want), "written with the first format of the kind", lambda: f"{got!r}, not {want!r}")


# -- where the setting is given


@dataclasses.dataclass
class Holder:
    pass


_FIELD = []


def holder(hint, ann):
    ns = {"__annotations__": {"x": t.Annotated[hint, ann] if ann is not None else hint, "y": hint}, "__module__": __name__}
    return dataclasses.dataclass(type("Holder", (), ns))


SPOTS = ["root", "field", "list", "dict", "optional", "tuple", "typeddict"]


@harness("C21", "precedence", shards=[{"kind": k, "spot": s} for k in KINDS for s in SPOTS], cover=["parsed", "unparsed", "written", "unwritten"], bounds="settings at any of: the type or field, the call, local to the type, global, parent mapper, with arbitrary priorities or the default one; formats that accept or reject", max_paths=40000)
def precedence(ctx, kind, spot):
    """The setting of highest priority, of these the one closest to the value, counts, even where another one could have read the text."""
    from databind.core import Settings

    hint, _, _, _, result = KINDS[kind]
    where = ctx.choice("where", [("ann",), ("call",), ("local",), ("global",), ("parent",), ("ann", "call"), ("ann", "local", "global"), ("local", "global"), ("call", "global", "local"), ("global", "parent"), ("ann2", "ann"), ("call", "call2")])
    cfgs = {w: Config(ctx, kind, "oo" if len(where) < 2 else "o", prefix=10 * i) for i, w in enumerate(where)}
    if ctx.flag("default priority"):
        sets = {w: DateFormat(*c.formats) for w, c in cfgs.items()}
    else:
        sets = {w: DateFormat(*c.formats, priority=enum_int(ctx, w + ".prio", Priority)) for w, c in cfgs.items()}
    st = Settings(Settings(None, [sets["parent"]]) if "parent" in sets else None)
    if "global" in sets:
        st.add_global(sets["global"])
    if "local" in sets:
        st.add_local(hint, sets["local"])
    call = [sets[w] for w in ("call", "call2") if w in sets]
    ann = tuple([sets[w] for w in ("ann", "ann2") if w in sets])
    h = t.Annotated[(hint,) + ann] if ann else hint
    best = effective([sets[w] for w in ("ann", "ann2", "call", "call2", "local", "global", "parent") if w in sets])
    first = next(w for w in sets if sets[w] is best)
    mk = {
        "root": lambda: (h, lambda v: v, lambda r: r), "list": lambda: (t.List[h], lambda v: [v], lambda r: r[0]), "dict": lambda: (t.Dict[str, h], lambda v: {"k": v}, lambda r: r["k"]),
        "optional": lambda: (t.Optional[h], lambda v: v, lambda r: r), "tuple": lambda: (t.Tuple[int, h], lambda v: (1, v), lambda r: r[1]),
    }
    read = ctx.flag("read")
    if spot == "field":
        cls = dataclasses.dataclass(type("Holder", (), {"__annotations__": {"x": h}, "__module__": __name__}))
        full, wrap, unwrap = cls, (lambda v: {"x": v} if read else cls(v)), (lambda r: r.x if read else r["x"])
    elif spot == "typeddict":
        full, wrap, unwrap = t.TypedDict("HolderTD", {"x": h}), (lambda v: {"x": v}), (lambda r: r["x"])
    else:
        full, wrap, unwrap = mk[spot]()
    m = ObjectMapper(settings=st)
    from databind.json.module import JsonModule

    m.module.register(JsonModule())
    c = cfgs[first]
    if read:
        got = ctx.attempt(m.deserialize, wrap("1"), full, settings=call or None)
        w = c.winner("parses")
    else:
        got = ctx.attempt(m.serialize, wrap(VALUES[kind][0]), full, settings=call or None)
        w = c.winner("writes")
    if w is None:
        ctx.cover("unparsed" if read else "unwritten")
        ctx.check(not got.ok and isinstance(got.exc, ConversionError), "none of the formats that count accepts", lambda: repr(got))
    else:
        ctx.cover("parsed" if read else "written")
        want = result(w.number) if read else f"text{w.number}"
        ctx.check(got.ok and unwrap(got.value) == want, "the setting that counts was not used", lambda: f"{got!r}, not {want!r}")


@harness("C21", "neighbours", shards=[{"kind": k} for k in KINDS], cover=["parsed", "written"], bounds="two fields, either, both or none of them with a setting, and a global setting or none")
def neighbours(ctx, kind):
    """A setting on a field does not reach its neighbours."""
    hint, _, _, _, result = KINDS[kind]
    cfg = {w: Config(ctx, kind, "o", prefix=5 * i) for i, w in enumerate(("x", "y", "global")) if ctx.flag(w)}
    for c in cfg.values():
        ctx.assume(c.winner("parses") is not None and c.winner("writes") is not None)
    sets = {w: DateFormat(*c.formats) for w, c in cfg.items()}
    hints = {w: t.Annotated[hint, sets[w]] if w in sets else hint for w in ("x", "y")}
    nested = ctx.flag("nested")
    cls = dataclasses.dataclass(type("Two", (), {"__annotations__": {"x": hints["x"], "y": t.List[hints["y"]] if nested else hints["y"]}, "__module__": __name__}))
    call = [sets["global"]] if "global" in sets else None
    iso = KINDS[kind][1].compile(STRINGS[kind][2 if kind == "datetime" else 0])
    v = {"date": datetime.date(2001, 2, 3), "time": datetime.time(10, 20), "datetime": datetime.datetime(2001, 2, 3, 10, 20)}[kind]
    plain = TEXTS[kind][1 if kind == "datetime" else 0]

    def expected(w):
        c = cfg.get(w) or cfg.get("global")
        return (result(c.winner("parses").number), f"text{c.winner('writes').number}") if c else (v, ref_format([".ISO_8601"], kind, v))

    wrap = (lambda a: [a]) if nested else (lambda a: a)
    got = ctx.attempt(load, {"x": plain, "y": wrap(plain)}, cls, settings=call)
    ctx.cover("parsed")
    ctx.check(got.ok and got.value == cls(expected("x")[0], wrap(expected("y")[0])), "load", lambda: repr(got))
    out = ctx.attempt(dump, cls(v, wrap(v)), cls, settings=call)
    ctx.cover("written")
    ctx.check(out.ok and out.value == {"x": expected("x")[1], "y": wrap(expected("y")[1])}, "dump", lambda: repr(out))


# -- values that are no text


def things(ctx, kind):
    return ctx.choice("thing", [
        lambda: datetime.date(2001, 2, 3), lambda: datetime.time(1, 2), lambda: datetime.datetime(2001, 2, 3), lambda: datetime.timedelta(1), lambda: ctx.opaque("d", kind),
        lambda: object(), lambda: b"2001-02-03", lambda: Alien(), lambda: json_value(ctx, "v", depth=1, width=1, kinds=("null", "bool", "int", "float", "list", "dict")),
    ])()


@harness("C21", "already", shards=[{"kind": k, "setting": s} for k in KINDS for s in (None, "stub", ".ISO_8601", ".JAVA_OFFSET_DATETIME")], cover=["taken", "refused"], bounds="any JSON value but text, dates of every kind, other objects")
def already(ctx, kind, setting):
    hint = KINDS[kind][0]
    x = things(ctx, kind)
    cfg = Config(ctx, kind, "o")
    if setting == "stub":
        ctx.assume(cfg.winner("parses") is not None and cfg.winner("writes") is not None)
    sets = None if setting is None else [DateFormat(*(cfg.formats if setting == "stub" else [setting]))]
    got = ctx.attempt(load, x, hint, settings=sets)
    if isinstance(x, hint) and (kind != "date" or not isinstance(x, datetime.datetime)):
        ctx.cover("taken")
        ctx.check(got.ok and got.value is x, "a date is taken as it is", lambda: repr(got))
        return
    ctx.cover("refused")
    ctx.check(not got.ok and isinstance(got.exc, ConversionError), "loaded what is no text", lambda: f"{x!r} {got!r}")
    out = ctx.attempt(dump, x, hint, settings=sets)
    ctx.check(not out.ok and isinstance(out.exc, ConversionError), "dumped another value", lambda: f"{x!r} {out!r}")


@harness("C21", "text_dump", shards=[{"kind": k} for k in KINDS], bounds="arbitrary text")
def text_dump(ctx, kind):
    """Text is not a date, even if it reads like one."""
    hint = KINDS[kind][0]
    s = ctx.str("s") if ctx.flag("any") else ctx.choice("like", TEXTS[kind])
    out = ctx.attempt(dump, s, hint)
    ctx.check(not out.ok and isinstance(out.exc, ConversionError), "dumped text", lambda: repr(out))


@harness("C21", "invalid", shards=[{"kind": k} for k in KINDS], bounds="unknown builtin names, invalid options, before and after a format that accepts; no format")
def invalid(ctx, kind):
    """A setting that is itself invalid is an error, not a format that rejects."""
    hint = KINDS[kind][0]
    got = ctx.attempt(DateFormat)
    ctx.check(not got.ok and isinstance(got.exc, ValueError), "there must be a format", lambda: repr(got))
    bad = ctx.choice("bad", [".FOO", "%Q", ".iso_8601", "%Y-%q"])
    good = {"date": "%Y", "time": "%H", "datetime": "%Y"}[kind]
    first = ctx.flag("good first")
    st = DateFormat(*([good, bad] if first else [bad]))
    text = ctx.choice("text", ["2001", "10", "x"])
    got = ctx.attempt(load, text, hint, settings=[st])
    fits = text == ("10" if kind == "time" else "2001")
    if first and fits:
        ctx.check(got.ok, "the first format accepts", lambda: repr(got))
    else:
        ctx.check(not got.ok and isinstance(got.exc, ConversionError), "the setting is invalid", lambda: repr(got))


# -- values of other kinds, or of derived classes


class MyDate(datetime.date):
    pass


class MyTime(datetime.time):
    pass


class MyDatetime(datetime.datetime):
    pass


DERIVED = {"date": MyDate(2001, 2, 3), "time": MyTime(10, 20), "datetime": MyDatetime(2001, 2, 3, 10, 20)}


@harness("C21", "kinds", shards=[{"kind": k} for k in KINDS], cover=["written", "refused", "taken"], bounds="values of the 3 kinds and of classes derived from them, up to 2 formats that accept or reject or no setting; at the root, in a list or in a union of the kinds")
def kinds(ctx, kind):
    """A date and time is not a date (its text would not be read as one); values of derived classes are like those of the kind."""
    hint = KINDS[kind][0]
    cfg = Config(ctx, kind, ctx.choice("shape", ["o", "xo", "ox"])) if ctx.flag("setting") else None
    settings = [DateFormat(*cfg.formats)] if cfg else None
    other = ctx.choice("value", list(KINDS))
    v = DERIVED[other] if ctx.flag("derived") else VALUES[other][0]
    where = ctx.choice("where", ["root", "list", "optional"])
    full = {"root": hint, "list": t.List[hint], "optional": t.Optional[hint]}[where]
    wrap = (lambda x: [x]) if where == "list" else (lambda x: x)  # noqa: E731
    fits = other == kind
    if ctx.flag("load"):
        got = ctx.attempt(load, wrap(v), full, settings=settings, observe=False)
        ctx.cover("taken" if fits else "refused")
        if fits:
            ctx.check(got.ok and (got.value[0] if where == "list" else got.value) is v, "taken as it is", lambda: repr(got))
        else:
            ctx.check(not got.ok and isinstance(got.exc, ConversionError), "a value of another kind", lambda: repr(got))
        return
    got = ctx.attempt(dump, wrap(v), full, settings=settings)
    w = cfg.winner("writes") if cfg and fits else None
    if not fits or (cfg and w is None):
        ctx.cover("refused")
        ctx.check(not got.ok and isinstance(got.exc, ConversionError), "nothing to write" if fits else "a value of another kind", lambda: repr(got))
        return
    ctx.cover("written")
    want = f"text{w.number}" if cfg else ref_format([".ISO_8601"], kind, v)
    ctx.check(got.ok and got.value == wrap(want), "written like any value of the kind", lambda: f"{got!r}, not {want!r}")
    if not cfg:
        back = ctx.attempt(load, got.value, full, observe=False)
        ctx.check(back.ok and back.value == wrap(v), "reading what was written", lambda: repr(back))
