"""Decimals, UUIDs, paths and durations convert through their text form."""

import itertools

from databind.core import Converter, Module, ObjectMapper, Settings
from databind.core.settings import Precision
from databind.json import dump, load
from databind.json.converters import DecimalConverter, StringifyConverter
from databind.json.module import JsonModule
from props.zoo import *
from symex.ctx import SPECIAL_FLOATS
from symex.harness import harness


class Money(decimal.Decimal):
    pass


class Key(uuid.UUID):
    pass


class Folder(pathlib.PurePosixPath):
    pass


class Home(type(pathlib.Path())):
    pass


TYPES = {"decimal": TDecimal(), "uuid": TUuid(), "path": TPath(), "purepath": TPurePath(), "duration": TDuration()}
SUB = {
    "money": (Money, decimal.Decimal), "key": (Key, uuid.UUID), "folder": (Folder, pathlib.PurePath), "home": (Home, pathlib.Path),
    "winpath": (pathlib.PureWindowsPath, pathlib.PurePath), "posixpath": (pathlib.PosixPath, pathlib.Path), "pureposix": (pathlib.PurePosixPath, pathlib.PurePath),
}
TEXTS = {
    "decimal": ["0", "-0", "1.50", " 7 ", "1_000", "1E+3", "1e-7", "0.1", "NaN", "-Infinity", "sNaN", "", "abc", "1.2.3", "1,5", "0x10", "\u0661", "1" * 40, "1e999999999999999999999", "None", "True"],
    "uuid": ["00000000-0000-0000-0000-000000000005", "{00000000-0000-0000-0000-000000000005}", "urn:uuid:12345678123456781234567812345678", "ABCDEFABCDEFABCDEFABCDEFABCDEFAB", "", "0", "5", "g" * 32, "0" * 31, " " * 32],
    "path": ["", ".", "a", "/x/y", "a//b", "./a", "a/../b", "~", "C:\\x", "a\\b", " a ", "\x00", "//x"],
    "duration": ["P1D", "PT2H3M", "P1Y2M", "P3W", "PT0.5S", "PT1.5S", "P", "", "1D", "P1H", "p1d", "PT", "P-1D", " P1D"],
}
TEXTS["purepath"] = TEXTS["path"]
KIND = {decimal.Decimal: "decimal", uuid.UUID: "uuid", pathlib.Path: "path", pathlib.PurePath: "purepath"}

SPOTS = {
    "root": (lambda h: h, lambda v: v),
    "list": (lambda h: t.List[h], lambda v: [v]),
    "dict": (lambda h: t.Dict[str, h], lambda v: {"k": v}),
    "optional": (lambda h: t.Optional[h], lambda v: v),
    "tuple": (lambda h: t.Tuple[int, h], lambda v: (1, v)),
    "annotated": (lambda h: t.Annotated[h, "note"], lambda v: v),
}


def spots(ty):
    return [ty, TSeq(ty), TDict(STR, ty, width=1), TOpt(ty), TTuple(ty, ty), TDC("Has", F("a", ty), F("b", TOpt(ty))), TUnion(INT, ty), TUnion(ty, STR)]


def strictness(ctx):
    """(settings of the call, is it strict)"""
    w = ctx.choice("strict", [None, True, False])
    return ([] if w is None else [Strict(w)]), w is not False


@harness("C25", "load", shards=[{"ty": x, "i": i} for x in TYPES.values() for i in range(8)], cover=["accepted", "refused"], bounds="every JSON value (2 levels, 2 entries each), arbitrary text (by what the type makes of it); strictness default, on and off; 5 types in 8 places", max_paths=60000)
def load_any(ctx, ty, i):
    full = spots(ty)[i]
    settings, strict = strictness(ctx) if ty.oname == "decimal" or i == 0 else ([], True)
    if i == 5:
        entries = [(k, scalar(ctx, k, ("fin", "nan", "1e300"))) for k in ("a", "b") if ctx.flag("has." + k)]
        p = ctx.mkdict(entries)
    elif i in (1, 2, 4):
        p = json_value(ctx, "p", depth=1, width=2 if i != 2 else 1)
    else:
        p = json_value(ctx, "p", depth=1, width=1, floats=tuple(SPECIAL_FLOATS) + ("fin",))
    got = ctx.attempt(load, p, full.hint, settings=settings or None)
    agree(ctx, got, lambda: full.ref_load(p, S(strict=strict)), "load")


@harness("C25", "dump", shards=[{"ty": x, "i": i} for x in TYPES.values() for i in range(8)], cover=["accepted"], bounds="arbitrary values of 5 types in 8 places, and any other kind of value", max_paths=60000)
def dump_any(ctx, ty, i):
    full = spots(Wild(ty))[i] if i else Wild(ty)
    settings, _ = strictness(ctx) if i == 0 else ([], True)
    v = full.gen(ctx, "v")
    got = ctx.attempt(dump, v, full.hint, settings=settings or None)
    agree(ctx, got, lambda: full.ref_dump(v, S()), "dump")


@harness("C25", "roundtrip", shards=[{"ty": x, "i": i} for x in TYPES.values() for i in range(6)], cover=["done"], bounds="arbitrary values of 5 types in 6 places", max_paths=60000)
def roundtrip(ctx, ty, i):
    full = spots(ty)[i]
    settings, _ = strictness(ctx)
    v = full.gen(ctx, "v")
    d = ctx.attempt(dump, v, full.hint, settings=settings or None)
    ctx.check(d.ok, "dump", lambda: repr(d))
    got = ctx.attempt(load, d.value, full.hint, settings=settings or None)
    ctx.check(got.ok and same(got.value, v), "the value is not preserved", lambda: f"{v!r} {d!r} {got!r}")
    ctx.cover("done")


def alike(a, b):
    """The same value in every respect (decimals keep their digits)."""
    return type(a) is type(b) and repr(a) == repr(b)


@harness("C25", "texts", shards=[{"name": n} for n in list(TYPES) + list(SUB)], cover=["accepted"], bounds="a pool of texts in the real notation of the types, in 6 places; 5 types and 7 subtypes")
def texts(ctx, name):
    cls, base = SUB.get(name) or (TYPES[name].hint, TYPES[name].hint)
    kind = KIND.get(base, "duration")
    parse, excs = (duration.parse if kind == "duration" else cls), (ValueError, decimal.InvalidOperation)
    text = ctx.choice("text", TEXTS[kind])
    mk, wrap = SPOTS[ctx.choice("spot", list(SPOTS))]
    got = ctx.attempt(load, wrap(text), mk(cls), settings=[Strict(False)] if ctx.flag("lax") else None)
    try:
        want = parse(text)
    except excs:
        ctx.cover("refused")
        ctx.check(not got.ok and isinstance(got.exc, ConversionError), "the type refuses the text", lambda: f"{text!r} {got!r}")
        return
    ctx.cover("accepted")
    ctx.check(got.ok and alike(got.value, wrap(want)), "not what the type makes of the text", lambda: f"{text!r} {got!r}")
    d = ctx.attempt(dump, got.value, mk(cls))
    out = wrap(str(want))
    ctx.check(d.ok and d.value == (list(out) if type(out) is tuple else out), "not the text form of the value", lambda: f"{text!r} {d!r}")
    back = ctx.attempt(load, d.value, mk(cls))
    ctx.check(back.ok and alike(back.value, got.value), "the value is not preserved", lambda: f"{text!r} {back!r}")


@harness("C25", "subtypes", shards=[{"name": n} for n in SUB], cover=["written", "refused"], bounds="values of 5 types, 7 subtypes and others, for a hint of each type")
def subtypes(ctx, name):
    """A value of a subtype is a value of the type, but not the other way around."""
    cls, base = SUB[name]
    text = {"uuid": "00000000-0000-0000-0000-000000000007", "decimal": "2.50"}.get(KIND[base], "a/b")
    hint = ctx.choice("hint", [cls, base] + [x for x, _ in SUB.values() if x is not cls] + [uuid.UUID, decimal.Decimal, pathlib.PurePath, pathlib.Path])
    v = ctx.choice("value", [cls, base])(text)
    got = ctx.attempt(dump, v, hint)
    if isinstance(v, hint):
        ctx.cover("written")
        ctx.check(got.ok and type(got.value) is str and got.value == str(v), "dump", lambda: f"{v!r} as {hint} {got!r}")
    else:
        ctx.cover("refused")
        ctx.check(not got.ok and isinstance(got.exc, ConversionError), "dumped another value", lambda: f"{v!r} as {hint} {got!r}")


# -- decimals


@harness("C25", "numbers", shards=[{"spot": s} for s in SPOTS], cover=["accepted", "refused"], bounds="every integer, float (special ones included), boolean and text; strictness default, on, off, as setting or of the converter")
def numbers(ctx, spot):
    mk, wrap = SPOTS[spot]
    hint = mk(decimal.Decimal)
    default = ctx.choice("default", [None, True, False])
    where = ctx.choice("where", ["none", "call", "ann", "global", "both"])
    inner = ctx.choice("enabled", [True, False]) if where != "none" else None
    if where in ("ann", "both"):
        hint = mk(t.Annotated[decimal.Decimal, Strict(inner)])
    m = ObjectMapper()
    if default is not None:
        m.module.register(DecimalConverter(default))
    m.module.register(JsonModule())
    if where == "global":
        m.settings.add_global(Strict(inner))
    call = [Strict(inner if where == "call" else not inner)] if where in ("call", "both") else None
    strict = inner if inner is not None else (default is not False)
    v = ctx.choice("kind", [lambda: ctx.int("i"), lambda: ctx.float("f", tuple(SPECIAL_FLOATS) + ("fin",)), lambda: ctx.bool("b"), lambda: ctx.str("s"), lambda: IntSub(3)])()
    got = ctx.attempt(m.deserialize, wrap(v), hint, settings=call)
    # (the built-in converter is asked for what the one that is registered refuses)
    relaxed = not strict or (default is True and inner is False)
    if isinstance(v, str):
        try:
            want = decimal.Decimal(v)
        except decimal.InvalidOperation:
            want = None
    elif isinstance(v, bool) or not relaxed:
        want = None
    else:
        want = decimal.Decimal(v)
    if want is None:
        ctx.cover("refused")
        ctx.check(not got.ok and isinstance(got.exc, ConversionError), "not a decimal", lambda: f"{v!r} {got!r}")
    else:
        ctx.cover("accepted")
        ctx.check(got.ok, "refused a decimal", lambda: f"{v!r} {got!r}")
        x = {"list": lambda: got.value[0], "dict": lambda: got.value["k"], "tuple": lambda: got.value[1]}.get(spot, lambda: got.value)()
        ctx.check(same(x, want), "another decimal", lambda: f"{v!r} {got!r}")


OPTIONS = {
    "prec": [1, 3, 40], "rounding": [decimal.ROUND_UP, decimal.ROUND_DOWN, decimal.ROUND_HALF_EVEN, decimal.ROUND_HALF_UP, decimal.ROUND_05UP, decimal.ROUND_CEILING, decimal.ROUND_FLOOR, decimal.ROUND_HALF_DOWN],
    "Emin": [-2, 0], "Emax": [2, 0], "capitals": [0, True], "clamp": [1, False],
}
PTEXTS = ["1.2345", "-1.2355", "0.125", "-0.125", "2.5", "-2.5", "1.05", "0.00012", "1E+5", "12E+30", "-0", "NaN", "Infinity", "x", "1E-500", "99.96", "1" * 50, " 1", "0.0E+10", "1E+999998", "1.25E-1000000", "1E-1000030"]


@harness("C25", "precision", shards=[{"options": o} for n in (0, 1, 2) for o in itertools.combinations(OPTIONS, n)] + [{"options": ("prec", "Emax", "clamp")}], cover=["accepted"],
         thorough=[{"options": o} for n in range(5) for o in itertools.combinations(OPTIONS, n)],
         bounds="combinations of up to 2 (4) options with 1 to 8 values each; 22 texts, and numbers", max_paths=60000)
def precision(ctx, options):
    """The value is what a decimal context with these options makes of it."""
    o = {k: ctx.choice(k, OPTIONS[k]) for k in options}
    st = Precision(**o)
    v = ctx.choice("text", PTEXTS + [1234567, 0.1, -5, 2.5, 0])
    where = ctx.choice("where", ["ann", "call"])
    got = ctx.attempt(load, v, t.Annotated[decimal.Decimal, st] if where == "ann" else decimal.Decimal, settings=[Strict(False)] + ([st] if where == "call" else []))
    try:
        want = decimal.Context(**o).create_decimal(v)
    except decimal.DecimalException:
        ctx.cover("refused")
        ctx.check(not got.ok and isinstance(got.exc, ConversionError), "not a decimal with these options", lambda: f"{o} {v!r} {got!r}")
        return
    ctx.cover("accepted")
    ctx.check(got.ok and alike(got.value, want), "the precision is not applied", lambda: f"{o} {v!r} {got!r}, not {want!r}")


@harness("C25", "precision_any", shards=[{"spot": s} for s in SPOTS], cover=["accepted", "refused"], bounds="arbitrary text and numbers (by what the decimal context makes of them), 5 sets of options, 6 places")
def precision_any(ctx, spot):
    mk, wrap = SPOTS[spot]
    o = ctx.choice("options", [{}, {"prec": 3}, {"prec": 2, "rounding": decimal.ROUND_UP}, {"Emax": 5}, {"prec": 5, "Emin": -3, "Emax": 3, "clamp": 1}])
    st = Precision(**o)
    settings, strict = strictness(ctx)
    v = ctx.choice("kind", [lambda: ctx.str("s"), lambda: ctx.int("i"), lambda: ctx.float("f", ("fin",)), lambda: ctx.bool("b"), lambda: None, lambda: []])()
    ctx.assume(not (v is None and spot == "optional"))
    ann = ctx.flag("ann")
    got = ctx.attempt(load, wrap(v), mk(t.Annotated[decimal.Decimal, st] if ann else decimal.Decimal), settings=settings + ([] if ann else [st]))
    want = None
    if isinstance(v, str) or (not strict and isinstance(v, (int, float)) and not isinstance(v, bool)):
        try:
            want = decimal.Context(**o).create_decimal(v)
        except decimal.DecimalException:
            pass
    if want is None:
        ctx.cover("refused")
        ctx.check(not got.ok and isinstance(got.exc, ConversionError), "not a decimal with these options", lambda: f"{o} {v!r} {got!r}")
    else:
        ctx.cover("accepted")
        w = wrap(want)
        ctx.check(got.ok and same(got.value, w), "the precision is not applied", lambda: f"{o} {v!r} {got!r}, not {w!r}")


@harness("C25", "precision_place", shards=[{"place": p} for p in PLACES + ("three", "more", "all")], cover=["loaded"], bounds="settings at every place, arbitrary priorities, arbitrary text")
def precision_place(ctx, place):
    """The setting that counts is the one that is applied."""
    digits = {}

    def mk(name, prio):
        digits[name] = len(digits) + 1
        return Precision(prec=len(digits), priority=prio)

    a = Arranged(ctx, place, mk, decimal.Decimal, decimal.Decimal)
    m = ObjectMapper(settings=a.settings)
    m.module.register(JsonModule())
    text = "1.23456789"
    got = ctx.attempt(m.deserialize, text, a.hint, settings=a.call)
    want = decimal.Decimal(text) if a.eff is None else decimal.Context(prec=a.eff.prec).create_decimal(text)
    ctx.cover("loaded")
    ctx.check(got.ok and alike(got.value, want), "another precision", lambda: f"{got!r}, not {want!r}")
    v = decimal.Decimal(text)
    out = ctx.attempt(m.serialize, v, a.hint, settings=a.call)
    ctx.check(out.ok and out.value == text, "the precision changes what is written", lambda: repr(out))


@harness("C25", "precision_isolated", shards=[{}], bounds="a field with a precision among fields without one, arbitrary text, before and after each other")
def precision_isolated(ctx):
    """A precision does not reach other fields or later conversions, or the decimal context of the caller."""
    A = t.Annotated[decimal.Decimal, Precision(prec=2)]
    hints = {k: ctx.choice(k, [A, decimal.Decimal, t.List[A], t.List[decimal.Decimal]]) for k in ("x", "y")}
    cls = dataclasses.make_dataclass("P", [(k, h) for k, h in hints.items()])
    text = {k: ctx.choice("text." + k, ["1.2345", "9.999", "1E+50"]) for k in hints}
    before = repr(decimal.getcontext())
    islist = {k: t.get_origin(h) is list for k, h in hints.items()}
    got = ctx.attempt(load, {k: [v] if islist[k] else v for k, v in text.items()}, cls)
    ctx.check(got.ok, "load", lambda: repr(got))
    for k, h in hints.items():
        w = decimal.Context(prec=2).create_decimal(text[k]) if h in (A, t.List[A]) else decimal.Decimal(text[k])
        x = getattr(got.value, k)
        ctx.check(alike(x[0] if islist[k] else x, w), "precision of another field", lambda: f"{k} {got!r}")
    ctx.check(repr(decimal.getcontext()) == before, "changed the decimal context of the caller")


# -- converters for other types


class Point:
    def __init__(self, text):
        self.text = text

    def __eq__(self, o):
        return type(o) is type(self) and o.text == self.text

    def __repr__(self):
        return f"{type(self).__name__}({self.text!r})"

    def __str__(self):
        return "str:" + self.text


class Point3(Point):
    pass


class Other:
    pass


class Grid(Point):
    """Has an arbitrary outcome of its constructor."""

    outcome = None

    def __init__(self, text):
        if Grid.outcome is not None:
            raise Grid.outcome("no")
        super().__init__(text)


ERRORS = [None, ValueError, TypeError, UnicodeDecodeError, KeyError, ZeroDivisionError, LookupError]


def failing(err):
    if err is UnicodeDecodeError:
        return UnicodeDecodeError("utf-8", b"x", 0, 1, "no")
    return err("no")


@harness("C25", "stringify", shards=[{"parser": p, "formatter": f} for p in (None, "own") for f in (None, "own")], cover=["loaded", "dumped", "other"], bounds="arbitrary text, any other JSON value, values of the type, subtypes and other types; any outcome of parser and formatter", max_paths=60000)
def stringify(ctx, parser, formatter):
    """A text converter for a type of one's own."""
    perr = ctx.choice("parser fails", ERRORS) if parser else None
    calls = []

    def parse(s):
        calls.append(s)
        if perr is not None:
            raise failing(perr)
        return Point3("own:" + s)

    def fmt(v):
        return "own:" + v.text

    m = ObjectMapper()
    kw = {}
    if parser:
        kw["parser"] = parse
    if formatter:
        kw["formatter"] = fmt
    conv = StringifyConverter(Point, **kw)
    first = ctx.flag("first")
    m.module.register(conv)
    m.module.register(JsonModule(), first=first)
    hint = ctx.choice("hint", [Point, Point3, Other, t.Annotated[Point, "x"]])
    cls = Point if t.get_origin(hint) is t.Annotated else hint
    if ctx.flag("load"):
        v = json_value(ctx, "v", depth=1, width=1, floats=("fin",))
        got = ctx.attempt(m.deserialize, v, hint)
        if cls is Other or not isinstance(v, str):
            ctx.cover("other")
            ctx.check(not got.ok and isinstance(got.exc, ConversionError), "loaded what is no text", lambda: repr(got))
        elif perr is None:
            ctx.cover("loaded")
            want = Point3("own:" + v) if parser else cls(v)
            ctx.check(got.ok and type(got.value) is type(want) and got.value.text == want.text, "not what the type makes of the text", lambda: f"{got!r}, not {want!r}")
        elif issubclass(perr, (ValueError, TypeError)):
            ctx.check(not got.ok and isinstance(got.exc, ConversionError), "the type rejects the text", lambda: repr(got))
        else:
            ctx.check(not got.ok and (isinstance(got.exc, (ConversionError, perr))), "the parser failed", lambda: repr(got))
    else:
        v = ctx.choice("value", [lambda: Point(ctx.str("s")), lambda: Point3(ctx.str("s")), Other, lambda: ctx.str("s"), lambda: None, lambda: Point])()
        got = ctx.attempt(m.serialize, v, hint)
        if isinstance(v, cls) and cls is not Other:
            ctx.cover("dumped")
            want = "own:" + v.text if formatter else "str:" + v.text
            ctx.check(got.ok and got.value == want, "not the text form", lambda: f"{got!r}, not {want!r}")
        else:
            ctx.check(not got.ok and isinstance(got.exc, ConversionError), "dumped another value", lambda: repr(got))


PARTS = ("years", "months", "weeks", "days", "hours", "minutes", "seconds", "microseconds")


def part(ctx, n):
    v = ctx.choice(n + ".kind", [lambda: ctx.int(n), "1", None, True, 1.5, 2.0])
    if callable(v):
        v = v()
        ctx.assume(v >= 0)  # (the constructor of durations refuses negative parts)
    return v


@harness("C25", "duration_parts", shards=[{"k": k} for k in PARTS], cover=["accepted", "refused"], bounds="objects with up to two of the parts of a duration and another key, any JSON value each")
def duration_parts(ctx, k):
    ty = TDC("Dur", *[F(p, INT, default=0) for p in PARTS], cls=duration)
    p = presence(ctx, "p", [k, PARTS[(PARTS.index(k) + 3) % 8]], lambda n, _: part(ctx, n), extra=1, extra_value=lambda n: 1, orders=False)
    got = ctx.attempt(load, p, duration)
    agree(ctx, got, lambda: ty.ref_load(p, S()), "load")
