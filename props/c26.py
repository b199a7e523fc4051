"""All entry points give the same result and pass on every argument."""

import json

from databind.core import Context, Converter, Direction, Location, ObjectMapper, Setting, Settings, SettingsProvider
from databind.core.settings import Priority
from databind.json import JsonConverter, dump, dumps, get_object_mapper, load, loads
from databind.json.module import JsonModule
from typeapi import TypeHint

from props.zoo import *
from symex.ctx import enum_int
from symex.harness import harness


def points(exc):
    """Where the error is: place, hint and location, from the value up to the root."""
    if not isinstance(exc, ConversionError):
        return type(exc)
    return type(exc), [(c.direction, c.key, str(c.datatype), c.location) for c in exc.context.iter_hierarchy_up()], type(exc.origin), len(exc.errors)


def alike(ctx, got, want, what):
    if not want.ok:
        ctx.cover("refused")
        ctx.check(not got.ok and points(got.exc) == points(want.exc), f"{what}: not the same error", lambda: f"{got!r} instead of {want!r}")
    else:
        ctx.cover("accepted")
        ctx.check(got.ok and same(got.value, want.value), f"{what}: not the same result", lambda: f"{got!r} instead of {want!r}")


HINTS = {
    "int": INT, "str": STR, "bool": BOOL, "float": FLOAT, "any": ANY, "list": TSeq(INT, width=2), "dict": TDict(STR, STR, width=2), "tuple": TTuple(INT, STR), "opt": TOpt(INT),
    "enum": TPet(), "level": TIntEnum(), "union": TUnion(INT, STR), "lit": TLit(1, "a", None), "uuid": TUuid(), "path": TPath(), "decimal": TDecimal(),
    "xy": XY, "def": DEF, "td": TD, "nt": NT, "rem": REM, "flat": FLAT1, "ali": ALI, "disc": TTagged("nested", [("xy", XY), ("pq", PQ)]), "nest": TSeq(TDict(STR, TOpt(INT), width=1), width=1),
}


def payload(ctx, ty, name="p"):
    """The JSON form of a value of the type, or anything."""
    if ctx.flag("fits"):
        got = ctx.attempt(dump, ty.gen(ctx, name), ty.hint, observe=False)
        if not got.ok:
            ctx.assume(False)
        return got.value
    return json_value(ctx, name, depth=1, width=2, floats=("fin", "nan"))


def available():
    return [{"hint": h} for h in HINTS]


@harness("C26", "loads", shards=available(), cover=["accepted", "refused"], bounds="the text of every JSON value (one level, 2 entries) and of every dumped value; 25 hints", max_paths=60000)
def loads_is_load(ctx, hint):
    """`loads` reads what `load` reads from the decoded text."""
    ty = HINTS[hint]
    p = payload(ctx, ty)
    alike(ctx, ctx.attempt(loads, ctx.json_text(p), ty.hint), ctx.attempt(load, p, ty.hint), "loads")


OPTIONS = [
    ((), {}), ((), {"indent": None}), ((), {"indent": 0}), ((), {"indent": 2}), ((), {"indent": "\t"}), ((), {"sort_keys": True}), ((), {"sort_keys": False, "indent": 4}),
    ((), {"indent": 1, "sort_keys": True}), ((None, None, 3), {}), ((None, None, None, True), {}), ((None, None, "-", True), {}), (("file.json", None, 2), {"sort_keys": True}), (("file.json", [], None, False), {}),
]


@harness("C26", "dumps", shards=available(), cover=["accepted", "refused"], bounds="every value of the type and scalars of other types; 25 hints; indentation and key order in 13 forms", max_paths=60000)
def dumps_is_dump(ctx, hint):
    """`dumps` writes the text of what `dump` gives."""
    ty = Wild(HINTS[hint], ("json", "list"))
    v = ty.gen(ctx, "v")
    a, k = ctx.choice("options", OPTIONS)
    want = ctx.attempt(dump, v, ty.hint, *a[:2])
    got = ctx.attempt(dumps, v, ty.hint, *a, **k, observe=False)
    if not want.ok:
        return alike(ctx, got, want, "dumps")
    ctx.cover("accepted")
    full = dict(zip(("indent", "sort_keys"), a[2:]))
    full.update(k)
    ctx.check(got.ok, "refused", lambda: repr(got))
    ctx.check(ctx.is_json_text(got.value, want.value, **full), "not the JSON text of the dumped value", lambda: f"{got!r} instead of the text of {want!r}, {full}")


def mappers(ctx, st=None):
    how = ctx.pick("mapper", 3)
    if how == 0:
        return get_object_mapper(st)
    if how == 1:
        return get_object_mapper(settings=st)
    m = ObjectMapper(st)
    m.module.register(JsonModule())
    return m


@harness("C26", "methods", shards=available(), cover=["accepted", "refused"], bounds="every JSON value (one level), every value of the type and scalars of others; 25 hints; mappers made in 3 ways, their copies", max_paths=60000)
def methods(ctx, hint):
    """The methods of a mapper do what the functions do."""
    ty = HINTS[hint]
    m = mappers(ctx)
    if ctx.flag("copy"):
        m = m.copy()
    if ctx.flag("load"):
        v, fn, meth, way = payload(ctx, ty), load, m.deserialize, Direction.DESERIALIZE
    else:
        v, fn, meth, way = Wild(ty, ("json", "list")).gen(ctx, "v"), dump, m.serialize, Direction.SERIALIZE
    h = TypeHint(ty.hint) if ctx.flag("hint object") else ty.hint
    want = ctx.attempt(fn, v, ty.hint)
    alike(ctx, ctx.attempt(meth, v, h), want, "method")
    alike(ctx, ctx.attempt(m.convert, way, v, h), want, "convert")


# -- which arguments arrive


class Spy(Converter):
    def __init__(self, refuse=False):
        self.refuse = refuse
        self.seen = []

    def convert(self, c):
        self.seen.append((c.value, c.direction, c.location, c.key, c.parent, c.datatype, c.get_setting(Strict), c.get_setting(Mark), c.settings))
        if self.refuse:
            raise ConversionError(self, c, "no")
        return {"made": c.value}


@dataclasses.dataclass
class Mark(Setting):
    name: str
    priority: Priority = Priority.NORMAL


class Plain:
    """There is no conversion for this."""


class Own(SettingsProvider):
    """Settings of any other class."""

    def __init__(self, x):
        self.x = x

    def get_setting(self, c, ty):
        return self.x if isinstance(self.x, ty) else None

    def __len__(self):
        return 0


class Sized(Settings):
    def __len__(self):
        return len(self.local_settings)


POINTS = ("load", "loads", "dump", "dumps", "deserialize", "serialize", "convert")


def invoke(ctx, point, m, v, h, filename, settings, how):
    """Call *point*, passing on what is not None (*how* says in which form)."""
    name = "location" if point == "convert" else "filename"
    if point == "convert" and filename is not None:
        filename = Location(filename, 3, 4)
    fn = {"load": load, "loads": loads, "dump": dump, "dumps": dumps, "deserialize": m.deserialize, "serialize": m.serialize, "convert": m.convert}[point]
    first = (ctx.json_text(v),) if point == "loads" else (v,)
    if point == "convert":
        first = (ctx.choice("way", [Direction.SERIALIZE, Direction.DESERIALIZE]), v)
    if how == "positional":
        got = ctx.attempt(fn, *first, h, filename, settings)
    elif how == "named":
        names = {"load": "type_", "loads": "type_", "dump": "type_", "dumps": "type_"}
        k = {names.get(point, "datatype"): h, "value": first[-1]}
        if point == "convert":
            k["direction"] = first[0]
        got = ctx.attempt(fn, **k, **{name: filename, "settings": settings})
    else:
        k = {n: x for n, x in ((name, filename), ("settings", settings)) if x is not None}
        got = ctx.attempt(fn, *first, h, **k)
    return got, (first[0] if point == "convert" else Direction.SERIALIZE if point in ("dump", "dumps", "serialize") else Direction.DESERIALIZE)


@harness("C26", "arguments", shards=[{"point": p, "how": h} for p in POINTS for h in ("positional", "named", "omitted")], cover=["done", "refused"], bounds="7 entry points, 3 forms of passing arguments, any file name, no settings or a list or a provider, settings of the mapper; any scalar value")
def arguments(ctx, point, how):
    """File name and settings are passed on by all of them."""
    spy = Spy(ctx.flag("refuse"))
    conv = JsonConverter(lambda: spy)
    v = scalar(ctx, "v")
    filename = ctx.str("filename") if ctx.flag("file") else None
    mine = Mark("mapper", enum_int(ctx, "mine.priority", Priority)) if ctx.flag("mine") else None
    theirs = Mark("call", enum_int(ctx, "theirs.priority", Priority))
    form = ctx.choice("settings", ["none", "empty", "one", "two", "object", "sized", "below", "own"])
    ctx.assume(form in ("none", "empty", "one", "two") or point in ("deserialize", "serialize", "convert"))
    strict = Strict(False)
    given = {"none": None, "empty": [], "one": [theirs], "two": [strict, theirs], "object": Settings(None, [theirs]), "sized": Sized(None, [theirs]), "below": Settings(Sized(None, [theirs])), "own": Own(theirs)}[form]
    copy = list(given) if isinstance(given, list) else given
    m = get_object_mapper((Sized if ctx.flag("mine.sized") else Settings)(None, [mine]) if mine is not None else None)
    h = t.Annotated[Plain, conv]
    if form == "own":
        h = t.Annotated[Plain, "text"]
        m.module.converters.insert(0, spy)
    where = ctx.choice("where", ["root", "list"])
    full, value, key = (h, v, Context.ROOT) if where == "root" else (t.List[h], [v], 0)
    if form == "own":
        full, value, key = h, v, Context.ROOT
    got, way = invoke(ctx, point, m, value, full, filename, given, how)
    ctx.cover("done")
    ctx.check(len(spy.seen) == 1, "asked once", lambda: repr((got, spy.seen)))
    sv, sdir, sloc, skey, sparent, stype, sstrict, smark, ssettings = spy.seen[0]
    ctx.check(same(sv, v), "the value")
    ctx.check(sdir is way, "the direction")
    ctx.check(skey is key or skey == key, "the place")
    if point == "convert":
        at_root = key is Context.ROOT
        want = Location(filename, 3, 4) if filename is not None and at_root else Location(filename, None, None)
    else:
        want = Location(filename, None, None)
    ctx.check(conj(type(sloc) is Location, sloc.filename == want.filename, sloc.line == want.line, sloc.column == want.column), "the file name", lambda: repr(sloc))
    mapper_used = point in ("deserialize", "serialize", "convert")
    eff = theirs if form in ("object", "sized", "below", "own") else effective([theirs if form in ("one", "two") else None, mine if mapper_used else None])
    ctx.check(smark is eff, "the settings", lambda: f"{smark} instead of {eff}")
    ctx.check(sstrict is (strict if form == "two" else None), "the settings", lambda: repr(sstrict))
    if isinstance(given, list):
        ctx.check(len(given) == len(copy) and all([a is b for a, b in zip(given, copy)]), "the list was changed")
    elif given is not None:
        ctx.check(ssettings is given, "the provider", lambda: repr(ssettings))
    if spy.refuse:
        ctx.cover("refused")
        ctx.check(not got.ok and isinstance(got.exc, ConversionError) and got.exc.context.location is sloc, "the error has the location", lambda: repr(got))
        return
    made = {"made": v} if key is Context.ROOT else [{"made": v}]
    if point == "dumps":
        ctx.check(got.ok and ctx.is_json_text(got.value, made), "the text of the result", lambda: repr(got))
    else:
        ctx.check(got.ok and same(got.value, made), "the result", lambda: repr(got))


def described(exc):
    return str(exc)


@harness("C26", "error text", shards=[{"point": p} for p in POINTS], cover=["done"], bounds="7 entry points, 3 file names, values refused at 3 depths")
def error_text(ctx, point):
    """The text of an error begins with the file and has the place of the value."""
    filename = ctx.choice("filename", [None, "some file.json", ""])
    h, wrap, lines = ctx.choice("where", [
        (int, lambda v: v, ["  $: TypeHint(int)"]),
        (t.List[int], lambda v: [v], ["  $: TypeHint(typing.List[int])", "  [0]: TypeHint(int)"]),
        (t.Dict[str, t.List[int]], lambda v: {"k y": [v]}, ["  $: TypeHint(typing.Dict[str, typing.List[int]])", "  .k y: TypeHint(typing.List[int])", "  [0]: TypeHint(int)"]),
    ])
    m = get_object_mapper()
    got, _ = invoke(ctx, point, m, wrap("text"), h, filename, None, "omitted")
    ctx.check(not got.ok and isinstance(got.exc, ConversionError), "refused", lambda: repr(got))
    s = str(got.exc).split("\n")
    if filename is not None:
        lines = [f'In "{filename}"'] + lines
    if point == "convert" and filename is not None:
        lines[1] += " (at 3:4)"
    at = [i for i in range(len(s)) if s[i].strip() == lines[0].strip()]
    ctx.check(len(at) == 1 and [x.strip() for x in s[at[0]:at[0] + len(lines)]] == [x.strip() for x in lines], "the place is not in the text", lambda: f"{s} {lines}")
    ctx.check(filename is not None or all(["In \"" not in x for x in s]), "no file", lambda: repr(s))
    ctx.cover("done")


# -- settings that change the result


def on_of(x):
    return x.allow if isinstance(x, ExtraKeys) else x.enabled


def relevant(kind, name, p, on):
    return {"strict": Strict, "extra": ExtraKeys, "defaults": SerializeDefaults}[kind](on) if p is None else {"strict": Strict, "extra": ExtraKeys, "defaults": SerializeDefaults}[kind](on, priority=p)


@harness("C26", "settings", shards=[{"kind": k, "api": a} for k in ("strict", "extra", "defaults") for a in ("mapper", "call", "both", "provider")], cover=["accepted", "refused"],
         bounds="settings of the mapper, of the call or both, arbitrary values and priorities; every payload", max_paths=60000)
def settings(ctx, kind, api):
    """Settings of the mapper act as those of each call do; the ones of the call go first within a priority."""
    mine = relevant(kind, "mapper", enum_int(ctx, "mine", Priority), ctx.flag("mine.on")) if api != "call" else None
    call = relevant(kind, "call", enum_int(ctx, "call", Priority), ctx.flag("call.on")) if api != "mapper" else None
    on = on_of(call) if api == "provider" else on_of(effective([call, mine]))
    st = Settings()
    how = ctx.pick("how", 3)
    if mine is not None:
        if how == 0:
            st.add_global(mine)
        elif how == 1:
            st = Settings(None, [mine])
        else:
            st.add_conditional(lambda c: True, mine)
    m = get_object_mapper(st)
    ctx.check(m.settings is st, "the settings of the mapper")
    if api == "provider":
        given = Settings(None, [call])
    elif api == "call" and ctx.flag("functions"):
        m, given = None, [call]
    else:
        given = [call] if call is not None else None
    s = S(strict=on) if kind == "strict" else S(extra=on) if kind == "extra" else S(serialize_defaults=on)
    if kind == "defaults":
        ty = TSeq(DEF2, width=1)
        v = ty.gen(ctx, "v")
        got = ctx.attempt(m.serialize if m else dump, v, ty.hint, settings=given)
        agree(ctx, got, lambda: ty.ref_dump(v, s), "dump")
        ctx.cover("refused")
    else:
        ty = TDict(STR, INT, width=1) if kind == "strict" else TSeq(XY, width=1)
        leaf = scalar(ctx, "p.v") if kind == "strict" else presence(ctx, "p.v", ["x", "y"], lambda n, k: ctx.int(n) if k == "x" else ctx.str(n), extra=1)
        v = {"k": leaf} if kind == "strict" else [leaf]
        got = ctx.attempt(m.deserialize if m else load, v, ty.hint, settings=given)
        agree(ctx, got, lambda: ty.ref_load(v, s), "load")


@harness("C26", "reuse", shards=[{"n": 2}], thorough=[{"n": 2}, {"n": 3}], cover=["done"], bounds="2 (3) calls with one mapper and one list of settings, each call with or without it, any scalar payload", max_paths=60000)
def reuse(ctx, n):
    """What one call was given does not reach another."""
    st = Settings(None, [Strict(True)])
    m = get_object_mapper(st)
    loose = [Strict(False, priority=Priority.HIGH)]
    for i in range(n):
        with_ = ctx.flag(f"{i}.with")
        v = scalar(ctx, f"{i}.v", ("fin",))
        who = ctx.choice(f"{i}.who", ["mapper", "function", "text"])
        a = ("f", loose) if with_ else ()
        if who == "mapper":
            got = ctx.attempt(m.deserialize, v, int, *a)
        elif who == "function":
            got = ctx.attempt(load, v, int, *a)
        else:
            got = ctx.attempt(loads, ctx.json_text(v), int, *a)
        agree(ctx, got, lambda: INT.ref_load(v, S(strict=not with_)), f"call {i}")
        if not got.ok:
            ctx.check(got.exc.context.location.filename == ("f" if with_ else None), "the file name of another call")
        ctx.check(len(loose) == 1 and len(st.global_settings) == 1 and m.settings is st and st.parent is None, "the settings were changed")
    ctx.cover("done")


TEXTS = [
    "", " ", "{", "[1,]", "nul", "'a'", "{\"a\": 1,}", "1 2", "\"\\x\"", " 1 ", "\t[1, 2]\n", "NaN", "-Infinity", "1e3", "1E400", "-0", "0.0", "007", "\"\\ud83d\\ude00\"", "\"a\\u0000b\"", "{\"a\": 1, \"a\": 2}",
    "{\"a\": {\"b\": [null, true, false]}}", "\ufeff1", b"1", b"\xff", bytearray(b"[1]"), b"\xef\xbb\xbf1", 1, None, ["1"],
]


@harness("C26", "texts", shards=[{}], cover=["accepted", "refused"], bounds="30 texts, valid and not; 5 hints")
def texts(ctx):
    """Texts that are not JSON are refused as the codec refuses them."""
    x = ctx.choice("text", TEXTS)
    h = ctx.choice("hint", [t.Any, int, t.List[int], t.Dict[str, int], str])
    want = ctx.attempt(json.loads, x, observe=False)
    if want.ok:
        want = ctx.attempt(load, want.value, h, observe=False)
    got = ctx.attempt(loads, x, h, observe=False)
    alike(ctx, got, want, "loads")
    if not want.ok and not isinstance(want.exc, ConversionError):
        ctx.check(str(got.exc) == str(want.exc), "not the same message", lambda: repr(got))


@harness("C26", "unwritable", shards=[{}], cover=["refused"], bounds="values under Any that JSON has no form for, at 3 places")
def unwritable(ctx):
    """What the codec cannot write is refused as the codec refuses it."""
    x = ctx.choice("value", [object, Alien(1), {1}, b"raw", decimal.Decimal(1), 1j, {(1, 2): 3}])
    v, h = ctx.choice("place", [(x, t.Any), ([x], t.List[t.Any]), ({"a": x}, t.Dict[str, t.Any])])
    want = ctx.attempt(dump, v, h, observe=False)
    ctx.check(want.ok, "Any takes everything")
    ref = ctx.attempt(json.dumps, want.value, observe=False)
    got = ctx.attempt(dumps, v, h, observe=False)
    ctx.cover("refused")
    ctx.check(not got.ok and type(got.exc) is type(ref.exc) is TypeError, "not the same error", lambda: repr((got, ref)))


@harness("C26", "back", shards=available(), cover=["done"], bounds="every value of the type; 25 hints; with options of the text", max_paths=60000)
def back(ctx, hint):
    """What `dumps` writes, `loads` reads."""
    ty = HINTS[hint]
    v = ty.gen(ctx, "v")
    got = ctx.attempt(dumps, v, ty.hint, indent=ctx.choice("indent", [None, 2]), observe=False)
    if not got.ok:
        ctx.assume(False)
    p = ctx.attempt(dump, v, ty.hint, observe=False).value
    alike(ctx, ctx.attempt(loads, got.value, ty.hint), ctx.attempt(load, p, ty.hint), "loads")
    ctx.cover("done")
