"""Converters honour their options, settings override them, and each handles its own types only."""

from typeapi import TypeHint

from databind.core import ObjectMapper, Settings
from databind.core.converter import NoMatchingConverter
from databind.core.schema import Field, Schema, convert_to_schema
from databind.json.converters import (
    AnyConverter,
    CollectionConverter,
    DatetimeConverter,
    DecimalConverter,
    EnumConverter,
    LiteralConverter,
    MappingConverter,
    OptionalConverter,
    PlainDatatypeConverter,
    SchemaConverter,
    StringifyConverter,
    UnionConverter,
)
from props.zoo import *
from symex.harness import harness

BASIC = {
    "any": AnyConverter, "collection": CollectionConverter, "date": DatetimeConverter, "decimal": DecimalConverter, "enum": EnumConverter, "mapping": MappingConverter, "optional": OptionalConverter,
    "plain": PlainDatatypeConverter, "union": UnionConverter, "schema": SchemaConverter, "uuid": lambda: StringifyConverter(uuid.UUID), "literal": LiteralConverter,
}


def assemble(settings=None, only=None, **own):
    m = ObjectMapper(settings)
    for name, make in BASIC.items():
        if only is None or name in only:
            m.module.register(own[name] if name in own else make())
    return m


def way_of(ctx, opt, name):
    """An option given positionally, by name, or left out (then it is True)."""
    how = ctx.choice(name + ".given", ["positional", "named", "omitted"])
    if how == "omitted":
        return (), {}, True
    x = ctx.flag(name)
    return ((x,), {}, x) if how == "positional" else ((), {opt: x}, x)


SCALARS = {"int": INT, "str": STR, "bool": BOOL, "float": FLOAT, "decimal": TDecimal()}


@harness("C27", "strict", shards=[{"kind": k, "place": p} for k in SCALARS for p in PLACES], cover=["accepted", "refused"], bounds="every scalar, at the root and in a list or object; the option in 3 forms, a setting at each of 8 places or none, arbitrary priorities")
def strict(ctx, kind, place):
    """Without a setting the option decides about strictness; for decimals the one of their own converter."""
    ty = SCALARS[kind]
    a = Arranged(ctx, place, lambda n, p: Strict(ctx.flag(n + ".on"), priority=p), ty.hint, ty.hint)
    conv = DecimalConverter if kind == "decimal" else PlainDatatypeConverter
    args, kw, opt = way_of(ctx, "strict_by_default", "strict")
    own = {"decimal" if kind == "decimal" else "plain": conv(*args, **kw)}
    if place == "none":
        own["plain" if kind == "decimal" else "decimal"] = (PlainDatatypeConverter if kind == "decimal" else DecimalConverter)(strict_by_default=not opt)
    m = assemble(a.settings, **own)
    s = S(strict=opt if a.eff is None else a.eff.enabled)
    v = scalar(ctx, "v")
    spots = [(lambda x: x, a.hint), (lambda x: [x], t.List[a.hint]), (lambda x: {"k": x}, t.Dict[str, a.hint])]
    wrap, h = ctx.choice("spot", spots if place == "none" else spots[:1])
    got = ctx.attempt(m.deserialize, wrap(v), h, settings=a.call)
    agree(ctx, got, lambda: wrap(ty.ref_load(v, s)), "load")
    if place == "none":
        got = ctx.attempt(m.serialize, wrap(v), h, settings=a.call)
        agree(ctx, got, lambda: wrap(ty.ref_dump(v, S())), "dump")


@harness("C27", "defaults", shards=[{"place": p} for p in PLACES], cover=["accepted"], bounds="every value of a class with defaults; the option in 3 forms, a setting at each of 8 places or none, arbitrary priorities")
def defaults(ctx, place):
    """Without a setting the option decides whether defaults are written."""
    a = Arranged(ctx, place, lambda n, p: SerializeDefaults(ctx.flag(n + ".on"), priority=p), DEF2.cls, DEF2.cls)
    how = ctx.choice("given", ["named", "omitted", "positional"])
    opt = True if how == "omitted" else ctx.flag("serialize")
    conv = {"omitted": lambda: SchemaConverter(), "named": lambda: SchemaConverter(serialize_defaults=opt), "positional": lambda: SchemaConverter(dict, convert_to_schema, opt)}[how]()
    m = assemble(a.settings, schema=conv)
    s = S(serialize_defaults=opt if a.eff is None else a.eff.enabled)
    v = DEF2.gen(ctx, "v")
    spots = [(lambda x: x, a.hint), (lambda x: [x], t.List[a.hint])]
    wrap, h = ctx.choice("spot", spots if place == "none" else spots[:1])
    got = ctx.attempt(m.serialize, wrap(v), h, settings=a.call)
    agree(ctx, got, lambda: wrap(DEF2.ref_dump(v, s)), "dump")
    if got.ok:
        back = ctx.attempt(m.deserialize, got.value, h, settings=a.call)
        ctx.check(back.ok and same(back.value, wrap(v)), "the output does not give the value back", lambda: repr(back))


# -- the types of the lists and objects


class Obj(dict):
    pass


class Arr(list):
    pass


def formed(x, like, arr, mapping, obj):
    """*x* is *like*, with other types for its lists, mappings and objects."""
    if isinstance(like, Made):
        ty = obj if like.kind == "object" else mapping
        return type(x) is ty and conj(len(x) == len(like.entries), *[conj(k in x, k not in x or formed(x[k], y, arr, mapping, obj)) for k, y in like.entries.items()])
    if isinstance(like, list):
        return type(x) is arr and len(x) == len(like) and conj(*[formed(y, z, arr, mapping, obj) for y, z in zip(x, like)])
    return same(x, like)


class Made:
    def __init__(self, kind, entries):
        self.kind, self.entries = kind, entries


FLATU = TTagged("flat", [("xy", XY), ("pq", PQ)])
FORMS = {
    "list": (TSeq(INT, width=2), lambda v: list(v)),
    "vtuple": (TSeq(INT, "vtuple", width=2), lambda v: list(v)),
    "tuple": (TTuple(INT, STR), lambda v: list(v)),
    "object": (XY, lambda v: Made("object", {"x": v.x, "y": v.y})),
    "objects": (TSeq(XY, width=1), lambda v: [Made("object", {"x": o.x, "y": o.y}) for o in v]),
    "td": (TD, lambda v: Made("object", {k: v[k] for k in ("name", "items", "year") if k in v})),
    "flat": (FLAT1, lambda v: Made("object", {"a": v.a, "x": v.inner.x, "y": v.inner.y})),
    "union": (FLATU, lambda v: Made("object", {"type": "xy", "x": v.x, "y": v.y} if isinstance(v, XY.cls) else {"type": "pq", "p": v.p, "q": v.q})),
    "matrix": (TSeq(TSeq(INT, width=1), width=1), lambda v: [list(x) for x in v]),
}


@harness("C27", "containers", shards=[{"form": f} for f in FORMS], cover=["done"], bounds="every value of 9 types, 3 list types and 3 types for each of mappings and objects, given positionally or by name")
def containers(ctx, form):
    """The types given for lists, mappings and objects are the ones of the output; loading takes any of them."""
    ty, shape = FORMS[form]
    arr, obj = ctx.choice("list", [list, tuple, Arr]), ctx.choice("object", [dict, collections.OrderedDict, Obj])
    mapping = dict
    if ctx.flag("named"):
        m = assemble(collection=CollectionConverter(json_collection_type=arr), schema=SchemaConverter(json_mapping_type=obj))
    else:
        m = assemble(collection=CollectionConverter(arr), schema=SchemaConverter(obj))
    v = ty.gen(ctx, "v")
    got = ctx.attempt(m.serialize, v, ty.hint, observe=False)
    ctx.cover("done")
    ctx.check(got.ok, "refused", lambda: repr(got))
    ctx.check(formed(got.value, shape(v), arr, mapping, obj), "not of the types asked for", lambda: f"{got.value!r} for {v!r}")
    back = ctx.attempt(m.deserialize, got.value, ty.hint, observe=False)
    ctx.check(back.ok and same(back.value, v), "loading does not give the value back", lambda: repr(back))


@harness("C27", "mappings", shards=[{"mapping": n, "depth": d} for n in ("dict", "ordered", "own") for d in (1, 2)], cover=["done"], bounds="mappings of up to 2 entries (2 levels), keys from a list, any integers, 3 types of the output")
def mappings(ctx, mapping, depth):
    cls = {"dict": dict, "ordered": collections.OrderedDict, "own": Obj}[mapping]
    m = assemble(mapping=MappingConverter(json_mapping_type=cls) if ctx.flag("named") else MappingConverter(cls))
    hint = ctx.choice("hint", [t.Dict[str, int], t.Mapping[str, int], t.OrderedDict[str, int]])
    make = collections.OrderedDict if hint == t.OrderedDict[str, int] else dict
    v = make((k, ctx.int(k)) for k in ("a", "b") if ctx.flag("has." + k))
    like = Made("mapping", dict(v))
    if depth == 2:
        hint, v, like = t.Dict[str, hint], {"o": v}, Made("mapping", {"o": like})
    got = ctx.attempt(m.serialize, v, hint, observe=False)
    ctx.cover("done")
    ctx.check(got.ok and formed(got.value, like, list, cls, dict), "not of the types asked for", lambda: repr(got))
    back = ctx.attempt(m.deserialize, got.value, hint, observe=False)
    ctx.check(back.ok and same(back.value, v), "loading does not give the value back", lambda: repr(back))


# -- schemas made by hand


class Record:
    """Any class."""

    def __init__(self, **kw):
        self.kw = kw
        for k, v in kw.items():
            setattr(self, k, v)


@harness("C27", "schema", shards=[{"how": h} for h in ("positional", "named", "wrapped")], cover=["accepted", "refused", "declined"], bounds="objects with any of up to 3 keys and another; fields required or not, with or without default or factory; any scalar")
def schema(ctx, how):
    """Fields of a schema made by a function: what is required must be there, defaults are filled in, the rest is left out."""
    made = []

    def factory():
        made.append([])
        return made[-1]

    required = ctx.flag("required")
    kind = ctx.choice("default", ["none", "value", "factory"])
    kw = {"value": {"default": 7}, "factory": {"default_factory": factory}}.get(kind, {})
    any_ = TypeHint(t.Any)
    calls = []

    def of(hint):
        if getattr(hint, "type", None) is not Record:
            raise ValueError("no schema")
        calls.append(hint)
        return Schema({"a": Field(TypeHint(int)), "b": Field(any_, required, **kw), "c": Field(TypeHint(t.Annotated[str, Alias("see", "c")]), required=False)}, Record, Record)

    conv = SchemaConverter(convert_to_schema=of) if how != "positional" else SchemaConverter(dict, of)
    m = assemble(schema=conv)
    hint = t.Annotated[Record, "note"] if how == "wrapped" else Record
    if ctx.flag("other"):
        ctx.cover("declined")
        got = ctx.attempt(m.deserialize, {"x": 1, "y": ""}, XY.cls)
        ctx.check(not got.ok and isinstance(got.exc, NoMatchingConverter), "a type without schema must be declined", lambda: repr(got))
        return
    p = presence(ctx, "p", ["a", "b", ctx.choice("key", ["see", "c"])], lambda n, k: scalar(ctx, n, ("fin",)), extra=1, orders=False)
    got = ctx.attempt(m.deserialize, p, hint, observe=False)

    def ref():
        out = {}
        if "a" not in p:
            raise Bad
        out["a"] = INT.ref_load(p["a"], S())
        if "b" in p:
            out["b"] = p["b"]
        elif required:
            raise Bad
        elif kind == "value":
            out["b"] = 7
        elif kind == "factory":
            out["b"] = []
        used = ["a", "b"]
        for k in ("see", "c"):
            if k in p and "c" not in out:
                out["c"] = STR.ref_load(p[k], S())
                used.append(k)
        for k in p:
            if k not in used:
                raise Bad
        return out

    try:
        want = ref()
    except Bad:
        ctx.cover("refused")
        ctx.check(not got.ok and isinstance(got.exc, ConversionError), "must be refused", lambda: repr(got))
        return
    ctx.cover("accepted")
    ctx.check(got.ok and type(got.value) is Record and same(got.value.kw, want), "not the arguments of the constructor", lambda: f"{got!r} {want!r}")
    ctx.check(kind != "factory" or "b" in p or required or (len(made) == 1 and got.value.b is made[0]), "a fresh default", lambda: repr(made))
    if "c" not in want or "b" not in want:
        return
    back = ctx.attempt(m.serialize, got.value, hint, observe=False)
    ctx.check(back.ok and same(back.value, {"a": want["a"], "b": want["b"], "see": want["c"]}), "not the fields of the schema", lambda: repr(back))


class Inner(Record):
    pass


class Deep(Record):
    pass


@dataclasses.dataclass
class InnerDC:
    b: int
    deep: t.Annotated[Deep, Flattened()]


@harness("C27", "flattened_schema", shards=[{"inner": i, "rest": r} for i in ("made", "dataclass") for r in (False, True)], cover=["accepted", "refused"], bounds="flattening of 2 levels, the innermost (or both) with a schema made by hand; objects with any of 3 keys and another, any scalar; with a remainder field or not")
def flattened_schema(ctx, inner, rest):
    """The function that makes the schemas is also the one for flattened fields."""
    cls = Inner if inner == "made" else InnerDC
    int_ = TypeHint(int)
    flat = lambda c: Field(TypeHint(c), flattened=True)  # noqa: E731
    more = {"rest": Field(TypeHint(t.Annotated[t.Dict[str, t.Any], Remainder()]))} if rest else {}
    schemas = {Record: {"a": Field(int_), "inner": flat(cls), **more}, Inner: {"b": Field(int_), "deep": flat(Deep)}, Deep: {"c": Field(TypeHint(t.Annotated[int, Alias("sea", "c")]), required=False)}}

    def of(hint):
        known = schemas.get(getattr(hint, "type", None))
        return Schema(known, hint.type, hint.type) if known else convert_to_schema(hint)

    m = assemble(schema=SchemaConverter(convert_to_schema=of))
    p = presence(ctx, "p", ["a", "b", ctx.choice("key", ["sea", "c"])], lambda n, k: scalar(ctx, n, ("fin",)), extra=1, orders=False)
    got = ctx.attempt(m.deserialize, p, Record, observe=False)
    try:
        if "a" not in p or "b" not in p:
            raise Bad
        a, b = (INT.ref_load(p[k], S()) for k in ("a", "b"))
        key = next((k for k in ("sea", "c") if k in p), None)
        c = {"c": INT.ref_load(p[key], S())} if key else {}
        others = {k: p[k] for k in p if k not in ("a", "b", key)}
        if others and not rest:
            raise Bad
    except Bad:
        ctx.cover("refused")
        ctx.check(not got.ok and isinstance(got.exc, ConversionError), "must be refused", lambda: repr(got))
        return
    ctx.cover("accepted")
    ok = got.ok and type(got.value) is Record and same(got.value.a, a) and type(got.value.inner) is cls and same(got.value.inner.b, b)
    ok = ok and type(got.value.inner.deep) is Deep and same(got.value.inner.deep.kw, c) and (not rest or same(got.value.rest, others))
    ctx.check(ok, "not the values of the payload", lambda: f"{got!r} for {p!r}")
    if not c:
        return
    back = ctx.attempt(m.serialize, got.value, Record, observe=False)
    ctx.check(back.ok and same(back.value, {"a": a, "b": b, "sea": c["c"], **others}), "not the fields of the schema, flattened", lambda: repr(back))


# -- each converter by itself

TYPES = {
    "any": ANY, "int": INT, "str": STR, "bool": BOOL, "float": FLOAT, "bytes": TBytes(), "list": TSeq(ANY, width=1), "dict": TDict(STR, ANY, width=1), "opt": TOpt(ANY), "enum": TPet(), "level": TIntEnum(),
    "date": TDateTime("date"), "decimal": TDecimal(), "uuid": TUuid(), "literal": TLit(1, "a", None), "object": TDC("AnyObj", F("a", ANY)), "tuple": TTuple(ANY), "td": TTypedDict("AnyTD", F("a", ANY)),
    "tagged": TTagged("keyed", [("any", ANY)], hint=t.Annotated[t.Any, "x"]),
}
HANDLES = {
    "any": "any", "int": "plain", "str": "plain", "bool": "plain", "float": "plain", "bytes": "plain", "list": "collection", "dict": "mapping", "opt": "optional", "enum": "enum", "level": "enum", "date": "date", "decimal": "decimal",
    "uuid": "uuid", "literal": "literal", "object": "schema", "tuple": "collection", "td": "schema",
}


@harness("C27", "alone", shards=[{"hint": h} for h in HANDLES], cover=["handled", "unhandled"], bounds="mappers with only one converter (and the one for anything): 12 converters, 18 hints, every value of the type and scalars")
def alone(ctx, hint):
    """A mapper without the converter of a type refuses it, and needs no other."""
    ty = TYPES[hint]
    which = ctx.choice("converter", list(BASIC))
    m = assemble(only={"any", which} | ({"plain"} if HANDLES[hint] == which and hint == "dict" else set()))
    v = Wild(ty, ("json",)).gen(ctx, "v")
    way = ctx.flag("load")
    got = ctx.attempt(m.deserialize if way else m.serialize, v, ty.hint)
    if HANDLES[hint] in ("any", which):
        ctx.cover("handled")
        agree(ctx, got, lambda: ty.ref_load(v, S()) if way else ty.ref_dump(v, S()), "alone")
    else:
        ctx.cover("unhandled")
        ctx.check(not got.ok and isinstance(got.exc, NoMatchingConverter) and not got.exc.errors, "no converter for it", lambda: repr(got))
