"""NamedTuples are converted as dataclasses with the same fields are."""

from databind.json import dump, load
from props.mods import nta
from props.zoo import *
from symex.harness import harness

PAIR = TNamedTuple("Pair30", F("a", INT), F("b", STR))
DEF = TNamedTuple("Def30", F("a", INT), F("b", STR, default="d"), F("c", TOpt(INT), default=7))
ALIAS = TNamedTuple("Alias30", F("a", INT, aliases=("x", "y")), F("b", TSeq(STR, width=1), aliases=("a",), default=()))
OPT = TNamedTuple("Opt30", F("a", TOpt(INT)), F("b", STR, required=False), F("c", TOpt(FLOAT), required=True))
MUST = TNamedTuple("Must30", F("a", INT, required=True, default=1), F("b", TOpt(STR), default=None))
NEST = TNamedTuple("Nest30", F("p", PAIR), F("d", TOpt(DEF), default=None))
WIDE = TNamedTuple("Wide30", F("a", INT), F("b", BOOL, default=True), extra=True)
TIGHT = TNamedTuple("Tight30", F("a", INT), F("b", BOOL, default=True), extra=False)
REM = TNamedTuple("Rem30", F("a", INT, default=0), F("rest", TDict(STR, INT, width=1), remainder=True, default=None))
INNER = TDC("In30", F("x", INT), F("y", STR, default="q", aliases=("yy",)))
FLAT = TNamedTuple("Flat30", F("a", INT), F("inner", INNER, flat=True), F("z", STR, default="z"))
STRICT = TNamedTuple("Strict30", F("a", INT, strict=False), F("b", FLOAT, strict=True, default=0.5))
TYPES = {"pair": PAIR, "def": DEF, "alias": ALIAS, "opt": OPT, "must": MUST, "nest": NEST, "wide": WIDE, "tight": TIGHT, "rem": REM, "flat": FLAT, "strict": STRICT}

ITEM = TNamedTuple("Item", F("n", INT), F("s", STR, default="d"), cls=nta.Item)
LATE = TNamedTuple("Late", F("x", FLOAT), cls=nta.Late)
HOLDER = TNamedTuple("Holder", F("item", ITEM), F("later", TOpt(LATE)), F("many", TSeq(ITEM, "vtuple", width=1), default=()), cls=nta.Holder)
TYPES.update({"item": ITEM, "holder": HOLDER})


def twin(ty):
    """A dataclass with the same fields."""
    return dataclasses.make_dataclass("Twin", [(f.name, f.hint, dataclasses.field(**({} if f.default is NODEF else {"default": f.default}))) for f in ty.fields], module=MOD, kw_only=True)


TWINS = {}
for n, ty in TYPES.items():
    if n != "holder":
        TWINS[n] = twin(ty)
        if ty.extra is not None:
            ExtraKeys(ty.extra)(TWINS[n])

GOOD = {"a": 5, "b": "t", "c": 2, "x": 3, "y": "w", "yy": "v", "z": "u", "n": 4, "s": "m", "p": {"a": 1, "b": "s"}, "d": {"a": 2}, "item": {"n": 1}, "later": {"x": 2.5}, "many": [{"n": 3, "s": "k"}]}


def good_for(ty, key):
    """A good value for a key."""
    for leaf in ty.leaves():
        if key in leaf.keys:
            base = getattr(leaf.type, "bare", leaf.type)
            base = base.inner if isinstance(base, TOpt) else base
            return {"TInt": 5, "TStr": "t", "TFloat": 1.5, "TBool": True}.get(type(base).__name__) or (["e"] if key == "a" else GOOD[key])
    return 1


def value(ctx, name, k):
    return json_value(ctx, name, depth=1, width=1, floats=("fin",)) if k in ("p", "d", "item", "later", "many") and ctx.flag(name + ".deep") else scalar(ctx, name, ("fin",))


def payload(ctx, ty, name="p"):
    """Any JSON value, or an object with any of the keys of the type and another one, one of them of any value."""
    if not ctx.flag(name + ".shaped"):
        return json_value(ctx, name, depth=1, width=1, floats=("fin",))
    keys = list(dict.fromkeys(k for f in ty.leaves() for k in f.keys)) + ["q"]
    one = ctx.choice(name + ".one", keys)
    return {k: (value(ctx, f"{name}.{k}", k) if k == one else good_for(ty, k)) for k in keys if k == one or ctx.flag(f"{name}.has.{k}")}


def with_settings(ctx):
    s, st = S(), []
    if ctx.flag("set"):
        on = ctx.flag("on")
        what = ctx.choice("what", ["extra", "strict", "defaults"])
        if what == "extra":
            st, s.extra = [ExtraKeys(on)], on
        elif what == "strict":
            st, s.strict = [Strict(on)], on
        else:
            st, s.serialize_defaults = [SerializeDefaults(on)], on
    return s, st


@harness("C30", "load", shards=[{"key": k} for k in TYPES], cover=["accepted", "refused"], bounds="13 NamedTuples (defaults, aliases, optional and required fields, nested, flattened, remainder, with forward references); every JSON value of one level; objects with any subset of the keys and another one, one of them with any scalar (or object); settings on and off; compared with the reference and with a dataclass of the same fields", max_paths=60000)
def load_nt(ctx, key):
    ty = TYPES[key]
    s, st = with_settings(ctx)
    p = payload(ctx, ty)
    got = ctx.attempt(load, p, ty.hint, settings=st)
    agree(ctx, got, lambda: ty.ref_load(p, s), "load")
    if key in TWINS:
        other = ctx.attempt(load, p, TWINS[key], settings=st)
        ctx.check(got.ok == other.ok, "as a dataclass", lambda: f"{got!r}, but {other!r}")
        if got.ok:
            ctx.check(conj(*[same(getattr(got.value, f.name), getattr(other.value, f.name)) for f in ty.fields]), "values as in a dataclass", lambda: f"{got!r}, but {other!r}")
            ctx.check(type(got.value) is ty.cls, "class of the result")


@harness("C30", "dump", shards=[{"key": k} for k in TYPES], cover=["accepted", "refused"], bounds="the same NamedTuples; every value, also with one item of another type, plain tuples, lists, objects and other NamedTuples; settings on and off; compared with the reference and a dataclass", max_paths=60000)
def dump_nt(ctx, key):
    ty = TYPES[key]
    s, st = with_settings(ctx)
    v = ty.gen(ctx, "v")
    kind = ctx.choice("kind", ["good", "bad item", "tuple", "other", "dict", "scalar"])
    if kind == "bad item":
        f = ctx.choice("f", ty.fields)
        v = v._replace(**{f.name: ctx.choice("other", [None, "s", 3, 2.5, {"a": 1}, (1, "s")])})
    elif kind == "tuple":
        v = ctx.choice("as", [tuple, list])(v)
    elif kind == "other":
        v = TNamedTuple("Other", *ty.fields).cls(*v) if ctx.flag("same fields") else PAIR.gen(ctx, "w")
    elif kind == "dict":
        v = v._asdict()
    elif kind == "scalar":
        v = scalar(ctx, "sc", ("fin",))
    got = ctx.attempt(dump, v, ty.hint, settings=st)
    agree(ctx, got, lambda: ty.ref_dump(v, s), "dump")
    if key in TWINS and kind in ("good", "bad item"):
        other = ctx.attempt(dump, TWINS[key](**v._asdict()), TWINS[key], settings=st)
        ctx.check(got.ok == other.ok, "as a dataclass", lambda: f"{got!r}, but {other!r}")
        if got.ok:
            ctx.check(same(got.value, other.value), "as a dataclass", lambda: f"{got!r}, but {other!r}")


def place(ctx, spot, ty):
    return {
        "list": lambda: TSeq(ty, width=2), "vtuple": lambda: TSeq(ty, "vtuple", width=2), "value": lambda: TDict(STR, ty, width=1), "tuple": lambda: TTuple(STR, ty, ty), "optional": lambda: TOpt(ty),
        "field": lambda: TDC("Has30", F("a", ty), F("b", INT, default=1)), "aliased": lambda: TDC("HasA30", F("a", ty, aliases=("z",), extra=([],))), "key": lambda: TTypedDict("HasK30", F("a", ty)),
        "member": lambda: TUnion(ty, TDC("Wrap30", F("only", INT))), "last": lambda: TUnion(TDC("Wrap30", F("only", INT)), ty), "box": lambda: TBox(ty, width=0), "nt": lambda: TNamedTuple("HasN30", F("a", ty), F("b", TOpt(ty), default=None)),
        "noted": lambda: Noted(ty, ("x", None), ctx.flag("nested")),
    }[spot]()


def around(ctx, ty):
    """What is around the position may have annotations, too."""
    return Noted(ty, ("x", None), ctx.flag("nested")) if ctx.flag("noted") else ty


def inside(spot, v, w):
    return {"list": lambda: [v, w], "vtuple": lambda: [v, w], "value": lambda: {"k": v}, "tuple": lambda: ["s", w, v], "field": lambda: {"a": v}, "aliased": lambda: {"z": v}, "key": lambda: {"a": v}, "box": lambda: {"content": v}, "nt": lambda: {"a": w, "b": v}}.get(spot, lambda: v)()


SPOTS = ("list", "vtuple", "value", "tuple", "optional", "field", "aliased", "key", "member", "last", "box", "nt", "noted")


@harness("C30", "places", shards=[{"spot": s} for s in SPOTS], cover=["accepted", "refused"], bounds="3 NamedTuples in 13 places, with and without annotations around them; payloads as above", max_paths=60000)
def places(ctx, spot):
    ty = TYPES[ctx.choice("ty", ["pair", "def", "alias"])]
    full = place(ctx, spot, ty) if spot == "noted" else around(ctx, place(ctx, spot, ty))
    p = inside(spot, payload(ctx, ty), {"a": 1, "b": "s"} if ty is not ALIAS else {"x": 1})
    got = ctx.attempt(load, p, full.hint)
    agree(ctx, got, lambda: full.ref_load(p, S()), "load")


@harness("C30", "places_dump", shards=[{"spot": s} for s in SPOTS], cover=["accepted"], bounds="3 NamedTuples in 13 places, with and without annotations around them; every value; loaded back", max_paths=60000)
def places_dump(ctx, spot):
    ty = TYPES[ctx.choice("ty", ["pair", "def", "alias"])]
    full = place(ctx, spot, ty) if spot == "noted" else around(ctx, place(ctx, spot, ty))
    st = [SerializeDefaults(False)] if ctx.flag("no defaults") else []
    s = S()
    if st:
        s.serialize_defaults = False
    v = full.gen(ctx, "v")
    got = ctx.attempt(dump, v, full.hint, settings=st)
    agree(ctx, got, lambda: full.ref_dump(v, s), "dump")
    if got.ok and spot not in ("member", "last") and ty is not ALIAS:
        back = ctx.attempt(load, got.value, full.hint)
        ctx.check(back.ok and same(back.value, v), "read back", lambda: f"{v!r} {got!r} {back!r}")
