"""A schema tells the fields of a type as they are loaded and dumped."""

from typeapi import TypeHint

from databind.core import Priority, Settings
from databind.core.schema import (
    Field, Schema, convert_dataclass_to_schema, convert_to_schema, convert_typed_dict_to_schema, get_fields_expanded,
)
from databind.core.settings import Flattened, Precision, Required
from databind.core.utils import NotSet
from databind.json import load
from props.zoo import *
from symex.ctx import enum_int
from symex.harness import harness

MOD = __name__


@dataclasses.dataclass
class Part:
    p: int


def marks(ctx, allowed):
    """Settings of a field, in any number and order, with arbitrary priorities and values; and what they say."""
    out = {"alias": [], "required": [], "flattened": []}
    items = []
    for i in range(ctx.pick("settings", 3)):
        k = ctx.choice(f"s{i}", allowed + ["text"])
        if k == "text":
            items.append("text")
            continue
        prio = enum_int(ctx, f"prio{i}", Priority)
        if k == "alias":
            s = Alias(*[f"n{i}", f"m{i}"][: 1 + ctx.pick(f"names{i}", 2)], priority=prio)
        else:
            s = {"required": Required, "flattened": Flattened}[k](ctx.bool(f"on{i}"), prio)
        out[k].append(s)
        items.append(s)
    if items:
        items.append(["not hashable"])  # (typing must not keep hints with arbitrary settings)
    return items, {k: effective(v) for k, v in out.items()}


BASES = {"int": int, "opt": t.Optional[int], "union": t.Union[None, int, str], "part": Part, "any": t.Any, "list": t.List[t.Optional[int]], "forward": "Part", "forward_opt": "t.Optional[Part]"}
REAL = {"forward": Part, "forward_opt": t.Optional[Part]}
DEFAULTS = ["none", "value", "null", "factory"]


@harness("C28", "dataclass_fields", shards=[{"base": b, "default": d} for b in BASES for d in DEFAULTS], cover=["required", "free", "flattened", "aliased"], bounds="8 types, 4 kinds of defaults, up to 2 settings out of 4 with arbitrary priorities and values, 4 forms of the argument, arguments of the constructor or not")
def dataclass_fields(ctx, base, default):
    """Type, requiredness, default, flattening and aliases of a field of a dataclass."""
    items, eff = marks(ctx, ["alias", "required", "flattened"])
    hint = t.Annotated[tuple([BASES[base]] + items)] if items else BASES[base]
    real = t.Annotated[tuple([REAL.get(base, BASES[base])] + items)] if items else REAL.get(base, BASES[base])
    made = []

    def factory():
        made.append([])
        return made[-1]

    kw = {"value": {"default": 7}, "null": {"default": None}, "factory": {"default_factory": factory}}.get(default, {})
    ns = {"__annotations__": {"hidden": int, "x": hint, "k": t.ClassVar[int]}, "x": dataclasses.field(**kw), "hidden": dataclasses.field(default=1, init=False), "__module__": MOD, "k": 3}
    cls = dataclasses.dataclass(type("Made", (), ns))
    form = ctx.choice("form", ["hint", "annotated", "class", "class hint"]) if len(items) < 3 else "hint"
    if form == "hint":
        schema = convert_to_schema(TypeHint(cls))
    elif form == "annotated":
        schema = convert_to_schema(TypeHint(t.Annotated[cls, "one", 2, "one"]))
    elif form == "class":
        schema = convert_dataclass_to_schema(cls)
    else:
        schema = convert_dataclass_to_schema(TypeHint(cls))
    ctx.check(list(schema.fields) == ["x"] and schema.type is cls and schema.constructor is cls, "fields of the schema", lambda: repr(schema))
    ctx.check(schema.annotations == (["one", 2, "one"] if form == "annotated" else []), "metadata of the hint", lambda: repr(schema.annotations))
    f = schema.fields["x"]
    ctx.check(f.datatype == TypeHint(real), "type of the field", lambda: repr(f))
    optional = base in ("opt", "union", "forward_opt")
    required = eff["required"].enabled if eff["required"] else not optional and default == "none"
    expect_field(ctx, f, required, default, eff, made)
    # what the schema tells is what loading does
    if form == "hint" and not eff["flattened"]:
        got = ctx.attempt(load, {}, cls)
        ctx.check(got.ok == (not f.required) and (not got.ok or got.value.x == ({"value": 7, "factory": []}.get(default))), "loading an object without the field", lambda: repr(got))


def expect_field(ctx, f, required, default, eff, made):
    ctx.check(f.required == required, "required or not", lambda: repr(f))
    ctx.cover("required" if required else "free")
    flat = eff["flattened"].enabled if eff["flattened"] else False
    ctx.check(f.flattened == flat, "flattened or not", lambda: repr(f))
    if flat:
        ctx.cover("flattened")
    ctx.check(f.aliases == (eff["alias"].aliases if eff["alias"] else ()), "aliases", lambda: repr(f.aliases))
    if eff["alias"]:
        ctx.cover("aliased")
    if default == "none" and required:
        ctx.check(not f.has_default(), "no default", lambda: repr(f))
        got = ctx.attempt(f.get_default)
        ctx.check(not got.ok and isinstance(got.exc, RuntimeError), "there is no default to get", lambda: repr(got))
        return
    n = len(made)
    ctx.check(f.has_default(), "has a default", lambda: repr(f))
    got = [f.get_default(), f.get_default()]
    want = {"none": None, "null": None, "value": 7, "factory": []}[default]
    ctx.check(got == [want, want], "the default", lambda: repr(got))
    if default == "factory":
        ctx.check(len(made) == n + 2 and got[0] is made[n] and got[1] is made[n + 1] and f.default is NotSet.Value, "a fresh default every time", lambda: repr(made))
    else:
        ctx.check(len(made) == n and f.default_factory is NotSet.Value, "no factory", lambda: repr(f))


@harness("C28", "typed_dict_fields", shards=[{"base": b} for b in BASES], cover=["required", "free", "flattened", "aliased"], bounds="8 types, total or not, up to 2 settings out of 3 with arbitrary priorities and values, default or not, 5 forms of the argument")
def typed_dict_fields(ctx, base):
    items, eff = marks(ctx, ["alias", "required", "flattened"])
    hint = t.Annotated[tuple([BASES[base]] + items)] if items else BASES[base]
    real = t.Annotated[tuple([REAL.get(base, BASES[base])] + items)] if items else REAL.get(base, BASES[base])
    total = ctx.flag("total")
    td = t.TypedDict("Made", {"x": hint, "items": int}, total=total)
    td.__module__ = MOD
    if isinstance(hint, str):
        td.__annotations__["x"] = t.ForwardRef(hint)
    default = ctx.choice("default", ["none", "value", "null"])
    if default != "none":
        setattr(td, "x", {"value": 7, "null": None}[default])
    form = ctx.choice("form", ["hint", "annotated", "class", "class hint"]) if len(items) < 3 else "hint"
    if form == "hint":
        schema = convert_to_schema(TypeHint(td))
    elif form == "annotated":
        schema = convert_to_schema(TypeHint(t.Annotated[td, "one", 2, "one"]))
    else:
        schema = convert_typed_dict_to_schema(td if form == "class" else TypeHint(td))
    ctx.check(list(schema.fields) == ["x", "items"] and schema.type is td and schema.constructor is td, "fields of the schema", lambda: repr(schema))
    ctx.check(schema.annotations == (["one", 2, "one"] if form == "annotated" else []), "metadata of the hint", lambda: repr(schema.annotations))
    f = schema.fields["x"]
    ctx.check(f.datatype == TypeHint(real), "type of the field", lambda: repr(f))
    optional = base in ("opt", "union", "forward_opt")
    needed = eff["required"].enabled if eff["required"] else not optional and default == "none"
    ctx.check(schema.fields["items"].required == total and not schema.fields["items"].has_default(), "a key named like a method of dictionaries", lambda: repr(schema))
    ctx.check(f.required == (total if needed else False), "required or not", lambda: repr(f))
    ctx.cover("required" if f.required else "free")
    flat = eff["flattened"].enabled if eff["flattened"] else False
    ctx.check(f.flattened == flat, "flattened or not", lambda: repr(f))
    if flat:
        ctx.cover("flattened")
    ctx.check(f.aliases == (eff["alias"].aliases if eff["alias"] else ()), "aliases", lambda: repr(f.aliases))
    if eff["alias"]:
        ctx.cover("aliased")
    if default != "none" or not needed:
        ctx.check(f.has_default() and f.get_default() == (7 if default == "value" else None), "the default", lambda: repr(f))
    else:
        ctx.check(not f.has_default(), "no default", lambda: repr(f))


# -- refused arguments

X = t.TypeVar("X")


class Plain:
    a: int


class Tup(t.NamedTuple):
    a: int


@dataclasses.dataclass
class Gen(t.Generic[X]):
    a: X
    b: t.List[X]


OTHERS = {
    "int": int, "list": t.List[int], "optional": t.Optional[Part], "union": t.Union[Part, Gen[int]], "plain": Plain, "named": Tup, "dict": t.Dict[str, int], "literal": t.Literal[1], "tuple": t.Tuple[Part, Part], "any": t.Any,
    "none": None, "list of": t.List[Part],
}


@harness("C28", "refused", shards=[{"case": c} for c in OTHERS], cover=["refused"], bounds="12 types that have no schema, annotated or not, settings of arbitrary value in the annotation")
def refused(ctx, case):
    """Only dataclasses and typed dictionaries have a schema."""
    hint = OTHERS[case]
    items, _ = marks(ctx, ["alias", "required", "flattened"])
    if items:
        hint = t.Annotated[tuple([hint] + items)]
    got = ctx.attempt(convert_to_schema, TypeHint(hint))
    ctx.cover("refused")
    ctx.check(not got.ok and isinstance(got.exc, ValueError), "must be refused", lambda: repr(got))
    if case in ("optional", "union", "literal") or items:
        got = ctx.attempt(convert_typed_dict_to_schema, TypeHint(hint))
        ctx.check(not got.ok and isinstance(got.exc, TypeError), "not a class", lambda: repr(got))


@harness("C28", "generics", cover=["done"], bounds="every argument out of 6, alone or annotated, in 3 forms; asked twice with another one in between")
def generics(ctx):
    """Type parameters are replaced by the arguments; schemas do not depend on what was asked before."""
    args = [int, str, t.List[int], Part, t.Optional[str], t.Annotated[int, Alias("other"), Required(False)]]
    a, b = ctx.choice("a", args), ctx.choice("b", args)
    form = ctx.choice("form", ["alias", "hint", "annotated"])

    def ask(arg):
        if form == "alias":
            return convert_dataclass_to_schema(Gen[arg])
        return convert_to_schema(TypeHint(Gen[arg] if form == "hint" else t.Annotated[Gen[arg], "x"]))

    def expect(s, arg):
        ok = s.fields["a"].datatype == TypeHint(arg) and s.fields["b"].datatype == TypeHint(t.List[arg])
        free = arg == args[4] or arg == args[5]
        ctx.check(ok and s.type is Gen and s.annotations == (["x"] if form == "annotated" else []), "the schema for an argument", lambda: f"{s!r} for {arg}")
        ctx.check(s.fields["a"].required == (not free) and s.fields["b"].required and s.fields["a"].aliases == (("other",) if arg == args[5] else ()), "fields for an argument", lambda: f"{s!r} for {arg}")

    s1 = ask(a)
    expect(s1, a)
    s1.annotations.append("mine")  # a schema belongs to the one who asked
    s1.fields["a"].required = not s1.fields["a"].required
    s1.fields["c"] = Field(TypeHint(int))
    s1.fields.pop("b")
    expect(ask(b), b)
    s2 = ask(a)
    expect(s2, a)
    ctx.check(list(s2.fields) == ["a", "b"] and s2 == ask(a) and s2 is not s1, "the same schema again", lambda: repr(s2))
    ctx.cover("done")


# -- the fields a flattened field expands to


@harness("C28", "expanded", shards=[{"top": n, "how": h} for n in (1, 2) for h in ("default", "given")], cover=["done", "refused"], bounds="trees of schemas of 3 levels, up to 2 flattened fields in the first, arbitrary flattening in the second, names of the fields from 4 of which any may be the same", max_paths=60000)
def expanded(ctx, top, how):
    """All the fields of a flattened field at any depth, and no name twice."""
    names = ["a", "b", "c"]
    any_ = TypeHint(t.Any)

    class Leaf:
        pass

    class Mid:
        pass

    class Mid2:
        pass

    class Top:
        pass

    def fields(where, n, pool):
        out = {}
        for i in range(n):
            k = ctx.choice(f"{where}.{i}", pool)
            ctx.assume(k not in out)
            out[k] = Field(TypeHint(t.Annotated[t.Any, (where, i)]), required=ctx.bool(f"{where}.{i}.required") if how == "given" else i == 0)
        return out

    leaf = fields("leaf", 1, names)
    # the second level: a field of its own, and one that holds the third, flattened or not
    mid = fields("mid", 1, names)
    k = ctx.choice("mid.sub", ["b", "s"])
    ctx.assume(k not in mid)
    deep = ctx.bool("deep")
    mid[k] = Field(TypeHint(Leaf), flattened=deep)
    mid2 = fields("mid2", 1, names)
    tops = fields("top", 1, names)
    tops = dict(reversed(list({"f": Field(TypeHint(Mid), flattened=True), **tops}.items()))) if ctx.flag("first") else {"f": Field(TypeHint(Mid), flattened=True), **tops}
    if top == 2:
        tops["g"] = Field(TypeHint(Mid2), flattened=ctx.bool("g.flattened"))
    schemas = {Leaf: leaf, Mid: mid, Mid2: mid2, Top: tops}

    def of(hint):
        return Schema(schemas[hint.type], hint.type, hint.type)

    def ref(cls):
        out = {}
        for n, f in schemas[cls].items():
            if f.flattened:
                inner_type = (f.datatype if how == "given" else f.datatype[0]).type
                sub = schemas[inner_type]
                inner = ref(inner_type)
                out[n] = {k: v for k, v in sub.items() if not v.flattened}
                for v in inner.values():
                    out[n].update(v)
                for s in out[n]:
                    if s in schemas[cls] and s != n:
                        raise Bad
        return out

    if how == "given":
        got = ctx.attempt(get_fields_expanded, of(TypeHint(Top)), of, observe=False)
    else:
        for cls in (Leaf, Mid, Mid2, Top):
            cls.__annotations__ = {k: real(f) for k, f in schemas[cls].items()}
            cls.__module__ = MOD
        for cls in (Leaf, Mid, Mid2, Top):
            dataclasses.dataclass(cls, kw_only=True)
        schemas = {c: convert_to_schema(TypeHint(c)).fields for c in (Leaf, Mid, Mid2, Top)}
        got = ctx.attempt(get_fields_expanded, convert_to_schema(TypeHint(Top)), observe=False)
    try:
        want = ref(Top)
    except Bad:
        ctx.cover("refused")
        ctx.check(not got.ok and isinstance(got.exc, RuntimeError), "a name twice", lambda: repr(got))
        return
    ctx.cover("done")
    ctx.check(got.ok and list(got.value) == list(want) and all(set(got.value[k]) == set(want[k]) and all(got.value[k][n] == want[k][n] for n in want[k]) for k in want), "fields of the flattened fields", lambda: f"{got!r}, not {want!r}")


def real(f):
    items = [["not hashable"], Flattened(f.flattened)] + ([] if f.flattened else [Required(f.required)])
    return t.Annotated[tuple([f.datatype.hint] + items)]
