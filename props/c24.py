"""Custom converters attached to a type or hint replace the built-in conversion."""

from databind.core import Context, Converter, Direction, Module, ObjectMapper
from databind.core.converter import DelegateToClassmethodConverter, NoMatchingConverter
from databind.json import JsonConverter, dump, get_object_mapper, load
from databind.json.module import JsonModule
from props.zoo import *
from symex.harness import harness


class Crash(Exception):
    pass


OUTCOMES = ("result", "decline", "refuse", "crash")


class Stub(Converter):
    """A converter whose outcome is arbitrary, each time it is asked."""

    def __init__(self, ctx, name, outcomes=OUTCOMES):
        self.ctx, self.name, self.outcomes = ctx, name, outcomes
        self.calls = []
        self.memo = {}
        self.errors = []

    def outcome(self, n):
        if n not in self.memo:
            self.memo[n] = self.ctx.choice(f"{self.name}.{n}", list(self.outcomes))
        return self.memo[n]

    def convert(self, c):
        n = len(self.calls)
        self.calls.append((c.direction, c.value))
        o = self.outcome(n)
        if o == "result":
            return ("made", self.name, c.value)
        if o == "decline":
            raise NotImplementedError
        if o == "refuse":
            self.errors.append(ConversionError(self, c, f"refused by {self.name}"))
            raise self.errors[-1]
        raise Crash(self.name)


NOW = {}  # the converters of the current run, by their name


def attach(name):
    return JsonConverter(lambda: NOW[name])


@attach("c")
class Plain:
    """There is no other conversion for this."""


class PlainKid(Plain):
    pass


@attach("c")
@dataclasses.dataclass
class Data:
    x: int


@dataclasses.dataclass
class DataKid(Data):
    y: int = 0


@attach("kid")
@dataclasses.dataclass
class DataOwn(Data):
    pass


@attach("c")
class Tone(enum.Enum):
    LOW = 1
    HIGH = 2


@attach("c")
class Ints(t.List[int]):
    pass


class TNone(T):
    """No conversion."""

    def __init__(self, cls):
        self.cls = self.hint = cls

    def gen(self, ctx, name):
        return self.cls()

    def ref_load(self, v, s):
        raise Bad

    ref_dump = ref_load


class TConv(T):
    """*inner* with a converter that is asked first."""

    def __init__(self, inner, hint, *names):
        self.inner, self.hint, self.names = inner, hint, names

    def gen(self, ctx, name):
        return self.inner.gen(ctx, name + ".c")

    def ask(self, v, s, how):
        st = NOW[self.names[0]]
        n = st.asked
        st.asked = n + 1
        o = st.outcome(n)
        if o == "result":
            return ("made", st.name, v)
        if o == "crash":
            raise Crash(st.name)
        return getattr(self.inner, how)(v, s)

    def ref_load(self, v, s):
        return self.ask(v, s, "ref_load")

    def ref_dump(self, v, s):
        return self.ask(v, s, "ref_dump")

    def __repr__(self):
        return f"TConv({self.hint})"


def start(ctx, *names, outcomes=OUTCOMES):
    NOW.clear()
    for n in names:
        NOW[n] = Stub(ctx, n, outcomes)
        NOW[n].asked = 0


DATA, KID = TDC("Data", F("x", INT), cls=Data), TDC("DataKid", F("x", INT), F("y", INT, default=0), cls=DataKid)
ON = {
    "plain": TConv(TNone(Plain), Plain, "c"),
    "data": TConv(DATA, Data, "c"),
    "enum": TConv(TEnum(Tone), Tone, "c"),
    "int": TConv(INT, t.Annotated[int, attach("c")], "c"),
    "any": TConv(ANY, t.Annotated[t.Any, attach("c")], "c"),
    "list": TConv(TSeq(INT, width=1), t.Annotated[t.List[int], attach("c")], "c"),
    "opt": TConv(TOpt(INT), t.Annotated[t.Optional[int], attach("c")], "c"),
    "union": TConv(TUnion(INT, STR), t.Annotated[t.Union[int, str], attach("c")], "c"),
    "dict": TConv(TDict(STR, INT, width=1), t.Annotated[t.Dict[str, int], attach("c")], "c"),
    "both": TConv(DATA, t.Annotated[Data, attach("d")], "d", "c"),
    "two": TConv(INT, t.Annotated[int, attach("d"), attach("c")], "d", "c"),
    "lit": TConv(TLit(1, "a"), t.Annotated[t.Literal[1, "a"], attach("c")], "c"),
    "uuid": TConv(TUuid(), t.Annotated[uuid.UUID, attach("c"), "note"], "c"),
    "td": TConv(TD, t.Annotated[TD.hint, "note", attach("c")], "c"),
}


def around(ty, spot):
    return {
        "root": lambda: ty, "list": lambda: TSeq(ty, width=2), "dict": lambda: TDict(STR, ty, width=1), "optional": lambda: TOpt(ty), "tuple": lambda: TTuple(ty, INT),
        "field": lambda: TDC("Has", F("a", ty), F("b", INT, default=3)), "key": lambda: TTypedDict("HasTD", F("a", ty)), "union": lambda: TUnion(INT, ty), "nested": lambda: TSeq(TDict(STR, TOpt(ty), width=1), width=1),
    }[spot]()


def judge(ctx, got, ref, what):
    try:
        want = ref()
    except Crash as exc:
        ctx.cover("crashed")
        ctx.check(not got.ok and type(got.exc) is Crash, f"{what}: the error of the converter must come through", lambda: repr(got))
        return
    except Unspecified:
        return
    except Bad:
        ctx.cover("refused")
        ctx.check(not got.ok and isinstance(got.exc, ConversionError), f"{what}: must be refused", lambda: repr(got))
        return
    ctx.cover("accepted")
    ctx.check(got.ok and same(got.value, want), f"{what}: wrong result", lambda: f"{got!r} instead of {want!r}")


SPOTS = ["root", "list", "dict", "optional", "tuple", "field", "key", "nested"]
PLACED = [{"on": on, "spot": s} for on in ON for s in SPOTS] + [{"on": on, "spot": "union"} for on in ("plain", "data", "enum")]


@harness("C24", "load", shards=PLACED, cover=["accepted", "refused", "crashed"], bounds="every JSON value (2 levels), every outcome of the converter each time it is asked; 14 types in 9 places", max_paths=60000)
def load_with(ctx, on, spot):
    ty = around(ON[on], spot)
    start(ctx, "c", "d")
    p = json_value(ctx, "p", depth=2 if spot in ("list", "dict", "field", "key") else 1, width=2 if spot == "tuple" else 1, floats=("fin",)) if spot not in ("field", "key", "nested") else shaped(ctx, spot)
    got = ctx.attempt(load, p, ty.hint)
    judge(ctx, got, lambda: ty.ref_load(p, S()), "load")


def shaped(ctx, spot):
    v = json_value(ctx, "p.v", depth=1, width=1, floats=("fin",))
    if spot == "nested":
        return [{"k": v}]
    return {"a": v}


@harness("C24", "dump", shards=PLACED, cover=["accepted", "refused", "crashed"], bounds="every value of the type, and any other kind of value, every outcome of the converter; 14 types in 9 places", max_paths=60000)
def dump_with(ctx, on, spot):
    ty = around(Wild(ON[on], ("json", "list", "dict", "other") if spot == "root" else ("json", "list")), spot)
    start(ctx, "c", "d")
    v = ty.gen(ctx, "v")
    got = ctx.attempt(dump, v, ty.hint)
    judge(ctx, got, lambda: ty.ref_dump(v, S()), "dump")


@harness("C24", "exact", shards=[{"hint": h} for h in ("Plain", "PlainKid", "Data", "DataKid", "DataOwn", "int", "list")], cover=["asked", "not asked"], bounds="7 hints, values of all the classes, every JSON value")
def exact(ctx, hint):
    """The converter of a class is asked for that class, not for its subclasses or bases, and not for its values under another hint."""
    h = {"Plain": Plain, "PlainKid": PlainKid, "Data": Data, "DataKid": DataKid, "DataOwn": DataOwn, "int": int, "list": t.List[int]}[hint]
    start(ctx, "c", "kid", outcomes=("result", "decline"))
    own = {"Plain": "c", "Data": "c", "DataOwn": "kid"}.get(hint)
    if ctx.flag("load"):
        v = json_value(ctx, "v", depth=1, width=2, floats=("fin",))
        got = ctx.attempt(load, v, h)
    else:
        v = ctx.choice("value", [lambda: Plain(), lambda: PlainKid(), lambda: Data(ctx.int("x")), lambda: DataKid(ctx.int("x"), 2), lambda: DataOwn(1), lambda: ctx.int("i"), lambda: [ctx.int("i")]])()
        got = ctx.attempt(dump, v, h)
    for name, st in NOW.items():
        if name == own:
            ctx.cover("asked")
            ctx.check(len(st.calls) == 1 and st.calls[0][1] is v, "the converter must be asked once, for the value", lambda: f"{name} {st.calls}")
            if st.outcome(0) == "result":
                ctx.check(got.ok and type(got.value) is tuple and got.value[1] == name, "not the result of the converter", lambda: repr(got))
        else:
            ctx.cover("not asked")
            ctx.check(not st.calls, "the converter of another type was asked", lambda: f"{name} {st.calls}")


# -- classes that are converted through their own methods


class Methods:
    behave = None

    def __init__(self, v, how):
        self.v, self.how = v, how

    def as_json(self):
        Methods.log.append(("as_json", self))
        if Methods.behave is not None:
            raise Methods.behave
        return {"out": self.v}

    def other(self):
        Methods.log.append(("other", self))
        return "other"

    @staticmethod
    def of(v):
        Methods.log.append(("of", v))
        if Methods.behave is not None:
            raise Methods.behave
        return Methods(v, "of")

    @classmethod
    def make(cls, v):
        Methods.log.append(("make", v))
        return cls(v, "make")


class SubMethods(Methods):
    pass


SERIALIZED = [None, str, int, bool, float, list, dict, (str, int), (), type(None)]


@harness("C24", "classmethods", shards=[{"place": p} for p in ("class", "hint", "list", "dict", "optional", "field", "subclass hint", "local")], cover=["read", "written", "refused"], bounds="every JSON value and kind of value; 10 declarations of serialized types; static, class and instance methods; one, both or none of them named", max_paths=60000)
def classmethods(ctx, place):
    Methods.log = []
    Methods.behave = None
    if "__databind_settings__" in vars(Methods):
        del Methods.__databind_settings__
    serialized = ctx.choice("serialized", SERIALIZED)
    ser, de = ctx.choice("methods", [("as_json", "of"), ("as_json", "make"), (None, "of"), ("as_json", None), (None, None), ("other", "make")])
    how = ctx.choice("made", ["using", "positional", "direct"])
    if how == "using":
        st = JsonConverter.using_classmethods(serialized_type=serialized, serialize=ser, deserialize=de)
    elif how == "positional":
        st = JsonConverter.using_classmethods(serialized, serialize=ser, deserialize=de)
    else:
        st = JsonConverter(DelegateToClassmethodConverter(serialized, serialize=ser, deserialize=de))
    cls = Methods
    m = get_object_mapper()
    if place == "class":
        st(Methods)
        h = Methods
    elif place == "subclass hint":
        cls = SubMethods
        h = t.Annotated[SubMethods, st]
    elif place == "local":
        m.settings.add_local(Methods, st)
        h = Methods
    else:
        h = t.Annotated[Methods, "note", st]
    wrap = {"list": lambda v: [v], "dict": lambda v: {"k": v}, "field": lambda v: {"f": v}}.get(place, lambda v: v)
    full = {"list": lambda: t.List[h], "dict": lambda: t.Dict[str, h], "optional": lambda: t.Optional[h], "field": lambda: t.TypedDict("Holds", {"f": h})}.get(place, lambda: h)()
    if ctx.flag("load"):
        v = json_value(ctx, "v", depth=1, width=1, floats=("fin",))
        ctx.assume(not (place == "optional" and v is None))
        got = ctx.attempt(m.deserialize, wrap(v), full)
        if de is None or (serialized is not None and not isinstance(v, serialized)):
            ctx.cover("refused")
            ctx.check(not got.ok and isinstance(got.exc, ConversionError), "must be refused", lambda: repr(got))
            ctx.check(not Methods.log, "no method is to be called", lambda: repr(Methods.log))
            return
        ctx.cover("read")
        ctx.check(got.ok, "must be read", lambda: repr(got))
        x = {"list": lambda r: r[0], "dict": lambda r: r["k"], "field": lambda r: r["f"]}.get(place, lambda r: r)(got.value)
        ctx.check(type(x) is (cls if de == "make" else Methods) and x.how == de and same(x.v, v), "not the result of the constructor", lambda: repr(x))
        ctx.check(len(Methods.log) == 1, "one call", lambda: repr(Methods.log))
    else:
        v = ctx.choice("value", [lambda: Methods(ctx.int("i"), ""), lambda: SubMethods(ctx.int("i"), ""), lambda: ctx.int("i"), lambda: ctx.str("s"), Alien, lambda: Methods, lambda: {"v": 1, "how": "x"}])()
        got = ctx.attempt(m.serialize, wrap(v), full)
        if ser is None or not isinstance(v, cls):
            ctx.cover("refused")
            ctx.check(not got.ok and isinstance(got.exc, ConversionError), "must be refused", lambda: repr(got))
            ctx.check(not Methods.log, "no method is to be called", lambda: repr(Methods.log))
            return
        ctx.cover("written")
        want = wrap({"out": v.v} if ser == "as_json" else "other")
        ctx.check(got.ok and same(got.value, want), "not the result of the method", lambda: repr(got))
        ctx.check(len(Methods.log) == 1 and Methods.log[0][1] is v, "one call", lambda: repr(Methods.log))


# -- the forms of the setting


class Fixed(Converter):
    def __init__(self, tag="class"):
        self.tag = tag

    def convert(self, c):
        return ("made", self.tag, c.value)


class OneWay(Converter):
    def __init__(self, way):
        self.way = way

    def serialize(self, c):
        if self.way == "dump":
            return ("made", "dump", c.value)
        raise NotImplementedError

    def deserialize(self, c):
        if self.way == "load":
            return ("made", "load", c.value)
        return Converter.deserialize(self, c)


@harness("C24", "forms", shards=[{}], cover=["converted", "other way"], bounds="a converter, its class, a function; one that converts in one direction only; at a class and a hint; any JSON value")
def forms(ctx):
    made = []

    def supply():
        made.append(1)
        return Fixed("function")

    form, tag = ctx.choice("form", [(Fixed("instance"), "instance"), (Fixed, "class"), (supply, "function"), (OneWay("dump"), "dump"), (OneWay("load"), "load")])
    st = JsonConverter(form)
    if ctx.flag("class"):
        cls = dataclasses.make_dataclass("Some", [("x", int)])
        ctx.check(st(cls) is cls, "the decorator must return the class")
        h, ty = cls, TDC("Some", F("x", INT), cls=cls)
    else:
        h, ty = t.Annotated[int, st], INT
    way = ctx.choice("way", ["load", "dump"])
    v = json_value(ctx, "v", depth=1, width=1, floats=("fin",))
    for n in range(2):
        got = ctx.attempt(load if way == "load" else dump, v, h)
        if tag in ("load", "dump") and tag != way:
            ctx.cover("other way")
            agree(ctx, got, lambda: ty.ref_load(v, S()) if way == "load" else ty.ref_dump(v, S()), way)
        else:
            ctx.cover("converted")
            ctx.check(got.ok and same(got.value, ("made", tag, v)), "not the result of the converter", lambda: repr(got))


# -- converters on mappers


def arrange(ctx, m, layout):
    """Register stubs in the way of *layout*; return them in the order in which they are to be asked."""
    order = []
    for i, c in enumerate(layout):
        st = Stub(ctx, f"s{i}")
        if c == "a":
            m.module.register(st)
            order.append([st])
        elif c == "f":
            m.module.register(st, first=True)
            order.insert(0, [st])
        elif c in "mM":
            mod = Module(f"mod{i}")
            two = Stub(ctx, f"t{i}")
            mod.register(st)
            mod.register(two, first=ctx.flag(f"mod{i}.first"))
            m.module.register(mod, first=c == "M")
            group = list(mod.converters)
            order.append(group) if c == "m" else order.insert(0, group)
        elif c == "n":
            inner, outer = Module("inner"), Module("outer")
            inner.register(st)
            outer.register(inner)
            m.module.register(outer)
            order.append([st])
        elif c == "j":
            m.module.register(JsonModule())
            order.append([None])
    return [s for g in order for s in g]


def walk(ctx, order, ty, v, how):
    """What the converters in *order* make of the value: ('value', x), ('crash', name) or ('error', errors)."""
    errors = 0
    for st in order:
        if st is None:
            try:
                return ("value", getattr(ty, how)(v, S()))
            except Bad:
                errors += 2  # (some number)
            continue
        o = st.outcome(0)
        if o == "result":
            return ("value", ("made", st.name, v))
        if o == "crash":
            return ("crash", st.name)
        if o == "refuse":
            errors += 1
    return ("error", errors)


@harness("C24", "chain", shards=[{"layout": x} for x in ("a", "aa", "af", "fa", "ff", "m", "am", "Ma", "ma", "an", "ja", "jf", "aj", "fj", "afj", "aaf", "jM", "nj")], cover=["value", "error", "crash"], thorough=[{"layout": x} for x in ("aaa", "afa", "mf", "mm", "aMa", "fan", "jaf", "jfa", "amj", "Mja", "njf", "aafj")],
         bounds="up to 3 (4) converters and modules, added first or last, nested; every outcome of each; integers and text", max_paths=100000)
def chain(ctx, layout):
    """Converters are asked in order until there is a result."""
    m = ObjectMapper()
    order = arrange(ctx, m, layout)
    v = ctx.choice("v", [lambda: ctx.int("i"), lambda: ctx.str("s")])()
    way = ctx.flag("load")
    got = ctx.attempt(m.deserialize if way else m.serialize, v, int)
    what, x = walk(ctx, order, INT, v, "ref_load" if way else "ref_dump")
    ctx.cover(what)
    if what == "value":
        ctx.check(got.ok and same(got.value, x), "not the result of the first converter that has one", lambda: f"{got!r} instead of {x!r}")
    elif what == "crash":
        ctx.check(not got.ok and type(got.exc) is Crash and got.exc.args == (x,), "the error of the converter must come through", lambda: repr(got))
    else:
        ctx.check(not got.ok and isinstance(got.exc, ConversionError), "must be refused", lambda: repr(got))
        ctx.check(x != 1 or got.exc is [s for s in order if s is not None and s.errors][0].errors[0], "a single error must come through as it is", lambda: repr(got))
        if None not in order and x != 1:
            ctx.check(isinstance(got.exc, NoMatchingConverter), "no converter", lambda: repr(got))
            ctx.check(conj(len(got.exc.errors) == x, *[any(e is s.errors[0] for _, e in got.exc.errors) for s in order if s.errors]), "the errors of all converters", lambda: repr(got.exc.errors))
    asked = True
    for st in order:
        if st is not None:
            ctx.check(len(st.calls) == (1 if asked else 0), "each converter is asked once, up to the one that has a result", lambda: f"{st.name} {st.calls}")
            if st.outcome(0) in ("result", "crash") and asked:
                asked = False
        elif what == "value" and not (type(x) is tuple):
            asked = False


@harness("C24", "isolation", shards=[{"first": f, "when": w} for f in (False, True) for w in ("before", "after")], cover=["own", "others"], bounds="a mapper with a converter, its copy taken before or after, other mappers and the module functions; any JSON value")
def isolation(ctx, first, when):
    """A converter that is registered on a mapper is not asked by others."""
    m, other = get_object_mapper(), get_object_mapper()
    early = m.copy()
    st = Stub(ctx, "st", ("result", "decline"))
    if when == "before":
        m.module.register(st, first=first)
    copy = m.copy()
    if when == "after":
        m.module.register(st, first=first)
    extra = Stub(ctx, "extra", ("result",))
    copy.module.register(extra, first=True)
    v = json_value(ctx, "v", depth=0, floats=("fin",))
    ty = INT
    for who in (m, other, early, None):
        got = ctx.attempt(who.deserialize if who else load, v, int)
        if who is m and (first or not is_int(v)):
            ctx.cover("own")
            ctx.check(len(st.calls) == 1 and not extra.calls, "the converter must be asked", lambda: repr(st.calls))
            if st.outcome(0) == "result":
                ctx.check(got.ok and same(got.value, ("made", "st", v)), "not the result of the converter", lambda: repr(got))
                st.calls.clear()
                continue
            st.calls.clear()
        else:
            ctx.cover("others")
            ctx.check(not st.calls and not extra.calls, "the converter of another mapper was asked")
        agree(ctx, got, lambda: ty.ref_load(v, S()), "load")
    got = ctx.attempt(copy.deserialize, v, int)
    ctx.check(got.ok and same(got.value, ("made", "extra", v)), "the copy has its own converters", lambda: repr(got))


def is_int(v):
    try:
        INT.ref_load(v, S())
    except Bad:
        return False
    return True


@harness("C24", "context", shards=[{"spot": s} for s in ("root", "list", "dict", "field", "tuple")], cover=["seen"], bounds="what a converter is told, in 5 places, both directions")
def context(ctx, spot):
    """The converter gets the value, its place and direction, the hint with its metadata, and can go on converting."""
    seen = []

    class Spy(Converter):
        def convert(self, c):
            seen.append(c)
            return c.spawn(c.value, int, "inner").convert()

    note = object()
    st = JsonConverter(Spy())
    h = t.Annotated[int, note, st]
    full, wrap, key = {
        "root": (h, lambda v: v, Context.ROOT), "list": (t.List[h], lambda v: [v], 0), "dict": (t.Dict[str, h], lambda v: {"k": v}, "k"),
        "field": (t.TypedDict("HasF", {"f": h}), lambda v: {"f": v}, "f"), "tuple": (t.Tuple[int, h], lambda v: (1, v), 1),
    }[spot]
    v = scalar(ctx, "v", ("fin",))
    way = ctx.choice("way", ["load", "dump"])
    got = ctx.attempt(load if way == "load" else dump, wrap(v), full)
    agree(ctx, got, lambda: (lambda x: list(wrap(x)) if spot == "tuple" and way == "dump" else wrap(x))(INT.ref_load(v, S()) if way == "load" else INT.ref_dump(v, S())), way)
    ctx.cover("seen")
    ctx.check(len(seen) == 1, "asked once", lambda: repr(seen))
    c = seen[0]
    ctx.check(c.value is v and c.direction is (Direction.DESERIALIZE if way == "load" else Direction.SERIALIZE), "the value and direction", lambda: repr(c))
    ctx.check(c.key is key or c.key == key, "the place", lambda: repr(c.key))
    ctx.check(any([x is note for x in c.datatype.metadata]), "the metadata of the hint", lambda: repr(c.datatype))
    ctx.check(c.get_setting(JsonConverter) is st, "the setting")
