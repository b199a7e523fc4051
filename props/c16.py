"""Enumerations are written by first alias or name and read by alias or name."""

from databind.core import Strict
from databind.json import dump, get_object_mapper, load
from props.zoo import *
from symex.harness import harness

A = Alias


class Single(enum.Enum):
    ONLY: t.Annotated[str, A("only")] = "only-value"


class Swapped(enum.Enum):
    """Aliases that are the names of other members."""

    LEFT: t.Annotated[int, A("RIGHT")] = 1
    RIGHT: t.Annotated[int, A("LEFT", "right")] = 2
    UP = 3


class Values(enum.Enum):
    """Values that are the names of other members."""

    A = "B"
    B = "A"
    C = "C"
    D = None
    E = (1, 2)


class Dup(enum.Enum):
    """Two names of one member."""

    FIRST = 1
    SECOND = 2
    AGAIN = 1


class DupAli(enum.Enum):
    """As above, with aliases."""

    FIRST: t.Annotated[int, A("f", "g")] = 1
    SECOND = 2
    AGAIN = 1


class Texts(str, enum.Enum):
    X = "x-value"
    Y: t.Annotated[str, A("why")] = "y-value"


class Flags(enum.Flag):
    R = 1
    W = 2


class Perm(enum.Flag):
    """A combination with a name (which is not iterated)."""

    R = 1
    W: t.Annotated[int, A("write")] = 2
    RW: t.Annotated[int, A("rw", "both")] = 3
    X = 4


class DupAgain(enum.Enum):
    """The second name of a member has an alias."""

    FIRST = 1
    SECOND = 2
    AGAIN: t.Annotated[int, A("again", "more")] = 1


class Base(enum.Enum):
    def hello(self):
        return self.name


class Derived(Base):
    P: t.Annotated[int, A("pp")] = 1
    Q = 2


class Other(enum.Enum):
    RED = 1
    GREEN = 2
    BLUE = 3


class Plain(enum.Enum):
    RED: int = 10
    OFF: "t.Annotated[int, A('no', 'off')]" = 11
    ON: t.Annotated[int, "text", A("yes"), A("ja")] = 12


class Ints(enum.IntEnum):
    NEG = -1
    ZERO = 0
    ONE = 1
    BIG = 2**70
    ALSO = 1


class IntsAli(enum.IntEnum):
    LO: t.Annotated[int, A("low")] = 5
    HI: t.Annotated[int, A("high")] = 10


class IntF(enum.IntFlag):
    R = 1
    W = 2


# enumeration -> member -> names by which it is read (the first is the one that is written)
SPEC = {
    Color: {"RED": ["RED"], "GREEN": ["GREEN"], "BLUE": ["BLUE"]},
    Pet: {"CAT": ["CAT"], "LION": ["KITTY", "BIG", "LION"], "DOG": ["HOUND", "DOG"]},
    Single: {"ONLY": ["only", "ONLY"]},
    Values: {"A": ["A"], "B": ["B"], "C": ["C"], "D": ["D"], "E": ["E"]},
    Dup: {"FIRST": ["FIRST", "AGAIN"], "SECOND": ["SECOND"]},
    DupAli: {"FIRST": ["f", "g", "FIRST", "AGAIN"], "SECOND": ["SECOND"]},
    Texts: {"X": ["X"], "Y": ["why", "Y"]},
    Flags: {"R": ["R"], "W": ["W"]},
    Perm: {"R": ["R"], "W": ["write", "W"], "RW": ["rw", "both", "RW"], "X": ["X"]},
    IntF: {"R": ["R"], "W": ["W"]},
    DupAgain: {"FIRST": ["FIRST", "AGAIN", "again", "more"], "SECOND": ["SECOND"]},
    Derived: {"P": ["pp", "P"], "Q": ["Q"]},
    Swapped: {"LEFT": ["RIGHT"], "RIGHT": ["LEFT", "right"], "UP": ["UP"]},
    Plain: {"RED": ["RED"], "OFF": ["no", "off", "OFF"], "ON": ["yes", "ON"]},
}
INTS = [Level, Ints, IntsAli]
OTHERS = [Other.RED, Color.RED, Pet.LION, Level.MID, Texts.X, Single.ONLY, Ints.ONE, IntF.R]


def every(ctx, name):
    return json_value(ctx, name, depth=1, width=1)


@harness("C16", "load", shards=[{"cls": c} for c in SPEC], cover=["accepted", "refused"], bounds="every JSON value (containers up to 1 entry), strict or not")
def load_enum(ctx, cls):
    v = every(ctx, "v")
    strict = ctx.flag("strict")
    got = ctx.attempt(load, v, cls, settings=[Strict(strict)])
    want = None
    if type(v) is str:
        for m, names in SPEC[cls].items():
            for n in names:
                if want is None and v == n:
                    want = cls[m]
    if want is None:
        ctx.cover("refused")
        ctx.check(not got.ok and isinstance(got.exc, ConversionError), "accepted something that is neither alias nor name", lambda: f"{v!r} -> {got!r}")
    else:
        ctx.cover("accepted")
        ctx.check(got.ok and got.value is want, "not the member of that alias or name", lambda: f"{v!r} -> {got!r} instead of {want!r}")


@harness("C16", "load_int", shards=[{"cls": c} for c in INTS], cover=["accepted", "refused"], bounds="every JSON value (containers up to 1 entry), strict or not")
def load_int(ctx, cls):
    v = every(ctx, "v")
    got = ctx.attempt(load, v, cls, settings=[Strict(ctx.flag("strict"))])
    want = None
    if type(v) is int:
        for m in cls:
            if v == m.value:
                want = m
    if want is None:
        ctx.cover("refused")
        ctx.check(not got.ok and isinstance(got.exc, ConversionError), "accepted something that is not a value", lambda: f"{v!r} -> {got!r}")
    else:
        ctx.cover("accepted")
        ctx.check(got.ok and got.value is want, "not the member of that value", lambda: f"{v!r} -> {got!r} instead of {want!r}")


def holders(cls):
    class_ = dataclasses.make_dataclass("Has" + cls.__name__, [("f", cls), ("g", t.Optional[cls], None)], module=MOD)
    return {"root": cls, "annotated": t.Annotated[cls, "text"], "optional": t.Optional[cls], "list": t.List[cls], "key": t.Dict[cls, int], "field": class_, "union": t.Union[cls, int]}


HOLD = {c: holders(c) for c in list(SPEC) + INTS}


def wrap(where, cls, x, py):
    if where == "list":
        return [x]
    if where == "key":
        return {x: 1}
    if where == "field":
        return HOLD[cls]["field"](x) if py else {"f": x, "g": None}
    return x


@harness("C16", "dump", shards=[{"cls": c} for c in list(SPEC) + INTS], cover=["done"], bounds="every member, at 7 positions")
def dump_enum(ctx, cls):
    m = ctx.choice("m", [cls[n] for n in SPEC[cls]] if cls in SPEC else list(cls))
    where = ctx.choice("where", list(HOLD[cls]))
    if cls in (Texts, IntF) and where == "union":
        where = "root"
    want = m.value if cls in INTS else SPEC[cls][m.name][0]
    hint = HOLD[cls][where]
    got = ctx.attempt(dump, wrap(where, cls, m, True), hint, settings=[Strict(False)] if ctx.flag("lenient") else None)
    exp = wrap(where, cls, want, False)
    ctx.check(got.ok and same(got.value, exp), "not written by first alias, name or value", lambda: f"{m!r} -> {got!r} instead of {exp!r}")
    if got.ok:
        if where == "union" and cls in INTS:
            pass
        else:
            back = ctx.attempt(load, got.value, hint, observe=False)
            ctx.check(back.ok and back.value == wrap(where, cls, m, True), "reading what was written gives another member", lambda: f"{m!r} -> {got.value!r} -> {back!r}")
    ctx.cover("done")


@harness("C16", "refused", shards=[{"cls": c} for c in list(SPEC) + INTS], cover=["done"], bounds="members of 8 other enumerations, combinations of flags, all names and values, every scalar")
def refused(ctx, cls):
    k = ctx.pick("kind", 5 if issubclass(cls, enum.Flag) else 4)
    if k == 4:
        v = ctx.choice("combination", [cls(i) for i in range(2 ** len(list(cls))) if cls(i).name not in SPEC[cls]])
    elif k == 0:
        v = ctx.choice("other", [x for x in OTHERS if type(x) is not cls])
    elif k == 1:
        v = ctx.choice("m", list(cls)).name
    elif k == 2:
        v = ctx.choice("m", list(cls)).value
    else:
        v = scalar(ctx, "v")
    got = ctx.attempt(dump, v, cls)
    ctx.check(not got.ok and isinstance(got.exc, ConversionError), "something that is not a member was dumped", lambda: f"{v!r} -> {got!r}")
    if k == 0:
        got = ctx.attempt(load, v, cls)
        fine = cls in INTS and type(v) is int
        ctx.check(fine or (not got.ok and isinstance(got.exc, ConversionError)) or isinstance(v, (str, int)), "a member of another enumeration was loaded", lambda: f"{v!r} -> {got!r}")
        ctx.check(not got.ok or type(got.value) is cls, "not a member", lambda: repr(got))
    ctx.cover("done")


@harness("C16", "made", shards=[{"n": n} for n in (1, 2, 3)], cover=["done"], bounds="enumerations of up to 3 members with up to 2 aliases each (one member with up to 4), drawn from 7 names")
def made(ctx, n):
    """Enumerations made with arbitrary (possibly overlapping) aliases."""
    pool = ["a", "b", "M0", "M1", "x"]
    ali = []
    for i in range(n):
        k = ctx.pick(f"k{i}", {1: 5, 2: 3, 3: 2}[n])
        ali.append([ctx.choice(f"al{i}.{j}", pool) if j < 2 else f"more{j}" for j in range(k)])
        if n == 1 and k > 2 and ctx.flag("reversed"):
            ali[i].reverse()

    def body(ns):
        ann = {}
        for i in range(n):
            ns[f"M{i}"] = i + 1
            if ali[i]:
                ann[f"M{i}"] = t.Annotated[int, Alias(*ali[i])]
        ns["__annotations__"] = ann

    members = enum.EnumMeta.__prepare__("Made", (enum.Enum,))
    body(members)
    members["__module__"] = MOD
    cls = enum.EnumMeta("Made", (enum.Enum,), members)
    for i, m in enumerate(list(cls)):
        got = dump(m, cls)
        ctx.check(got == (ali[i][0] if ali[i] else m.name), "not written by first alias or name", lambda: f"{ali} {m!r} -> {got!r}")
    v = ctx.str("v")
    got = ctx.attempt(load, v, cls)
    want = None
    for i, m in enumerate(list(cls)):  # aliases come first
        for a in ali[i]:
            if want is None and v == a:
                want = m
    if want is None:
        for m in list(cls):
            if v == m.name:
                want = m
    if want is None:
        ctx.check(not got.ok and isinstance(got.exc, ConversionError), "accepted", lambda: f"{ali}: {v!r} -> {got!r}")
    else:
        ctx.check(got.ok and got.value is want, "not the member of that alias or name", lambda: f"{ali}: {v!r} -> {got!r} instead of {want!r}")
    ctx.cover("done")
