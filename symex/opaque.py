"""Opaque library functions: what the checks assume about code outside /repo (stubs, see DESIGN.md)."""

import base64
import binascii
import datetime
import decimal
import json
import pathlib
import uuid

import z3
from nr.date import duration

from .values import OpaqueParse, OpaqueType, SEncoded, SFloat, SFold, SInt, SObj, SStr, Sym, is_sym, pytype, realize, resolve

D = decimal.Decimal
UTC = datetime.timezone.utc

TYPES = {}


def _t(name, cls, pool):
    TYPES[name] = OpaqueType(name, cls, pool)
    return TYPES[name]


T_DEC = _t("decimal", D, [D("0"), D("1.5"), D("-12.25"), D("1E+3"), D("0.1")])
T_UUID = _t("uuid", uuid.UUID, [uuid.UUID(int=0), uuid.UUID(int=5), uuid.UUID(int=2**128 - 1)])
T_PATH = _t("path", type(pathlib.Path("a")), [pathlib.Path("a"), pathlib.Path("/x/y"), pathlib.Path(".")])
T_PPATH = _t("purepath", type(pathlib.PurePath("a")), [pathlib.PurePath("a"), pathlib.PurePath("/x/y"), pathlib.PurePath(".")])
T_DUR = _t("duration", duration, [duration(days=1), duration(hours=2, minutes=3), duration(years=1, months=2)])
T_BYTES = _t("bytes", bytes, [b"", b"a", b"abc", b"\x00\xff\xfe"])
T_DATE = _t("date", datetime.date, [datetime.date(2020, 2, 29), datetime.date(1999, 12, 31), datetime.date(1, 1, 1)])
T_TIME = _t("time", datetime.time, [datetime.time(1, 2, 3), datetime.time(23, 59, 59, 500000), datetime.time(0, 0)])
T_DT = _t(
    "datetime", datetime.datetime,
    [datetime.datetime(2020, 2, 29, 12, 30, 15, tzinfo=UTC), datetime.datetime(1999, 12, 31, 23, 59, 59, 250000, tzinfo=UTC),
     datetime.datetime(2021, 1, 1, 0, 0, 0)],
)


def _b64(d):
    return base64.b64encode(d).decode("ascii")


PARSE = {
    "decimal": OpaqueParse("decimal", T_DEC, D, [decimal.InvalidOperation], ["2.50", " 7 ", "-0"], ["", "abc", "1.2.3"], "str"),
    "uuid": OpaqueParse("uuid", T_UUID, uuid.UUID, [ValueError], ["{00000000-0000-0000-0000-000000000005}"], ["", "xyz", "00"], "str"),
    "path": OpaqueParse("path", T_PATH, pathlib.Path, [], ["b", "c/d", ""], [], "str", total=True),
    "purepath": OpaqueParse("purepath", T_PPATH, pathlib.PurePath, [], ["b", "c/d", ""], [], "str", total=True),
    "duration": OpaqueParse("duration", T_DUR, duration.parse, [ValueError], ["P3D"], ["", "P", "1 day"], "str"),
    "b64": OpaqueParse("b64", T_BYTES, base64.b64decode, [ValueError], ["Zm9v", "YQ==!", "!"], ["a", "YWJ", "é"], "b64"),
}
NUMBERS = [0, 1, -7, 1250, 10**30]
PARSE["decimal_int"] = OpaqueParse("decimal_int", T_DEC, D, [], NUMBERS, [], total=True)
PARSE["decimal_float"] = OpaqueParse("decimal_float", T_DEC, D, [], [0.0, 1.5, -2.125, 1234.0], [], total=True)
# binascii.Error is a ValueError; non-ASCII text raises plain ValueError


# samples for the nr.date formats (which of them a format accepts is found by trying)
DATE_TEXTS = [
    "", "x", "2020-13-45", "2001-02-03", "2001-13-03", "20010203", "2001", "03.02.2001", "03/02/2001", "10:20", "10:20:30", "102030",
    "2001-02-03T10:20:30Z", "2001-02-03T10:20", "2001-02-03 10:20", "25:00",
]


def deep_sym(x):
    if issubclass(type(x), Sym):
        return True
    if isinstance(x, dict):
        return type(x).__name__ == "XDict" or any(deep_sym(k) or deep_sym(v) for k, v in x.items())
    return isinstance(x, (list, tuple)) and any(deep_sym(v) for v in x)


def check_json(x):
    x = resolve(x)
    if isinstance(x, dict):
        for k, v in x.items():
            if not isinstance(resolve(k), (str, int, float, bool, type(None))):
                raise TypeError(f"keys must be str, int, float, bool or None, not {type(k).__name__}")
            check_json(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            check_json(v)
    elif x is not None and not isinstance(x, (str, int, float, bool)):
        raise TypeError(f"Object of type {pytype(x).__name__} is not JSON serializable")


def install():
    from . import hooks

    def decimal_call(value=0, context=None):
        if type(value) is SStr or type(value).__name__ in ("SFold",):
            return PARSE["decimal"](value)
        if context is None and type(value) is SInt:
            return PARSE["decimal_int"](value)
        if context is None and type(value) is SFloat:
            return PARSE["decimal_float"](value)
        return D(realize(value), context)

    hooks.register_opaque(D, decimal_call)
    hooks.register_opaque(uuid.UUID, lambda s, *a, **k: PARSE["uuid"](s) if not a and not k else uuid.UUID(realize(s), *a, **k))

    def path_call(cls, key):
        def f(*a, **k):
            if len(a) == 1 and type(a[0]) is SStr and not k:
                return PARSE[key](a[0])
            if len(a) == 1 and type(a[0]) is SObj:
                return a[0] if a[0].ot is PARSE[key].ot else cls(realize(a[0]))
            return cls(*[realize(x) for x in a], **k)

        return f

    hooks.register_opaque(pathlib.Path, path_call(pathlib.Path, "path"))
    hooks.register_opaque(pathlib.PosixPath, path_call(pathlib.PosixPath, "path"))
    hooks.register_opaque(pathlib.PurePath, path_call(pathlib.PurePath, "purepath"))
    hooks.register_opaque(pathlib.PurePosixPath, path_call(pathlib.PurePosixPath, "purepath"))
    hooks.register_opaque(
        duration.parse.__func__, lambda cls, s: PARSE["duration"](s) if type(s) is SStr else duration.parse(realize(s))
    )

    # other encodings of bytes: one pair of functions for each
    def encoder(name, real):
        def encode(s, *a, **k):
            if type(s) is SObj and s.ot is T_BYTES:
                key = name + "".join(f":{realize(x)!r}" for x in [*a, *k.items()])
                return SEncoded(s, key, lambda d: real(d, *a, **k).decode("ascii"))
            return real(realize(s), *a, **k)

        return encode

    decoders = {}

    def decoder(name, real, inverse):
        def decode(s, *a, **k):
            if type(s) is not SStr:
                return real(realize(s), *a, **k)
            key = name + "".join(f":{realize(x)!r}" for x in [*a, *k.items()])
            if key not in decoders:
                p = decoders[key] = OpaqueParse(
                    "bytes_" + str(len(decoders)), T_BYTES, lambda v: real(v, *a, **k), [ValueError], [], [], key.replace(name, inverse)
                )
                p.good = p.bad = ["", "a", "é", "YQ==!", "Zm9v", "YWJ", "AP/+", "AP_-", "00FF", "MFRGG===", "0"] + [
                    f(o).decode() for o in list(T_BYTES.pool) for f in (base64.b64encode, base64.b32encode, base64.b16encode)
                ]
            return decoders[key](s)

        return decode

    def b64encode(s, altchars=None):
        if type(s) is SObj and s.ot is T_BYTES and altchars is None:
            return SEncoded(s, "b64", _b64)
        return encoder("b64", base64.b64encode)(s, *[x for x in [altchars] if x is not None])

    def b64decode(s, altchars=None, validate=False):
        if altchars is None and not validate and type(s) is SStr:
            return PARSE["b64"](s)
        if altchars is None and type(s) is SStr:  # (a text that the encoder made is always valid)
            return decoder("b64v", lambda v: base64.b64decode(v, validate=True), "b64")(s)
        return decoder("b64", lambda v, *a: base64.b64decode(v, *a, validate=validate), "b64")(s, altchars)

    for n in ("urlsafe_b64", "b32", "b16", "b85", "a85", "b32hex"):
        hooks.register_opaque(getattr(base64, n + "encode"), encoder(n, getattr(base64, n + "encode")))
        hooks.register_opaque(getattr(base64, n + "decode"), decoder(n, getattr(base64, n + "decode"), n))
    hooks.register_opaque(binascii.b2a_base64, lambda s, newline=True: (
        SEncoded(s, "b64" if not newline else "b64nl", _b64 if not newline else lambda d: _b64(d) + "\n")
        if type(s) is SObj and s.ot is T_BYTES else binascii.b2a_base64(realize(s), newline=newline)))
    hooks.register_opaque(binascii.a2b_base64, lambda s: PARSE["b64"](s) if type(s) is SStr else binascii.a2b_base64(realize(s)))

    hooks.register_opaque(base64.b64encode, b64encode)
    hooks.register_opaque(base64.standard_b64encode, b64encode)
    hooks.register_opaque(base64.b64decode, b64decode)
    hooks.register_opaque(base64.standard_b64decode, b64decode)

    # decimal.Context.create_decimal, one function for each configuration of the context and type of the argument
    contexts = {}
    KIND = {SStr: "str", SFold: "str", SInt: "int", SFloat: "float"}

    def create_decimal(self, name, x, *a, **k):
        kind = KIND.get(type(x))
        if kind is None or a or k:
            return getattr(self, name)(realize(x), *a, **k)
        c = self.copy()
        c.clear_flags()
        key = (repr(c), kind)
        p = contexts.get(key)
        if p is None:
            p = contexts[key] = OpaqueParse(
                f"decimal_{kind}_{len(contexts)}", T_DEC, lambda v: c.copy().create_decimal(v),
                [decimal.InvalidOperation] + ([decimal.Overflow] if self.Emax < 999 else []), [], [],
            )
            p.good = p.bad = {
                "str": ["", "x", " 7 ", "2.50", "1.23456", "0.99996", "-12.345", "1E+20", "1E-20", "1E+999999", "-0"],
                "int": NUMBERS + [123456789], "float": [0.0, 1.5, -2.125, 1234.0, 123456.125],
            }[kind]
        return p(x)

    hooks.OPAQUE_METHODS.append((lambda self, name: isinstance(self, decimal.Context) and name == "create_decimal", create_decimal))

    # JSON text: known by the value it stands for
    def loads(s, **k):
        s = resolve(s)
        if type(s) is SStr and s.origin is not None and s.origin[0] in ("json", "jsontext") and not k:
            return s.origin[1]
        return json.loads(realize(s), **k)

    def dumps(obj, **k):
        obj = resolve(obj)
        if any(x is not None and is_sym(x) for x in k.values()):
            k = {n: realize(x) for n, x in k.items()}
        if not deep_sym(obj):
            return json.dumps(obj, **k)
        check_json(obj)
        json.dumps({}, **k)  # (refuses options it does not know)
        return SStr(z3.FreshConst(z3.StringSort(), "jsontext"), ("jsontext", obj, k))

    hooks.special(json.loads, loads)
    hooks.special(json.dumps, dumps)

    # nr.date formatters: format_X / parse_X of date_format, time_format, datetime_format and format_set
    from nr.date import date_format, datetime_format, time_format

    fmt_types = {"date": T_DATE, "time": T_TIME, "datetime": T_DT}
    cache = {}

    def is_fmt(self, name):
        return isinstance(self, (date_format, time_format, datetime_format)) and (
            name.startswith("parse_") or name.startswith("format_")
        )

    def fmt_id(self):
        return type(self).__name__ + ":" + self.format_str

    def fmt_call(self, name, x, *a, **k):
        op, _, what = name.partition("_")
        ot = fmt_types.get(what)
        fid = fmt_id(self)
        if op == "format":
            if type(x) is SObj and x.ot is ot:
                return format_outcome(self, name, fid, ot, x)
            return getattr(self, name)(realize(x), *a, **k)
        if not is_sym(x):
            return getattr(self, name)(x, *a, **k)
        key = (fid, name)
        p = cache.get(key)
        if p is None:
            real = getattr(self, name)
            p = cache[key] = OpaqueParse(
                f"{name}_{len(cache)}", ot, real, [ValueError], [], [], f"{name[6:]}@{fid}"
            )
            p.good = p.bad = DATE_TEXTS
            for o in list(ot.pool)[:4]:
                try:
                    text = getattr(self, "format_" + what)(o)
                except Exception:
                    continue
                if text not in DATE_TEXTS:
                    DATE_TEXTS.append(text)
        return p(x)

    def format_outcome(self, name, fid, ot, x):
        real = getattr(self, name)
        return x.text(f"{name[7:]}@{fid}", real)

    hooks.OPAQUE_METHODS.append((is_fmt, fmt_call))
