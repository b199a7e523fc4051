"""From a z3 model of a path to concrete inputs (and the concrete picture of symbolic results)."""

import json

import z3

from .ctx import encode
from .values import (
    FLOAT_SCALE, FLOAT_TEXTS, FSTR_SAMPLES, INT_TEXTS, NOT_INT_TEXTS, OpaqueParse, SBool, SEncoded, SFloat, SFold, SInt, SObj, SStr, SVal, Sym, XDict, XFrozen, XSet, pystr,
    strval,
)


def opaque_hints(engine):
    """Constraints that tie the opaque functions used on this path to real samples of them."""
    hints = []
    for ev in engine.opaque_events:
        if ev[0] == "fmt":
            _, ot, tok, text, real = ev
            alts = []
            for i, o in enumerate(list(ot.pool)):
                try:
                    alts.append(z3.And(tok == i, text == strval(real(o))))
                except Exception:
                    pass
            hints.append(z3.Or(*alts) if alts else z3.BoolVal(False))
        elif ev[0] == "int":
            _, e, val = ev
            if val is None:
                hints.append(z3.Or([e == strval(x) for x in NOT_INT_TEXTS]))
            else:
                hints.append(z3.Or([z3.And(e == strval(x), val == int(x)) for x in INT_TEXTS]))
        elif ev[0] == "fstr":
            _, n, e = ev
            hints.append(z3.Or([z3.And(n == i, e == strval(str(i / FLOAT_SCALE))) for i in FSTR_SAMPLES]))
        elif ev[0] == "float":
            _, e, kind, val = ev
            hints.append(z3.Or([
                e == strval(x) if kind != 1 else z3.And(e == strval(x), val == int(float(x) * FLOAT_SCALE))
                for x in FLOAT_TEXTS[kind]
            ]))
        elif ev[0] == "ok":
            _, p, s, tok = ev
            alts = []
            for txt in p.good + (list(_inverse_texts(p)) if type(s) is SStr else []):
                try:
                    o = p.real(txt)
                except Exception:
                    continue
                alts.append(z3.And(_is(s, txt), tok == p.ot.index(o)))
            hints.append(z3.Or(*alts) if alts else z3.BoolVal(False))
        elif ev[0] == "bad":
            _, p, s, exc = ev
            alts = []
            for txt in p.bad:
                try:
                    p.real(txt)
                except exc:
                    alts.append(_is(s, txt))
                except Exception:
                    pass
            hints.append(z3.Or(*alts) if alts else z3.BoolVal(False))
    for name, (kind, e) in engine.inputs.items():
        if kind == "opaque":
            tok, ot = e
            hints.append(z3.And(tok >= 0, tok < ot.base))
    return hints


def _is(s, v):
    if type(s) is SStr:
        return s.e == strval(v)
    return s.e == (int(v * FLOAT_SCALE) if type(s) is SFloat else v)


def _inverse_texts(p):
    inv = p.inverse_of
    for o in list(p.ot.pool)[:6]:
        try:
            if inv == "str":
                yield str(o)
            elif inv == "b64":
                import base64

                yield base64.b64encode(o).decode()
        except Exception:
            pass


class Concretizer:
    def __init__(self, model):
        self.m = model
        self.memo = {}

    def ev(self, e):
        return self.m.eval(e, model_completion=True)

    def __call__(self, x):
        t = type(x)
        if not issubclass(t, Sym):
            return x
        if t is SVal:
            if x.done:
                return self(x.val)
            return {"null": None, "bool": False, "int": 0, "float": 0.0, "str": "", "list": [], "dict": {}}.get(
                x.kinds[0][0], "<lazy>"
            )
        if t is SBool:
            return z3.is_true(self.ev(x.e))
        if t is SInt:
            v = self.ev(x.e).as_long()
            return v if x.pycls is int else x.pycls(v)
        if t is SFloat:
            return self.ev(x.e).as_long() / FLOAT_SCALE
        if t is SStr:
            if x.origin is not None and x.origin[0] in ("int", "float", "bool"):
                return str(self(x.origin[1]))
            if x.origin is not None and x.origin[0] in ("json", "jsontext"):
                return json.dumps(self.deep(x.origin[1]), **(x.origin[2] if len(x.origin) > 2 else {}))
            return pystr(self.ev(x.e))
        if t is SFold:
            r = self(x.base)
            for o in x.ops:
                r = getattr(r, o)()
            return r
        if t is SObj:
            i = self.ev(x.e).as_long()
            return x.ot.pool[i] if 0 <= i < len(x.ot.pool) else f"<{x.ot.name} {i}>"
        if t is SEncoded:
            return x.real(self(x.obj)).encode()
        raise TypeError(t)

    def deep(self, x):
        x = self(x)
        if isinstance(x, dict):
            return {self.deep(k): self.deep(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [self.deep(v) for v in x]
        return x


def build(engine, model):
    """The witness: every named input of this path under *model*."""
    w = {}
    for name, (kind, e) in engine.inputs.items():
        if kind == "const":
            w[name] = encode(e)
        elif kind == "opaque":
            w[name] = encode(model.eval(e[0], model_completion=True).as_long())
        else:
            v = model.eval(e, model_completion=True)
            if kind == "bool":
                w[name] = z3.is_true(v)
            elif kind == "int":
                w[name] = encode(v.as_long())
            elif kind == "str":
                w[name] = encode(pystr(v))
    for name, sv in engine.lazies.items():
        w[name] = encode(sv.kinds[0][0])
    return w
