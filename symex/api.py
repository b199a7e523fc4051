"""Helpers for harnesses that must not be rewritten (work on symbolic and on concrete truth values)."""

from . import engine as _eng


def conj(*bs):
    if _eng.CURRENT is None:
        return all(bs)
    from .values import and_

    return and_(*bs)


def disj(*bs):
    if _eng.CURRENT is None:
        return any(bs)
    from .values import or_

    return or_(*bs)


def neg(b):
    if _eng.CURRENT is None:
        return not b
    from .values import not_

    return not_(b)


def symbolic():
    return _eng.CURRENT is not None
