"""Typed dictionaries derived from those in tda.py; names mean something else here."""

from __future__ import annotations

import typing as t

from props.mods.tda import Base


class Item(t.TypedDict):
    s: str


class Late(t.TypedDict):
    n: int


class Sub(Base, total=False):
    mine: Item
    other: t.Optional[Late]


class SubSub(Sub):
    own: t.List[Item]
    num: str = "x"
