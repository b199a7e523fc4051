"""Typed dictionaries with forward references into this module (see c18.py)."""

import typing as t


class Item(t.TypedDict):
    n: int


class Base(t.TypedDict):
    item: "Item"
    later: "t.Optional[Late]"
    num: int = 5  # type: ignore[misc]


class Late(t.TypedDict, total=False):
    s: str
