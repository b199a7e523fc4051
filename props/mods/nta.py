"""NamedTuples whose annotations are strings that refer to things of this module (see c30.py)."""

from __future__ import annotations

import typing as t


class Item(t.NamedTuple):
    n: int
    s: str = "d"


class Holder(t.NamedTuple):
    item: Item
    later: t.Optional[Late]
    many: t.Tuple[Item, ...] = ()


class Late(t.NamedTuple):
    x: float
