"""Classes derived from those in first.py; names mean something else here."""

from __future__ import annotations

import dataclasses
import typing as t

from props.mods import first
from props.mods.first import Later, UsesAlias

V = t.TypeVar("V")


@dataclasses.dataclass
class Item:
    s: str


@dataclasses.dataclass
class Late:
    n: int


@dataclasses.dataclass
class Sub(Later[Item]):
    mine: t.Optional[Item] = None
    theirs: t.Optional[first.Item] = None


@dataclasses.dataclass
class SubV(Later[t.List[V]], t.Generic[V]):
    late: t.Optional[V] = None


@dataclasses.dataclass
class Over(Later[int]):
    item: Item


@dataclasses.dataclass
class SubAlias(UsesAlias):
    extra: t.Optional[Late] = None


class NotDecorated(Later[str]):
    item: Item
