"""Classes with forward references into this module (see c17.py)."""

import dataclasses
import typing as t

T = t.TypeVar("T")
U = t.TypeVar("U")


@dataclasses.dataclass
class Item:
    n: int


@dataclasses.dataclass
class Later(t.Generic[T]):
    item: "Item"
    more: "t.List[Item]"
    own: "T"
    opt: "t.Optional[Item]" = None
    later: "t.Optional[Late]" = None


@dataclasses.dataclass
class Late:
    s: str


Alias = t.List["Item"]


@dataclasses.dataclass
class UsesAlias:
    items: Alias
    table: t.Dict[str, "Item"] = dataclasses.field(default_factory=dict)
