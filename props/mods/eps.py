"""What the entry points in ../dist refer to (see c19.py)."""

import dataclasses


@dataclasses.dataclass
class A:
    n: int = 0


@dataclasses.dataclass
class B:
    n: int = 0

    @dataclasses.dataclass
    class Inner:
        n: int = 0


@dataclasses.dataclass
class C:
    n: int = 0


not_a_type = 3


def function():
    pass
