import dataclasses


@dataclasses.dataclass
class K:
    n: int = 0

    class N:
        pass
