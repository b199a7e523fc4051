"""Registration of harnesses."""

REGISTRY = {}  # property -> [Harness]


class Harness:
    def __init__(self, prop, name, fn, shards, thorough_shards, cover, bounds, max_paths, setup):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.shards = shards
        self.thorough_shards = thorough_shards
        self.cover = set(cover)
        self.bounds = bounds
        self.max_paths = max_paths
        self.setup = setup

    def shard_list(self, tier):
        s = self.thorough_shards if tier == "thorough" and self.thorough_shards is not None else self.shards
        s = s() if callable(s) else s
        return list(s) if s is not None else [{}]


def harness(prop, name, shards=None, thorough=None, cover=(), bounds="", max_paths=None, setup=None):
    def deco(fn):
        REGISTRY.setdefault(prop, []).append(
            Harness(prop, name, fn, shards, thorough, cover, bounds, max_paths, setup)
        )
        return fn

    return deco


def find(prop, name):
    for h in REGISTRY.get(prop, []):
        if h.name == name:
            return h
    raise KeyError((prop, name))
