"""Modules that are not imported before they are needed."""


class K:
    class N:
        pass
