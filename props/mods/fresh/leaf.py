class K:
    class N:
        pass
