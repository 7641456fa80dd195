"""Stand-in for a native module that no check needs: every use is 'unsupported'."""


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    from engine.sym import Unsupported

    def new(cls, *a, **k):
        raise Unsupported("native " + name)

    return type(name, (), {"__new__": new})
