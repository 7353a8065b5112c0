class MiniUnsupported(NotImplementedError):
    """The stand-in lacks something real DOLFINx has: says nothing about the code under test."""


def make_getattr(modname):
    def __getattr__(name):
        if name.startswith("__"):
            raise AttributeError(name)
        err = MiniMissingAttr(f"module {modname} of the stand-in has no {name}")
        raise err

    return __getattr__


class MiniMissingAttr(MiniUnsupported, AttributeError):
    pass
