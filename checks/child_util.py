"""Shared by the child processes."""


def unsupported(e):
    while e is not None:
        if any(k.__name__ == "MiniUnsupported" for k in type(e).__mro__) or isinstance(e, MemoryError):
            return True
        if isinstance(e, ImportError) and any(s in str(e) for s in ("dolfinx", "dxh", "basix", "ffcx", "MiniUnsupported")):
            return True
        e = e.__cause__ or e.__context__
    return False
