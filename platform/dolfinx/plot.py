from .errors import make_getattr

__getattr__ = make_getattr(__name__)
