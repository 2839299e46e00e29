"""Never reuse bytecode of the code under test (its sources are compiled as they are now); bytecode
of installed libraries is used as usual."""
import importlib._bootstrap_external as _b

_orig = _b.cache_from_source


def _cache_from_source(path, *a, **k):
    if str(path).startswith(("/repo/", "/verif/")):
        raise NotImplementedError
    return _orig(path, *a, **k)


_b.cache_from_source = _cache_from_source
