"""Names that this 2019 code base uses and that newer Python/numpy releases dropped,
put back under their old meaning (same content as the sandbox's py39_compat)."""
import collections
import collections.abc
import numpy

for _n in collections.abc.__all__:
    if not hasattr(collections, _n):
        setattr(collections, _n, getattr(collections.abc, _n))
for _t in (bool, int, float, complex, object, str):
    if _t.__name__ not in vars(numpy):
        setattr(numpy, _t.__name__, _t)
