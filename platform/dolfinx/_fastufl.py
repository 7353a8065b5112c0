"""UFL collects the constants of a whole form each time a term is added (quadratic in the
number of terms).  Remember them for each integral instead; the result is the same."""
import ufl.algorithms.analysis as analysis
from ufl.form import Form

_plain = analysis.extract_constants
_memo = {}


def extract_constants(a):
    if type(a) is not Form:
        return _plain(a)
    if len(_memo) > 60000:
        _memo.clear()
    out = set()
    for it in a.integrals():
        hit = _memo.get(id(it))
        if hit is None or hit[0] is not it:
            hit = _memo[id(it)] = (it, tuple(_plain(it)))
        out.update(hit[1])
    return analysis.sorted_by_count(out)


analysis.extract_constants = extract_constants
