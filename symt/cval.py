"""Python-level symbolic scalars (values that left tensor land)."""
from . import term as T


class SymFloat(float):
    """a float with a term; comparisons become path conditions"""

    def __new__(cls, v, node, sh):
        o = float.__new__(cls, v)
        o.node = node
        o.sh = sh
        return o

    def _o(self, o):
        return o.node if isinstance(o, SymFloat) else T.const(float(o)) if isinstance(o, (int, float)) else None

    def _cmp(self, f, o):
        n = self._o(o)
        if n is None:
            return NotImplemented
        return self.sh.branch(f(self.node, n))

    def __lt__(self, o):
        return self._cmp(T.lt, o)

    def __le__(self, o):
        return self._cmp(T.le, o)

    def __gt__(self, o):
        return self._cmp(lambda a, b: T.lt(b, a), o)

    def __ge__(self, o):
        return self._cmp(lambda a, b: T.le(b, a), o)

    def __eq__(self, o):
        return self._cmp(T.eq, o)

    def __ne__(self, o):
        return self._cmp(lambda a, b: T.bnot(T.eq(a, b)), o)

    def __hash__(self):
        return float.__hash__(self)

    def __bool__(self):
        return self.sh.branch(T.bnot(T.eq(self.node, T.ZERO)))

    def _ar(self, f, o):
        n = self._o(o)
        if n is None:
            return NotImplemented
        r = f(self.node, n)
        return SymFloat(r.val, r, self.sh)

    def __add__(self, o):
        return self._ar(lambda a, b: a + b, o)

    __radd__ = __add__

    def __sub__(self, o):
        return self._ar(lambda a, b: a - b, o)

    def __rsub__(self, o):
        return self._ar(lambda a, b: b - a, o)

    def __mul__(self, o):
        return self._ar(lambda a, b: a * b, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._ar(lambda a, b: a / b, o)

    def __rtruediv__(self, o):
        return self._ar(lambda a, b: b / a, o)

    def __neg__(self):
        return SymFloat(-float(self), -self.node, self.sh)

    def __abs__(self):
        return SymFloat(abs(float(self)), T.absv(self.node), self.sh)
