"""Symbolic numbers of a high-precision type.

They behave as `decimal.Decimal` does: arithmetic with integers and with
numbers of the type gives numbers of the type, arithmetic with other numbers
(floats) is an error; comparisons are between any numbers.  Values are exact:
rounding is not part of the theory."""
import math
from fractions import Fraction

from pyvc import algebra as A
from pyvc import core
from pyvc.core import SymReal, poly_of, _inf


def whole(x):
    """Whether x is an integer, or a sum begun with one."""
    if isinstance(x, bool) or isinstance(x, int):
        return True
    if isinstance(x, SymReal):
        return core.is_integer_poly(x.p) or any(
            A.by_id(a).kind == 'acc' for a in x.p.atoms())
    return False


def lift(x):
    if isinstance(x, (Precise, PreciseInf)):
        return x
    if isinstance(x, (float, Fraction, SymReal)) and not whole(x):
        raise TypeError('unsupported operand type(s): high-precision number '
                        'and float')
    return x


def wrap(r):
    p = poly_of(r)
    if p is None:
        return PreciseInf(r) if _inf(r) else r
    return Precise(p)


def _binary(name):
    base = getattr(SymReal, name)

    def op(self, o):
        if poly_of(o) is None and not _inf(o):
            return NotImplemented
        return wrap(base(self, lift(o)))
    return op


class PreciseInf(float):
    """An infinity of a high-precision type."""
    __slots__ = ()
    of_its_own_type = True

    def __neg__(self):
        return PreciseInf(-float(self))

    def __abs__(self):
        return PreciseInf(abs(float(self)))

    def __repr__(self):
        return 'PreciseInf(%s)' % float(self)


def _with_infinity(name):
    base = getattr(float, name)

    def op(self, o):
        if isinstance(o, SymReal):
            return NotImplemented
        return PreciseInf(base(self, float(lift(o))))
    return op


for _n in ('add radd sub rsub mul rmul truediv rtruediv').split():
    setattr(PreciseInf, '__%s__' % _n, _with_infinity('__%s__' % _n))


class Precise(SymReal):
    """A number of a high-precision type."""
    __slots__ = ()
    of_its_own_type = True

    def __neg__(self):
        return Precise(self.p.neg())

    def __abs__(self):
        return -self if self < 0 else self

    def __pow__(self, o):
        lift(o)
        return wrap(core._power(SymReal(self.p), _plain(o)))

    def __rpow__(self, o):
        lift(o)
        return wrap(core._power(_plain(o), SymReal(self.p)))

    def __floordiv__(self, o):
        return wrap(core.floor(_plain(self / lift(o))))

    def __rfloordiv__(self, o):
        return wrap(core.floor(_plain(lift(o) / self)))

    def __mod__(self, o):
        return self - (self // o) * o

    def __rmod__(self, o):
        return o - (o // self) * self

    def __round__(self, n=None):
        r = core.round_half_even(SymReal(self.p), n)
        return r if n is None else wrap(r)

    def __hash__(self):
        if self.p.is_const():
            c = self.p.const_value()
            return hash(c)
        return 0x5EED

    def is_integer(self):
        return bool(core.floor(SymReal(self.p)) == SymReal(self.p))

    def __repr__(self):
        return 'Precise<%s>' % A.show(self.p)

    def __str__(self):
        from pyvc import coll
        return coll.Numeral(SymReal(self.p))


def _plain(x):
    return SymReal(x.p) if isinstance(x, Precise) else x


for _n in ('add radd sub rsub mul rmul truediv rtruediv').split():
    setattr(Precise, '__%s__' % _n, _binary('__%s__' % _n))


def precise(x):
    """The conversion to the high-precision type."""
    from pyvc import coll
    if isinstance(x, coll.Numeral):
        x = x.n
    if isinstance(x, str):
        x = coll.VFloat(x)
    p = poly_of(x)
    if p is None:
        if _inf(x):
            return PreciseInf(x)
        raise TypeError('conversion from %s is not supported' % type(x))
    return Precise(p)
