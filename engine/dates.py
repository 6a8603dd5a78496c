"""Dates with a symbolic day offset, behaving like businessdate.BusinessDate"""
from . import sym as S
from .sym import SymReal

BASE = 20210104


def _bd():
    import businessdate
    return businessdate


class SymDate:
    """BASE + off days; off is an integer valued SymReal or int"""
    __slots__ = ('off',)

    def __init__(self, off):
        self.off = off

    def diff_in_days(self, end):
        return S.SymReal(S.lift(end.off - self.off))

    def _real(self):
        n = self.off
        if isinstance(n, SymReal):
            n = n.__index__()
            self.off = S.mk(n)
        bd = _bd()
        return bd.BusinessDate(BASE) + bd.BusinessPeriod(days=n)

    @staticmethod
    def _of(real):
        bd = _bd()
        return SymDate(S.mk(bd.BusinessDate(BASE).diff_in_days(real)))

    @staticmethod
    def _period(p):
        bd = _bd()
        if isinstance(p, str):
            return bd.BusinessPeriod(p)
        if isinstance(p, (int, float)):
            return bd.BusinessPeriod(days=int(p))
        return p

    def _shift(self, p, sgn):
        bd = _bd()
        p = self._period(p)
        if not isinstance(p, bd.BusinessPeriod):
            return NotImplemented
        if not (p.years or p.months or p.businessdays):
            return SymDate(self.off + sgn * p.days)
        r = self._real()
        return self._of(r + p if sgn > 0 else r - p)

    def __add__(self, p):
        return self._shift(p, 1)

    def __sub__(self, p):
        if isinstance(p, SymDate):
            return self._real() - p._real()
        return self._shift(p, -1)

    def __lt__(self, o):
        return self.off < o.off

    def __le__(self, o):
        return self.off <= o.off

    def __gt__(self, o):
        return self.off > o.off

    def __ge__(self, o):
        return self.off >= o.off

    def __eq__(self, o):
        if not isinstance(o, SymDate):
            return NotImplemented
        return self.off == o.off

    def __ne__(self, o):
        if not isinstance(o, SymDate):
            return NotImplemented
        return self.off != o.off

    def __hash__(self):
        return 11

    def __repr__(self):
        return 'SymDate(%r)' % (self.off,)
