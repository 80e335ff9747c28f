"""Shared parts of the specifications."""
import math

Y = 2000

FREQ = {'D': 365, 'W': 52, 'BW': 26, 'SM': 24, 'M': 12, 'BM': 6, 'Q': 4,
        'SA': 2, 'A': 1}
RATES = [0, 0.05, 0.1, 1, 0.5, 0.03, 0.25]
NPERS = [1, 2, 4, 12, 365]


def compounding(c, name='rate', lo=-1):
    """Every compounding convention: once a year, n times a year (any n),
    or continuous.  Returns (nper, rate)."""
    k = c.choice('compounding', ['annual', 'n', 'continuous'])
    if k == 'annual':
        return 1, c.real(name, lo=lo, lo_open=True, hi=10, nice=RATES)
    if k == 'n':
        return (c.integer('nper', lo=1, hi=366, nice=NPERS),
                c.real(name, lo=lo, lo_open=True, hi=10, nice=RATES))
    return 'C', c.real(name, lo=lo, hi=10, nice=RATES)


def growth_rate(c, name='rate'):
    """Annual compounding at any rate above -100%."""
    return c.real(name, lo=-1, lo_open=True, hi=10, nice=RATES)


def grow(rate, nper, t):
    """Growth factor over a period t, by the textbook formulas."""
    if nper == 'C' or nper is None:
        return math.e ** (rate * t)
    return (1 + rate / nper) ** (nper * t)


def flows_to(m, rate, nper, time):
    """Value at `time` of the flows of m that happened by then."""
    total = 0
    for t in m:
        if t <= time:
            total += m[t] * grow(rate, nper, time - t)
    return total


def same_map(c, name, got, want):
    """The two maps have the same keys and the same values."""
    for k in want:
        c.check(name + ': key', k in got)
        c.eq(name, got[k], want[k])
    for k in got:
        c.check(name + ': no other key', k in want)


def years_around(c, name, value, base='past', year=None):
    """Values of any number of years, of which `near` is the nearest to
    `year`; and other years as they are wanted.  (values, near, year)"""
    year = c.integer('year') if year is None else year
    if base == 'same':
        near = year
        lo, hi = year, year
    elif base == 'past':
        near = c.integer('near %s' % name)
        c.assume(near < year)
        lo, hi = near, year
    else:
        near = c.integer('near %s' % name)
        c.assume(near > year)
        lo, hi = None, near
    d = {}
    if lo is not None:
        c.entries(d, name + ' before', None, lo, integer=True,
                  make=value)
    c.entries(d, name + ' after', hi, None, integer=True,
              make=value)
    d[near] = value(c)
    return d, near, year
