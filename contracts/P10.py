"""Inflation adjustment."""
from pyvc.ctx import contract
from pyvc.invariant import OverRange
from forecaster.scenario import Scenario
from forecaster.utility import (
    build_inflation_adjust, extend_inflation_adjusted, nearest_year)
from contracts.common import Y, years_around

SPAN = 4


def prices(c):
    return {Y + i: c.pos('price%d' % i) for i in range(SPAN)}


def a_year(c, name, span=SPAN):
    return Y + c.choice(name, list(range(span)))


def consistent(c, adjust):
    """Units: same year, there and back, through a third year."""
    a, b, d = a_year(c, 'a'), a_year(c, 'b'), a_year(c, 'd')
    c.eq('the same year', adjust(a, a), 1)
    c.eq('there and back', adjust(a, b) * adjust(b, a), 1)
    c.eq('through a third year', adjust(a, b) * adjust(b, d), adjust(a, d))


@contract('P10')
def price_levels(c):
    """Adjusting by given price levels multiplies by their ratio."""
    if c.unbounded:
        first = c.integer('first')
        p = {first: c.pos('price first')}
        # any number of years, three of them in any order
        ys = [first + c.integer('year %d' % i, lo=0) for i in range(3)]
        for i, y in enumerate(ys):
            if c.all_of(*[y != x for x in [first] + ys[:i]]):
                p[y] = c.pos('price %d' % i)
        top = max(ys)
        c.entries(p, 'later years', top, None, integer=True, sign='+')
        a, b, d = ys
        adjust = build_inflation_adjust(p)
        c.eq('ratio of price levels', adjust(a, b), p[a] / p[b])
        c.eq('relative to the first year', adjust(a), p[a] / p[first])
        c.eq('the same year', adjust(a, a), 1)
        c.eq('there and back', adjust(a, b) * adjust(b, a), 1)
        c.eq('through a third year', adjust(a, b) * adjust(b, d),
             adjust(a, d))
        return
    p = prices(c)
    adjust = build_inflation_adjust(p)
    a, b = a_year(c, 'to'), a_year(c, 'from')
    c.eq('ratio of price levels', adjust(a, b), p[a] / p[b])
    c.eq('ratio by name', adjust(target_year=a, base_year=b), p[a] / p[b])
    c.eq('relative to the first year', adjust(a), p[a] / p[Y])
    consistent(c, adjust)
    c.check('functions are used as they are',
            build_inflation_adjust(adjust) is adjust)
    none = build_inflation_adjust()
    c.eq('no adjustment', none(a, b), 1)
    c.eq('no adjustment of the first year', none(a), 1)
    c.raises('nothing else is accepted',
             lambda: build_inflation_adjust('2%'), TypeError)


def scenario(c):
    """A scenario with any inflation, given in any of the ways."""
    how = c.choice('given as', ['number', 'list', 'dict'])
    rates = [c.real('inflation%d' % i, lo=-1, lo_open=True, hi=2)
             for i in range(1 if how == 'number' else SPAN)]
    if how == 'number':
        given = rates[0]
        rates = rates * SPAN
    elif how == 'list':
        given = list(rates)
    else:
        given = {Y + i: r for i, r in enumerate(rates)}
    return Scenario(Y, SPAN, inflation=given), rates


class Product(OverRange):
    """Scenario.accumulation_function: until year y, the accumulated
    inflation is the ratio level(y) / level(first), where
    level(y + 1) = level(y) * (1 + inflation(y))."""

    def over(self, v):
        a, b = v['year1'], v['year2']
        return (a, b) if a <= b else (b, a)

    def entry(self, v):
        self.c.eq('nothing accumulated before the first year', v['accum'], 1)

    def fresh(self, v):
        first, last = self.over(v)
        now = self.element if self.phase == 'step' else last
        self.before = self.level(now) / self.level(first)
        return {'accum': self.before}

    def step(self, v):
        self.c.eq('the inflation of the year is added', v['accum'],
                  self.level(self.element + 1) / self.level(self.over(v)[0]))


def long_scenarios(c):
    """Any number of years, with inflation given as a number or by year."""
    first = c.integer('first year')
    span = c.integer('years', lo=1)
    levels = []

    def level(y):
        # one positive level for each year
        for x, v in levels:
            if x == y:
                return v
        levels.append((y, c.pos('level %d' % len(levels))))
        return levels[-1][1]
    step = c.choice('part', ['forward', 'back', 'use'])
    rate = c.real('inflation', lo=-1, lo_open=True)
    y = first + c.integer('y')
    given = rate
    if c.flag('by year'):
        given = {y: rate}
        c.entries(given, 'inflation before', None, y, integer=True)
        c.entries(given, 'inflation after', y, None, integer=True)
    s = Scenario(first, span, inflation=given)
    adjust = s.inflation_adjust
    loop = Product(c, 'Scenario.accumulation_function', 0,
                   'finish' if step == 'use' else 'step', y)
    loop.level = level
    if step == 'use':
        a, b, d = [first + c.integer(n) for n in ('a', 'b', 'd')]
        want = level(a) / level(b)
        c.eq('discount rate', s.discount_rate(y), rate)
        c.eq('accumulated inflation', s.accumulation_function(b, a), want)
        c.eq('adjustment between two years', adjust(a, b), want)
        c.eq('relative to the first year', adjust(a), level(a) / level(first))
        c.eq('the same year', adjust(a, a), 1)
        c.eq('there and back', adjust(a, b) * adjust(b, a), 1)
        c.eq('through a third year', adjust(a, b) * adjust(b, d),
             adjust(a, d))
        return
    a = y - c.integer('since', lo=0)
    b = y + c.integer('until', lo=1)
    levels.append((y + 1, level(y) * (1 + rate)))
    if step == 'forward':
        s.accumulation_function(a, b)
    else:
        s.accumulation_function(b, a)


@contract('P10')
def long_scenarios_rise(c):
    """The price level of a scenario of any length, with a number for the
    inflation or one for each year, rises by each year's inflation; the
    adjustments are ratios of price levels."""
    if c.unbounded:
        return long_scenarios(c)
    n = c.choice('years', [1, 2, 3])
    early = c.choice('known years before the first', [0, 2])
    if c.flag('number'):
        rate = c.real('inflation', lo=-1, lo_open=True, hi=2)
        rates = {Y + i: rate for i in range(-early, n)}
        s = Scenario(Y, n, inflation=rate)
    else:
        rates = {Y + i: c.real('inflation%d' % i, lo=-1, lo_open=True, hi=2)
                 for i in range(-early, n)}
        s = Scenario(Y, n, inflation=rates)
    level = {Y - early: 1}
    for y in range(Y - early, Y + n):
        level[y + 1] = level[y] * (1 + rates[y])
    for i in level:
        c.eq('relative to the first year', s.inflation_adjust(i),
             level[i] / level[Y])
        for j in level:
            c.eq('adjustment between two years',
                 s.inflation_adjust(i, j), level[i] / level[j])


@contract('P10', kinds=('bounded',))
def scenarios(c):
    """The price level of a scenario rises by each year's inflation; the
    adjustments are ratios of price levels."""
    s, rates = scenario(c)
    level = [1]
    for r in rates:
        level.append(level[-1] * (1 + r))
    a, b = c.choice('to', list(range(SPAN))), c.choice('from',
                                                       list(range(SPAN)))
    want = level[a] / level[b]
    adjust = s.inflation_adjust
    c.eq('adjustment between two years', adjust(Y + a, Y + b), want)
    c.eq('relative to the first year', adjust(Y + a), level[a])
    c.eq('accumulated inflation', s.accumulation_function(Y + b, Y + a), want)
    table = s.inflation_adjustments(Y + b)
    c.eq('every year of the scenario', len(table), SPAN)
    c.eq('adjustments of every year', table[Y + a], want)
    c.eq('discount rate', s.discount_rate(Y + a), rates[a])
    consistent(c, adjust)


YEARS = [(1,), (3,), (0, 2), (1, 3), (0, 1, 3), (3, 1)]


def nearest(known, year):
    """Nearest known year, preferring the past."""
    past = [y for y in known if y <= year]
    return max(past) if past else min(known)


@contract('P10')
def nearest_known_year(c):
    """The nearest of the known years is the year itself, the last one
    before it, or the first one after it."""
    if c.unbounded:
        vals, near, year = years_around(
            c, 'value', lambda x: x.real('value'),
            c.choice('base', ['same', 'past', 'future']))
        c.eq('nearest known year', nearest_year(vals, year), near)
        return
    known = [Y + i for i in c.choice('known', YEARS)]
    year = Y + c.choice('year', list(range(6)))
    vals = {y: c.real('value%d' % y) for y in known}
    c.eq('nearest known year', nearest_year(vals, year),
         nearest(known, year))
    c.check('no years', nearest_year({}, year) is None)


def extending_any_values(c):
    kind = c.choice('kind', ['number', 'dict', 'list', 'tuple'])

    def value(x):
        v = [x.real('v'), x.real('w')]
        return {'number': v[0], 'dict': {1: v[0], 'w': v[1]},
                'list': v, 'tuple': tuple(v)}[kind]
    base = c.choice('base', ['same', 'past', 'future'])
    vals, near, year = years_around(c, 'value', value, base)
    p = {near: c.pos('price near')}
    if base != 'same':
        p[year] = c.pos('price')
    adjust = build_inflation_adjust(p)
    before = dict(vals)
    ratio = p[year] / p[near]
    got = extend_inflation_adjusted(vals, adjust, year)
    want = vals[near]
    if kind == 'number':
        c.eq('adjusted value', got, want * ratio)
    else:
        c.eq('as many entries', len(got), 2)
        for k in ([1, 'w'] if kind == 'dict' else [0, 1]):
            c.eq('adjusted entry', got[k], want[k] * ratio)
    again = extend_inflation_adjusted(vals, adjust, near)
    c.check('known years are not adjusted', again is vals[near])
    if kind == 'number':
        c.check('the table is unchanged', vals == before)


@contract('P10')
def extending_known_values(c):
    """Values given for some years apply to others through the nearest known
    year, adjusted between the two; tables and lists entry by entry."""
    if c.unbounded:
        return extending_any_values(c)
    p = prices(c)
    adjust = build_inflation_adjust(p)
    known = [Y + i for i in c.choice('known', YEARS)]
    year = a_year(c, 'year')
    kind = c.choice('kind', ['number', 'dict', 'list', 'tuple'])
    vals = {}
    for y in known:
        v = [c.real('v%d' % y), c.real('w%d' % y)]
        vals[y] = {'number': v[0], 'dict': {1: v[0], 'w': v[1]},
                   'list': v, 'tuple': tuple(v)}[kind]
    base = nearest(known, year)
    ratio = p[year] / p[base]
    got = extend_inflation_adjusted(vals, adjust, year)
    want = vals[base]
    if kind == 'number':
        c.eq('adjusted value', got, want * ratio)
    else:
        c.eq('as many entries', len(got), 2)
        for k in ([1, 'w'] if kind == 'dict' else [0, 1]):
            c.eq('adjusted entry', got[k], want[k] * ratio)
    again = extend_inflation_adjusted(vals, adjust, base)
    c.check('known years are not adjusted', again is vals[base])
    if kind == 'number':
        c.eq('the table is unchanged', len(vals), len(known))


SERIES = ['inflation', 'stock_return', 'bond_return', 'other_return',
          'management_fees']


@contract('P10')
def scenarios_as_given(c):
    """Each rate of a scenario is what is given for it: one number for every
    year, one for each year from the first, or numbers by year; zero where
    nothing is given."""
    name = c.choice('series', SERIES)
    how = c.choice('given', ['nothing', 'number', 'list', 'tuple', 'by year',
                             'zero'])
    first = Y
    if how not in ('list', 'tuple'):
        first = c.integer('first year', lo=1990, hi=2030)
    years = c.integer('years', lo=1, hi=100)
    later = first + c.integer('later', lo=0, hi=150)
    if how == 'nothing':
        given, known = {}, {later: 0, first: 0}
    elif how == 'number':
        x = c.real('rate')
        given, known = {name: x}, {first: x, later: x}
    elif how == 'zero':
        given, known = {name: 0}, {first: 0, later: 0}
    elif how == 'by year':
        table = c.year_map('rates', first + 200)
        given, known = {name: table}, table
    else:
        x = [c.real('rate %d' % i) for i in range(c.choice('n', [1, 2, 3]))]
        given = {name: x if how == 'list' else tuple(x)}
        known = {first + i: v for i, v in enumerate(x)}
    s = Scenario(first, years, **given)
    c.eq('first year', s.initial_year, first)
    c.eq('number of years', s.num_years, years)
    got = getattr(s, name)
    for y, v in known.items():
        c.eq('the rate of a year', got[y], v)
        if name == 'inflation':
            c.eq('the discount rate of a year', s.discount_rate(y), v)
    for other in SERIES:
        if other != name:
            c.eq('nothing given for others', getattr(s, other)[later], 0)
    c.raises('at least a year', lambda: Scenario(first, 0), ValueError)
