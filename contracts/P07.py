"""Tax on amounts of income."""
from pyvc.ctx import contract
from pyvc.invariant import Invariant
from forecaster.tax import Tax
from contracts.common import Y, years_around


def brackets(c, most=3, name='', first_zero=None):
    """Thresholds in increasing order, with a rate from each on; listed in
    some order.  Returns (dict for Tax, sorted list of pairs)."""
    n = c.size('brackets' + name, 1, most, unbounded=6)
    zero = c.flag('from zero' + name) if first_zero is None else first_zero
    t = 0 if zero else c.nonneg('t0' + name)
    pairs = [(t, c.real('r0' + name, lo=0, hi=1))]
    for i in range(1, n):
        t = t + c.pos('step%d%s' % (i, name))
        pairs.append((t, c.real('r%d%s' % (i, name), lo=0, hi=1)))
    order = c.choice('order' + name, ['up', 'down', 'mixed']) \
        if n > 1 else 'up'
    listed = {'up': pairs, 'down': pairs[::-1],
              'mixed': pairs[1:] + pairs[:1]}[order]
    d = {}
    for t, r in listed:
        d[t] = r
    return d, pairs


def bracket_tax(pairs, x):
    """Integral of the rates from the lowest threshold to x."""
    total = 0
    for i, (t, r) in enumerate(pairs):
        if x <= t:
            break
        top = x
        if i + 1 < len(pairs) and pairs[i + 1][0] < x:
            top = pairs[i + 1][0]
        total += r * (top - t)
    return total


# ------------------------------------------- any number of brackets
#
# A table with explicit thresholds t0 < t1 < ..., t0 the lowest, and any
# number of brackets in the gaps between them and above the last.  With
# below(t) the tax on the brackets below threshold t, the bracket integral is
#     below(t0) = 0,  below(next t) = below(t) + (next t - t) * rate(t),
#     tax(x) = below(t) + (x - t) * rate(t)    for x from t to the next.
# The invariant of the loop of Tax.add_accum says that it computes below, and
# that below rises, by no more than the highest rate, from any threshold to
# any later one.

class Table(object):
    def __init__(self, c, gaps, zero=None, open_end=True, name=''):
        """gaps[i]: whether there may be brackets between thresholds i and
        i + 1."""
        self.c, self.gaps = c, gaps
        self.top = c.real('top rate' + name, lo=0, hi=1)
        zero = c.flag('from zero' + name) if zero is None else zero
        t = 0 if zero else c.nonneg('t0' + name)
        self.times, self.rates = [t], [c.real('r0' + name, lo=0, hi=1)]
        for i in range(len(gaps)):
            t = t + c.pos('step%d%s' % (i, name))
            self.times.append(t)
            self.rates.append(c.real('r%d%s' % (i + 1, name), lo=0, hi=1))
        for r in self.rates:
            c.assume(r <= self.top)
        d = self.d = {}
        for i, t in enumerate(self.times):
            d[t] = self.rates[i]
            if i < len(gaps) and gaps[i]:
                c.entries(d, 'brackets %d%s' % (i, name), t,
                          self.times[i + 1], sign='0+', most=self.top)
        self.name = name

    def above(self, x):
        """Any number of brackets from x (above the last threshold) on."""
        self.c.entries(self.d, 'brackets above' + self.name, x, None,
                       lo_open=False, sign='0+', most=self.top)

    def tax(self, x, i):
        """Tax on x in bracket i."""
        return self.below[i] + (x - self.times[i]) * self.rates[i]

    def accumulate(self, phase='finish', element=None):
        self.loop = Accumulate(self.c, 'Tax.add_accum', 0, phase, element)
        self.loop.tables[Y] = self
        self.below = self.belows()

    def belows(self):
        """Tax below each threshold: 0 for the lowest; rises by the tax on
        the bracket, or by any amount up to the highest rate."""
        c, times, out = self.c, self.times, [0]
        for i in range(1, len(times)):
            width = times[i] - times[i - 1]
            if self.gaps[i - 1]:
                x = c.nonneg('below %d%s' % (i, self.name))
                c.assume(x >= out[i - 1])
                c.assume(x - out[i - 1] <= self.top * width)
            else:
                x = out[i - 1] + width * self.rates[i - 1]
            out.append(x)
        return out


class Accumulate(Invariant):
    """Of the tables of some years; those of other years are the same with
    thresholds adjusted, and so is the tax below them."""

    def __init__(self, c, function, nth, phase, element=None, year=Y):
        Invariant.__init__(self, c, function, nth, phase, element)
        self.tables, self.scales, self.year = {}, {}, year
        self.what = phase

    def table(self, v):
        """The table of the year, and its scale."""
        y = v['year']
        if y in self.tables:
            return self.tables[y], 1
        base, ratio = self.scales[y]
        return self.tables[base], ratio

    def over(self, v):
        # the arbitrary step is one of the chosen year
        self.phase = self.what if v['year'] == self.year else 'finish'
        table, scale = self.table(v)
        lowest = min(v['brackets'])
        self.c.eq('lowest threshold', lowest, table.times[0] * scale)
        return [k for k in v['brackets']
                if self.c.generic(k) or k is not lowest]

    def entry(self, v):
        table, scale = self.table(v)
        t = table.times[0] * scale
        c, accum = self.c, v['self']._accum[v['year']]
        c.eq('starts from the lowest threshold', v['prev'], t)
        c.eq('only the lowest threshold', c.count(accum), 1)
        c.eq('no tax below the lowest threshold', accum[t], 0)

    def fresh(self, v):
        c = self.c
        table, scale = self.table(v)
        accum = v['self']._accum[v['year']]
        times = [t * scale for t in table.times]
        at = self.phase == 'step'
        for t, x in list(zip(times, table.below))[:-1 if at else None]:
            accum[t] = x * scale
        for k in v['brackets']:
            if c.generic(k) and not (at and k > times[-1]):
                accum[k] = c.like(k, 'below %s' % v['year'])
        self.before = dict(accum)
        if at:
            return {'prev': times[-2]}
        return {'prev': c.real('highest threshold')}

    def step(self, v):
        c = self.c
        table, scale = self.table(v)
        below, times = table.below, [t * scale for t in table.times]
        accum = v['self']._accum[v['year']]
        now = accum.pop(times[-1])
        c.eq('the bracket below is added', now, below[-2] * scale + (
            times[-1] - times[-2]) * table.rates[-2])
        c.eq('as in the year of the table', now, below[-1] * scale)
        c.eq('goes on from this threshold', v['prev'], times[-1])
        c.check('what is known stays as it is', accum == self.before)
        for x, t in zip(below, times[:-1]):
            c.le('tax below a threshold rises', x * scale, now)
            c.le('by no more than the highest rate', now - x * scale,
                 table.top * (times[-1] - t))


def table_steps(c):
    """The loop of Tax.add_accum, at any threshold, with its neighbour
    below and any other before that."""
    gaps = c.choice('gaps', [[False], [True, False], [True, True, False]])
    table = Table(c, gaps)
    table.above(table.times[-1] + c.pos('next'))
    table.accumulate('step', table.times[-1])
    Tax({Y: table.d})


def table_around(c, x, more=None):
    """A table with any number of brackets, and the bracket of income x in
    it (None: below all), or those of x and x + more."""
    one = [[], [True]]
    if more is None:
        table = Table(c, c.choice('gaps', one))
        at = [len(table.times) - 1]
        if not table.gaps and c.flag('below all'):
            c.assume(x <= table.times[0])
            table.above(table.times[0] + c.pos('next'))
            at = [None]
        else:
            c.assume(x > table.times[-1])
            table.above(x)
        table.accumulate()
        return table, at[0]
    y = x + more
    # x in the bracket of threshold i, y in that of j
    gaps, i = c.choice('gaps', [
        ([], None), ([True], None),
        ([], 0), ([True], 1),
        ([False], 0), ([False, True], 0),
        ([True, False], 1), ([True, False, True], 1)])
    table = Table(c, gaps)
    t, j = table.times, len(table.times) - 1
    if i is None:
        c.assume(x <= t[0])
        if j == 0 and c.flag('both below all'):
            c.assume(y <= t[0])
            table.above(t[0] + c.pos('next'))
            table.accumulate()
            return table, None, None
    else:
        c.assume(x > t[i])
        if i < j:
            c.assume(x <= t[i + 1])
    c.assume(y > t[j])
    table.above(y)
    table.accumulate()
    return table, i, j


@contract('P07')
def tax_is_the_bracket_integral(c):
    """Tax on an income is the integral of the bracket rates up to it (any
    income, any brackets, listed in any order)."""
    if c.unbounded:
        if c.flag('loop'):
            return table_steps(c)
        x = c.nonneg('income')
        table, i = table_around(c, x)
        d = dict(table.d)
        tax = Tax({Y: table.d})
        want = 0 if i is None else table.tax(x, i)
        c.eq('tax on an amount', tax.tax_money(x, Y), want)
        c.eq('same when called', tax(x, Y), want)
        c.le('tax is not negative', 0, tax(x, Y))
        c.check('the table is unchanged', d == table.d)
        for j, t in enumerate(table.times):
            c.eq('brackets are reported', tax.tax_brackets(Y, t),
                 table.rates[j])
            c.eq('tax accumulated below a threshold', tax.accum(Y, t),
                 table.below[j])
        return
    d, pairs = brackets(c)
    tax = Tax({Y: d})
    x = c.nonneg('income')
    want = bracket_tax(pairs, x)
    c.eq('tax on an amount', tax.tax_money(x, Y), want)
    c.eq('same when called', tax(x, Y), want)
    c.le('tax is not negative', 0, tax(x, Y))
    c.eq('the table is unchanged', len(d), len(pairs))
    for t, r in pairs:
        c.eq('rates are unchanged', d[t], r)
        c.eq('brackets are reported', tax.tax_brackets(Y, t), r)
        c.eq('tax accumulated below a threshold', tax.accum(Y, t),
             bracket_tax(pairs, t))


@contract('P07')
def deductions_and_credits(c):
    """Deductions come off the income, credits come off the tax at the
    credit rate, and tax never goes below zero."""
    if c.unbounded:
        rate = c.real('credit_rate', lo=0, hi=1)
        low, more = c.real('income after all deductions'), c.nonneg('more')
        x = c.nonneg('income')
        ded = x - low - more
        c.assume(ded >= 0)
        cred, again = c.nonneg('credit'), c.nonneg('more credit')
        table, i, j = table_around(c, low, more)
        tax = Tax({Y: table.d}, credit_rate={Y: rate})
        full = (0 if j is None else table.tax(low + more, j)) - cred * rate
        got = tax.tax_money(x, Y, deduction=ded, credit=cred)
        c.le('tax is not negative', 0, got)
        c.eq('tax after deductions and credits', got, full if full > 0 else 0)
        c.eq('same when called', tax(x, Y, deduction=ded, credit=cred), got)
        c.eq('credit rate', tax.credit_rate(Y), rate)
        c.le('more deductions never raise the tax',
             tax.tax_money(x, Y, deduction=ded + more, credit=cred), got)
        c.le('more credits never raise the tax', tax.tax_money(
            x, Y, deduction=ded, credit=cred + again), got)
        return
    d, pairs = brackets(c, first_zero=True)
    rate = c.real('credit_rate', lo=0, hi=1)
    given = c.flag('credit rate given')
    tax = Tax({Y: d}, credit_rate={Y: rate}) if given else Tax({Y: d})
    if not given:
        rate = 1
    x = c.nonneg('income')
    ded = c.nonneg('deduction')
    cred = c.nonneg('credit')
    full = bracket_tax(pairs, x - ded) - cred * rate
    got = tax.tax_money(x, Y, deduction=ded, credit=cred)
    c.le('tax is not negative', 0, got)
    c.eq('tax after deductions and credits', got, full if full > 0 else 0)
    c.eq('same when called', tax(x, Y, deduction=ded, credit=cred), got)
    c.eq('credit rate', tax.credit_rate(Y), rate)
    more = c.nonneg('more')
    c.le('more deductions never raise the tax',
         tax.tax_money(x, Y, deduction=ded + more, credit=cred), got)
    c.le('more credits never raise the tax',
         tax.tax_money(x, Y, deduction=ded, credit=cred + more), got)


@contract('P07')
def tax_rises_continuously(c):
    """More income never means less tax, and an extra amount is never taxed
    at more than the highest rate."""
    if c.unbounded:
        x, more = c.nonneg('income'), c.nonneg('more')
        table, i, j = table_around(c, x, more)
        tax = Tax({Y: table.d})
        a, b = tax(x, Y), tax(x + more, Y)
        c.le('tax never falls as income rises', a, b)
        c.le('no jumps', b - a, table.top * more)
        return
    d, pairs = brackets(c)
    tax = Tax({Y: d})
    x = c.nonneg('income')
    more = c.nonneg('more')
    a, b = tax(x, Y), tax(x + more, Y)
    c.le('tax never falls as income rises', a, b)
    top = max([r for t, r in pairs])
    c.le('no jumps', b - a, top * more)


@contract('P07')
def marginal_rate_is_the_slope(c):
    """The marginal rate is the slope of the tax just below the income."""
    if c.unbounded:
        x = c.nonneg('income')
        gaps = c.choice('gaps', [[], [False], [True, False]])
        table = Table(c, gaps)
        p, r = table.times[-1], table.rates[-1]
        if not gaps and c.flag('below all'):
            c.assume(x <= p)
            table.above(p + c.pos('next'))
            table.accumulate()
            tax = Tax({Y: table.d})
            c.eq('lowest bracket', tax.marginal_bracket(x, Y), p)
            c.eq('rate of the lowest bracket', tax.marginal_rate(x, Y), r)
            return
        c.assume(x > p)
        table.above(x)
        table.accumulate()
        tax = Tax({Y: table.d})
        b = tax.marginal_bracket(x, Y)
        c.eq('rate of the bracket', tax.marginal_rate(x, Y), r)
        c.eq('the highest threshold below the income', b, p)
        for t in table.d:
            c.check('the highest such threshold',
                    c.any_of(c.most(t, b), c.most(x, t)))
        below = c.nonneg('below')
        c.assume(x - below >= b)
        c.eq('slope of the tax', tax(x, Y) - tax(x - below, Y), r * below)
        return
    d, pairs = brackets(c)
    tax = Tax({Y: d})
    x = c.nonneg('income')
    b = tax.marginal_bracket(x, Y)
    r = tax.marginal_rate(x, Y)
    c.eq('rate of the bracket', r, d[b])
    if x > pairs[0][0]:
        c.check('the income is above the threshold', b < x)
        for t, _ in pairs:
            c.check('the highest such threshold', c.any_of(
                c.most(t, b), c.most(x, t)))
        below = c.nonneg('below')
        c.assume(x - below >= b)
        c.eq('slope of the tax', tax(x, Y) - tax(x - below, Y), r * below)
    else:
        c.eq('lowest bracket', b, pairs[0][0])


def inflation(c, years):
    """A price index for the years."""
    return {y: c.pos('price%d' % y) for y in years}


def many_brackets_follow_inflation(c):
    price = inflation(c, range(Y, Y + 5))
    two = c.flag('two tables')
    year = Y + c.choice('year', [0, 2, 4])
    base = Y + 3 if two and year == Y + 4 else Y + 1

    def ratio(y):
        return price[y] / price[Y + 3 if two and y >= Y + 3 else Y + 1]
    x = c.nonneg('income')
    if c.flag('loop'):
        table = Table(c, c.choice('gaps', [
            [False], [True, False], [True, True, False]]))
        table.above(table.times[-1] + c.pos('next'))
        loop = Accumulate(c, 'Tax.add_accum', 0, 'step',
                          table.times[-1] * ratio(year), year)
        table.below = table.belows()
        i = None
    else:
        table, i = table_around(c, x)
        loop = table.loop
        del loop.tables[Y]
    tables = {base: table.d}
    loop.tables[base] = table
    if two:
        other = Table(c, [], name='other')
        other.above(other.times[0] + c.pos('next other'))
        other.below = [0]
        y = Y + 1 if base == Y + 3 else Y + 3
        tables[y] = other.d
        loop.tables[y] = other
    for y in range(Y, Y + 5):
        if y not in tables:
            loop.scales[y] = (Y + 3 if two and y >= Y + 3 else Y + 1,
                              ratio(y))
    tax = Tax(tables, inflation_adjust=price)
    asked = c.choice('asked before', ['nothing', 'accum', 'other years',
                                      'brackets'])
    if asked == 'accum':
        tax.accum(year)
    elif asked == 'other years':
        tax.accum(Y + 2)
        tax.tax_brackets(Y)
        tax.accum(Y + 4)
    elif asked == 'brackets':
        tax.tax_brackets(year)
    r = ratio(year)
    want = 0 if i is None else table.tax(x, i)
    c.eq('adjusting income by inflation adjusts the tax by inflation',
         tax(x * r, year), want * r)
    c.eq('the known year is unaffected', tax(x, base), want)
    got = tax.tax_brackets(year)
    c.eq('as many brackets', c.count(got), c.count(table.d))
    for j, t in enumerate(table.times):
        c.eq('rates are not adjusted', got[t * r], table.rates[j])


@contract('P07', budget=200)
def brackets_follow_inflation(c):
    """In a year without brackets, those of the nearest known year (the
    past one if there is one) apply with thresholds adjusted for inflation
    between the two; whatever was asked before."""
    if c.unbounded:
        return many_brackets_follow_inflation(c)
    d1, p1 = brackets(c, most=2, name='a', first_zero=True)
    two = c.flag('two tables')
    price = inflation(c, range(Y, Y + 5))
    tables = {Y + 1: d1}
    base, pairs = Y + 1, p1
    year = Y + c.choice('year', [0, 2, 4])
    if two:
        d2, p2 = brackets(c, most=2, name='b', first_zero=True)
        tables[Y + 3] = d2
        if year == Y + 4:
            base, pairs = Y + 3, p2
    tax = Tax(tables, inflation_adjust=price)
    x = c.nonneg('income')
    asked = c.choice('asked before', ['nothing', 'accum', 'other years',
                                      'brackets'])
    if asked == 'accum':
        tax.accum(year)
    elif asked == 'other years':
        tax(x, Y + 2)
        tax(x, Y)
        tax(x, Y + 4)
    elif asked == 'brackets':
        tax.tax_brackets(year)
        tax.marginal_rate(x, year)
    ratio = price[year] / price[base]
    adjusted = [(t * ratio, r) for t, r in pairs]
    c.eq('tax in another year', tax(x, year), bracket_tax(adjusted, x))
    c.eq('adjusting income by inflation adjusts the tax by inflation',
         tax(x * ratio, year), bracket_tax(pairs, x) * ratio)
    c.eq('the known year is unaffected', tax(x, base),
         bracket_tax(pairs, x))
    got = tax.tax_brackets(year)
    c.eq('as many brackets', len(got), len(adjusted))
    for t, (want, r) in zip(sorted(got), adjusted):
        c.eq('adjusted thresholds are reported', t, want)
        c.eq('rates are not adjusted', got[t], r)


@contract('P07')
def deduction_and_credit_rate_follow_years(c):
    """The personal deduction of another year is adjusted for inflation, the
    credit rate is the nearest year's."""
    if c.unbounded:
        bases = ['same', 'past', 'future']
        ded, near, year = years_around(
            c, 'deduction', lambda x: x.nonneg('deduction'),
            c.choice('base', bases))
        rates, base, _ = years_around(
            c, 'rate', lambda x: x.real('rate', lo=0, hi=1),
            c.choice('base of the rate', bases), year=year)
        price = {near: c.pos('price near')}
        if near is not year:
            price[year] = c.pos('price')
        tax = Tax({year: {0: c.real('r', lo=0, hi=1)}},
                  personal_deduction=ded, credit_rate=rates,
                  inflation_adjust=price)
        want, rate = ded[near] * price[year] / price[near], rates[base]
        for _ in range(2):
            c.eq('personal deduction', tax.personal_deduction(year), want)
            c.eq('credit rate', tax.credit_rate(year), rate)
        plain = Tax({year: {0: 0}}, personal_deduction=ded)
        c.eq('without inflation nothing is adjusted',
             plain.personal_deduction(year), ded[near])
        c.eq('no personal deduction unless given',
             Tax({year: {0: 0}}).personal_deduction(year), 0)
        return
    price = inflation(c, range(Y, Y + 5))
    ded = {Y + 1: c.nonneg('deduction1')}
    rate = {Y + 1: c.real('rate1', lo=0, hi=1)}
    two = c.flag('two')
    if two:
        ded[Y + 3] = c.nonneg('deduction3')
        rate[Y + 3] = c.real('rate3', lo=0, hi=1)
    tax = Tax({Y: {0: c.real('r', lo=0, hi=1)}}, personal_deduction=ded,
              credit_rate=rate, inflation_adjust=price)
    for year in range(Y, Y + 5):
        base = Y + 3 if two and year >= Y + 3 else Y + 1
        c.eq('personal deduction', tax.personal_deduction(year),
             ded[base] * price[year] / price[base])
        c.eq('credit rate', tax.credit_rate(year), rate[base])
    plain = Tax({Y: {0: c.real('r', lo=0, hi=1)}})
    c.eq('no personal deduction unless given', plain.personal_deduction(Y), 0)
    c.eq('without inflation nothing is adjusted',
         Tax({Y: {0: 0}}, personal_deduction=ded).personal_deduction(Y + 2),
         ded[Y + 1])


@contract('P07')
def incomes_below_the_lowest_threshold(c):
    """Incomes below the lowest threshold, and negative ones, are not
    taxed."""
    if c.unbounded:
        table = Table(c, [])
        x = c.real('income')
        c.assume(x <= table.times[0])
        table.above(table.times[0] + c.pos('next'))
        table.accumulate()
        tax = Tax({Y: table.d})
        c.eq('no tax', tax(x, Y), 0)
        c.eq('no tax with a credit', tax(x, Y, credit=c.nonneg('credit')), 0)
        return
    d, pairs = brackets(c)
    tax = Tax({Y: d})
    x = c.real('income')
    c.assume(x <= pairs[0][0])
    c.eq('no tax', tax(x, Y), 0)
    c.eq('no tax with a credit', tax(x, Y, credit=c.nonneg('credit')), 0)
