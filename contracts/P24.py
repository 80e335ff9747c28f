"""High-precision mode changes the precision of results, nothing else.

Symbolically, the high-precision type is pyvc.precise.Precise: arithmetic
with floats is an error, values are exact (so "up to rounding" is equality).
Evaluated concretely, it is decimal.Decimal."""
from pyvc.ctx import contract
from forecaster.accounts import Account, Debt, LinkedLimitAccount, util
from forecaster.canada.accounts import (
    PrincipleResidence, RRSP, TaxableAccount, TFSA)
from forecaster.canada.constants import ConstantsCanada
from forecaster.canada.tax import TaxCanada, TaxCanadaJurisdiction
from forecaster.forecast import (
    Forecast, IncomeForecast, LivingExpensesForecast, SavingForecast,
    TaxForecast, WithdrawalForecast)
from forecaster.forecaster import Forecaster
from forecaster.person import Person
from forecaster.scenario import Scenario
from forecaster.settings import Settings
from forecaster.strategy import (
    AllocationStrategy, LivingExpensesStrategy,
    LivingExpensesStrategySchedule)
from forecaster.tax import Tax, TaxMulti
from forecaster.utility.precision import (
    HighPrecisionOptional, HighPrecisionOptionalProperty,
    HighPrecisionOptionalPropertyCached)
from forecaster.utility.timing import (
    Timing, frequency_conv, transactions_from_timing, when_conv)
from contracts.common import Y
from contracts.P17 import Given

ASSUMPTIONS = [
    'a high-precision type is one that is exact and that raises an '
    'error when mixed with floats, as decimal.Decimal; equality up to '
    'rounding is equality',
    'users convert their own inputs to the high-precision type']


class Modes:
    """The same computation in both modes, with the same inputs."""

    def __init__(self, c):
        self.c = c

    def compare(self, name, compute):
        """compute(mode) -> {name: result}; mode.number converts inputs."""
        before = compute(Mode(None, lambda x: x))
        precise = self.c.precise
        convert = lambda x: precise(x)      # (copying leaves it as it is)
        got = compute(Mode(convert, convert))
        after = compute(Mode(None, lambda x: x))
        for k in before:
            n = '%s: %s' % (name, k)
            self.same(n, got[k], before[k])
            self.plain(n, after[k], before[k])

    def same(self, name, got, want):
        """A result of high precision is that of ordinary precision."""
        c = self.c
        if isinstance(want, dict):
            c.check(name + ': entries', len(got) == len(want))
            for k in want:
                if isinstance(k, (str, bool, type(None))):
                    c.check(name + ': keys', k in got)
                    self.same(name, got[k], want[k])
                else:
                    near = [x for x in got if c.same(x, k)]
                    c.check(name + ': keys', len(near) == 1)
                    self.number(name + ': keys', near[0])
                    self.same(name, got[near[0]], want[k])
        elif isinstance(want, (list, tuple)):
            c.check(name + ': size', len(got) == len(want))
            for x, y in zip(got, want):
                self.same(name, x, y)
        elif isinstance(want, (str, bool, type(None))):
            c.check(name, got == want)
        else:
            self.number(name, got)
            c.eq(name, got, want)

    def number(self, name, x):
        self.c.check(name + ': high precision', self.c.is_precise(x) or
                     isinstance(x, int))

    def plain(self, name, got, want):
        """Ordinary results are not affected by those of high precision."""
        c = self.c
        if isinstance(want, dict):
            c.check(name + ': ordinary entries', len(got) == len(want) and
                    all([k in got for k in want]))
            for k in want:
                self.plain(name, got[k], want[k])
        elif isinstance(want, (list, tuple)):
            for x, y in zip(got, want):
                self.plain(name, x, y)
        elif isinstance(want, (str, bool, type(None))):
            c.check(name, got == want)
        else:
            c.check(name + ': ordinary', not c.is_precise(got))
            c.eq(name, got, want)


class Mode:
    def __init__(self, convert, number):
        self.convert, self.number = convert, number

    def __call__(self, x):
        """The input x in this mode."""
        if isinstance(x, dict):
            return {self(k): self(v) for k, v in x.items()}
        if isinstance(x, (str, bool, type(None))):
            return x
        return self.number(x)


class Holder(HighPrecisionOptional):
    some = HighPrecisionOptionalProperty()
    cached = HighPrecisionOptionalPropertyCached()
    other = HighPrecisionOptionalPropertyCached()

    def __init__(self, some, cached, other, **kwargs):
        super().__init__(**kwargs)
        self.some, self.cached, self.other = some, cached, other


@contract('P24', max_paths=20000)
def properties(c):
    """Values of one object are not those of another, and are converted as
    that object demands, whatever was set or read before."""
    objs, vals = [], []
    for i in range(2):
        hp = c.precise if c.flag('high precision %d' % i) else None
        v = [c.real('value %d.%d' % (i, j)) for j in range(3)]
        objs.append(Holder(*v, high_precision=hp))
        vals.append(v)

    def right(name):
        for x, v in zip(objs, vals):
            for attr, y in zip(('some', 'cached', 'other'), v):
                got = getattr(x, attr)
                c.eq(name + ': value', got, y)
                c.check(name + ': type', c.is_precise(got) ==
                        (x.high_precision is not None))
    right('at first')
    i, j = c.choice('which', [0, 1]), c.choice('what', [0, 1, 2])
    x = objs[i]
    act = c.choice('act', ['set', 'mode', 'ordinary', 'other conversion'])
    if act == 'set':
        vals[i][j] = c.real('another value')
        setattr(x, ('some', 'cached', 'other')[j], vals[i][j])
    elif act == 'mode':
        x.high_precision = c.precise
    elif act == 'ordinary':
        x.high_precision = None
    else:
        x.high_precision = lambda y: c.precise(y) * 2
        c.eq('other conversion', getattr(x, ('some', 'cached', 'other')[j]),
             2 * vals[i][j])
        x.high_precision = c.precise
    right('then')
    right('still')
    c.eq('conversion', c.precise(2) * objs[0].precision_convert(
        c.precise(vals[0][0])), 2 * vals[0][0])


NPERS = [1, 4, None]


@contract('P24', max_paths=20000)
def interest(c):
    """Growth over time."""
    rate = c.real('rate', lo=-0.5, hi=1, nice=[0, 0.05])
    t = c.real('t', lo=-5, hi=5, nice=[0, 1, 0.5])
    v, w = c.real('value'), c.pos('other value')
    now, then = c.real('now', lo=0, hi=1), c.choice(
        'then', [c.real('time', lo=0, hi=1), 'start', 'end'])
    nper = c.choice('nper', NPERS)
    acc = c.real('growth', lo=0.5, hi=3, nice=[1])

    def run(m):
        hp = dict(high_precision=m.convert)
        n = nper
        r = {'growth': util.accumulation_function(m(t), m(rate), n, **hp),
             'value': util.value_at_time(
                 m(v), m(rate), m(now), m(then), n, **hp),
             'from the start': util.value_at_time(
                 m(v), m(rate), nper=n, **hp)}
        if n is None and rate == 0 or rate == -n if n else False:
            return r
        r['time'] = util.accumulation_function_inverse(
            m(acc), m(rate), n, **hp) if rate != 0 else None
        r['time to value'] = util.time_to_value(
            m(rate), m(w), m(w * acc), n, **hp) if rate != 0 else None
        return r
    Modes(c).compare('interest', run)


@contract('P24')
def growth_that_never_arrives(c):
    """Times to values that are not reached, or at once."""
    nper = c.choice('nper', NPERS)
    rate = c.choice('rate', [0, c.pos('positive rate')])
    v = c.pos('value')
    now, then = c.choice('from, to', [
        (0, v), (v, 0), (-v, v), (0, 0), (v, v)])
    if rate == 0:
        now, then = c.choice('at no growth', [(now, then), (v, 2 * v),
                                              (2 * v, v)])

    def run(m):
        return {'time to value': util.time_to_value(
            m(rate), m(now), m(then), nper, high_precision=m.convert)}
    if rate == 0 or (now, then) != (v, v):
        Modes(c).compare('interest', run)


@contract('P24')
def timings(c):
    """Times and weights."""
    when = c.choice('when', [c.real('time', lo=0, hi=1), 'start', 'end',
                             'BW', 'M', 'A', 'none'])
    n = c.choice('frequency', [1, 2, 'Q', 'A'])
    total = c.real('total')
    d = {0: c.real('v0'), 0.5: c.real('v1'), 1: c.real('v2')}

    def run(m):
        hp = dict(high_precision=m.convert)
        r = {}
        if when == 'none':
            t = Timing(**hp)
            r['default'] = dict(t)
            r['given'] = dict(Timing(m(d), **hp))
            r['frequency'] = dict(Timing(frequency=n, **hp))
        elif when in ('BW', 'M', 'A'):
            t = Timing(when, **hp)
        else:
            t = Timing(m(when), n, **hp)
            r['when'] = when_conv(m(when), **hp)
        r['timing'] = dict(t)
        r['flows'] = transactions_from_timing(t, m(total))
        r['series'] = t.time_series(m(total))
        r['normalized'] = dict(t.normalized())
        return r
    Modes(c).compare('timing', run)
    c.check('frequencies', frequency_conv(c.precise(4)) == 4 and
            not c.is_precise(frequency_conv(c.precise(4))))


# ---------------------------------------------------------------- accounts
LIMITS = ['max_inflows', 'min_inflows', 'max_outflows', 'min_outflows']


def describe(m, x, timing, names=()):
    """What can be observed of an account."""
    r = {n: getattr(x, n) for n in
         ['balance', 'rate', 'returns', 'taxable_income', 'tax_withheld',
          'tax_credit', 'tax_deduction', 'nper'] + list(names)
         if hasattr(x, n)}
    for t in (0, 0.5, 1):
        r['balance at %s' % t] = x.balance_at_time(m(t))
        for n in ('max_inflow', 'min_inflow', 'max_outflow', 'min_outflow'):
            r['%s at %s' % (n, t)] = getattr(x, n)(m(t))
    for n in LIMITS:
        r[n] = dict(getattr(x, n)(timing))
        r[n + ' after'] = dict(getattr(x, n)(
            timing, transactions={m(0.5): m(10)}))
    r['inflows'], r['outflows'] = x.inflows(), x.outflows()
    return r


def two_years(c, make, names=(), next_year=lambda x: x.next_year(),
              times=(0.5,)):
    """Compare an account in both modes for two years."""
    t1 = c.choice('times', [[0.5], [0.25, 1]])
    sign = c.choice('sign', [1, -1])
    flows = {t: sign * c.real('flow at %s' % t, lo=10, hi=20) for t in t1}
    later = c.real('later flow', lo=10, hi=20)
    w = [c.pos('weight 0'), c.pos('weight 1')]

    def run(m):
        x = make(m)
        timing = Timing({m(0.25): m(w[0]), m(0.75): m(w[1])},
                        high_precision=m.convert)
        for t in flows:
            x.add_transaction(m(flows[t]), m(t))
        r = {'first year': describe(m, x, timing, names)}
        next_year(x)
        x.add_transaction(m(later), 'end')
        r['second year'] = describe(m, x, Timing(high_precision=m.convert),
                                    names)
        r['balance history'] = dict(x.balance_history)
        return r
    Modes(c).compare('account', run)


def a_person(c, m, **kwargs):
    hp = m.convert
    return Person(Y, 'A', '1970', '2100', gross_income=m(kwargs.pop(
        'gross_income', 0)), high_precision=hp, **kwargs)


@contract('P24', kinds=('bounded',), max_paths=20000)
def accounts(c):
    """Accounts: balances, returns, limits."""
    b = c.choice('sign of balance', [1, -1]) * c.real(
        'balance', lo=1000, hi=2000)
    rate = c.real('rate', lo=0.01, hi=0.1)
    nper = c.choice('nper', [1, 'Q', 'C'])

    def make(m):
        return Account(a_person(c, m), balance=m(b), rate=m(rate),
                       nper=nper, high_precision=m.convert)
    two_years(c, make)


@contract('P24', kinds=('bounded',), max_paths=20000)
def debts(c):
    """Debts: payments and limits."""
    b, rate = c.real('balance', lo=1000, hi=2000), c.real('rate', lo=0.01,
                                                        hi=0.1)
    least = c.real('minimum payment', lo=30, hi=50)
    more = c.choice('accelerated', [None, c.real('more', lo=30, hi=50)])

    def make(m):
        kw = {} if more is None else {'accelerated_payment': m(more)}
        return Debt(a_person(c, m), balance=m(b), rate=m(rate), nper=1,
                    minimum_payment=m(least), high_precision=m.convert, **kw)
    two_years(c, make)


@contract('P24', kinds=('bounded',), max_paths=20000)
def linked_accounts(c):
    """Accounts with linked limits."""
    b, rate = c.real('balance', lo=1000, hi=2000), c.real('rate', lo=0.01,
                                                        hi=0.1)
    kind = c.choice('kind', ['max_inflow', 'min_inflow', 'max_outflow',
                             'min_outflow'])
    limit = c.real('limit', lo=100, hi=200) * (
        1 if kind.endswith('inflow') else -1)

    def make(m):
        p = a_person(c, m)
        kw = {kind + '_link': (p, 'token'), kind + '_limit': m(limit),
              'high_precision': m.convert}
        x = LinkedLimitAccount(p, balance=m(b), rate=m(rate), **kw)
        y = LinkedLimitAccount(p, balance=m(b), rate=m(rate), **kw)
        y.add_transaction(m(25), m(0.5))
        y.add_transaction(m(-15), m(0.75))
        return x
    two_years(c, make)


def a_year(x):
    x.owner.next_year()
    x.next_year()


@contract('P24', kinds=('bounded',), max_paths=20000, budget=240)
def canadian_accounts(c):
    """Registered and taxable accounts."""
    b, rate = c.real('balance', lo=1000, hi=2000), c.real('rate', lo=0.01,
                                                        hi=0.1)
    room = c.real('room', lo=500, hi=600)
    income = c.real('income', lo=50000, hi=60000)
    inflation = c.real('inflation', lo=0, hi=0.05)
    kind = c.choice('kind', ['RRSP', 'RRIF', 'TFSA', 'new TFSA', 'taxable',
                             'home'])
    ordinary = kind in ('RRSP', 'RRIF') and c.flag('ordinary constants')
    y = 2017

    def make(m):
        born = 1940 if kind == 'RRIF' else 1970
        p = Person(y, 'A', str(born), '2030', gross_income=m(income),
                   raise_rate=m(0), high_precision=m.convert)
        kw = dict(balance=m(b), rate=m(rate), high_precision=m.convert)
        adjust = lambda target, base=y: (1 + m(inflation)) ** (target - base)
        if ordinary:
            kw['constants'] = ConstantsCanada()
        if kind in ('RRSP', 'RRIF', 'TFSA'):
            return (TFSA if kind == 'TFSA' else RRSP)(
                p, contribution_room=m(room), inflation_adjust=adjust, **kw)
        if kind == 'new TFSA':
            return TFSA(p, inflation_adjust=adjust, **kw)
        if kind == 'taxable':
            return TaxableAccount(p, acb=m(room), **kw)
        return PrincipleResidence(p, **kw)
    two_years(c, make, ['contribution_room', 'acb', 'capital_gain'],
              next_year=a_year)


# ------------------------------------------------------- taxes and people
@contract('P24', kinds=('bounded',), max_paths=20000)
def taxes(c):
    """Taxes on an amount, on a person and on spouses."""
    rates = [c.real('rate %d' % i, lo=0, hi=0.5) for i in range(2)]
    line = c.real('threshold', lo=30000, hi=40000)
    own = c.real('personal deduction', lo=5000, hi=6000)
    credit_rate = c.real('credit rate', lo=0.1, hi=0.2)
    income = [c.real('income %d' % i, lo=20000 * (3 - i), hi=22000 * (3 - i))
              for i in range(2)]
    balance, rate = c.real('balance', lo=1000, hi=2000), c.real(
        'growth', lo=0.01, hi=0.1)
    price = c.real('price', lo=1, hi=1.1)
    deduction, credit = c.real('deduction', lo=10, hi=20), c.real(
        'credit', lo=10, hi=20)
    when = c.choice('timing', ['start', c.real('when', lo=0, hi=1)])
    year = c.choice('year', [Y, Y + 1])

    def run(m):
        hp = dict(high_precision=m.convert)
        tax = Tax(
            {Y: {m(0): m(rates[0]), m(line): m(rates[1])}},
            personal_deduction={Y: m(own)},
            credit_rate={Y: m(credit_rate)},
            inflation_adjust=lambda target, base=Y: m(price) ** (
                target - base), payment_timing=m(when), refund_timing=m(when),
            **hp)
        bare = Tax({Y: {m(0): m(rates[0])}}, **hp)
        people = [Person(Y, 'AB'[i], '1970', '2100', gross_income=m(
            income[i]), raise_rate=m(0), tax_treatment=tax, **hp)
                  for i in range(2)]
        people[0].spouse = people[1]
        Account(people[0], balance=m(balance), rate=m(rate), nper=1, **hp)
        if year != Y:
            for p in people:
                p.next_year()
                for a in p.accounts:
                    a.next_year()
        r = {}
        for name, t in [('tax', tax), ('bare', bare),
                        ('multi', TaxMulti([tax, bare]))]:
            r[name] = {
                'amount': t(m(income[0]), year),
                'person': t(people[0], year),
                'people': t(people, year),
                'brackets': dict(t.tax_brackets(year)),
                'marginal rate': t.marginal_rate(m(income[0]), year),
                'marginal bracket': t.marginal_bracket(m(income[0]), year),
                'deduction': t.deduction(people[0], year),
                'credit': t.credit(people[0], year),
                'credit rate': t.credit_rate(year),
                'payment': dict(t.payment_timing),
                'refund': dict(t.refund_timing)}
        r['given'] = tax(m(income[0]), year, deduction=m(deduction),
                         credit=m(credit))
        r['nobody'] = tax([], year)
        return r
    Modes(c).compare('tax', run)


@contract('P24', kinds=('bounded',), max_paths=20000)
def canadian_taxes(c):
    """Federal and provincial tax."""
    y = 2018
    income = [c.real('income 0', lo=60000, hi=61000),
              c.real('income 1', lo=0, hi=100)]
    balance = c.real('balance', lo=100000, hi=200000)
    take = c.real('withdrawal', lo=3000, hi=4000)
    price = c.real('price', lo=1, hi=1.001)
    year = c.choice('year', [y, y + 1])
    deduction = c.real('deduction', lo=10, hi=20)
    province = c.choice('jurisdiction', ['both', 'BC', 'Federal'])

    def run(m):
        hp = dict(high_precision=m.convert)
        adjust = lambda target, base=y: m(price) ** (target - base)
        if province == 'both':
            tax = TaxCanada(adjust, **hp)
        else:
            tax = TaxCanadaJurisdiction(adjust, province, **hp)
        people = [Person(y, 'AB'[i], '1970', '2100', gross_income=m(
            income[i]), raise_rate=m(0), tax_treatment=tax, **hp)
                  for i in range(2)]
        people[0].spouse = people[1]
        x = RRSP(people[0], contribution_room=m(0), balance=m(balance),
                 rate=m(0), inflation_adjust=adjust, **hp)
        x.add_transaction(-m(take), 'end')
        if year != y:
            for p in people:
                p.next_year()
            x.next_year()
        r = {'amount': tax(m(income[0]), year),
             'person': tax(people[0], year),
             'people': tax(people, year),
             'payment': dict(tax.payment_timing),
             'refund': dict(tax.refund_timing),
             'marginal rate': tax.marginal_rate(m(income[0]), year),
             'withheld': [p.tax_withheld for p in people],
             'net income': [p.net_income for p in people]}
        if province == 'both':
            r['given'] = tax(m(income[0]), year,
                             federal_deduction=m(deduction))
        return r
    Modes(c).compare('tax', run)


@contract('P24', kinds=('bounded',), max_paths=20000)
def people(c):
    """Income of people over the years."""
    income, rate = c.real('income', lo=1000, hi=2000), c.real(
        'raise', lo=0, hi=0.1)
    kind = c.choice('raises', ['none', 'rate', 'ordinary rate', 'by year',
                               'function'])
    payments = c.choice('payments', [None, 'start', 'BW', {
        0.25: c.pos('weight 0'), 0.5: c.pos('weight 1')}])
    retires = c.choice('retires', ['2001', '2100'])
    share = c.real('tax rate', lo=0, hi=0.5)
    given = c.flag('given income')

    def run(m):
        hp = dict(high_precision=m.convert)
        kw = {}
        if kind == 'rate':
            kw['raise_rate'] = m(rate)
        elif kind == 'ordinary rate':
            kw['raise_rate'] = rate
        elif kind == 'by year':
            kw['raise_rate'] = {Y + i: m(rate * i) for i in range(5)}
        elif kind == 'function':
            kw['raise_rate'] = lambda year: m(rate) * (year - Y)
        if given:
            kw['gross_income'] = m(income)
        p = Person(Y, 'A', '1970', retires, payment_timing=m(
            payments) if isinstance(payments, dict) else payments,
                   tax_treatment=Tax({Y: {m(0): m(share)}}, **hp),
                   **hp, **kw)
        q = Person(Y, 'B', '1970', retires, **hp)
        x = Account(p, balance=m(income), rate=m(rate), nper=1, **hp)
        years = []
        for _ in range(4):
            years.append({n: getattr(z, n) for n in [
                'gross_income', 'net_income', 'raise_rate', 'tax_withheld',
                'tax_credit', 'tax_deduction', 'taxable_income']
                          for z in (p, q)})
            for z in (p, q, x):
                z.next_year()
        return {'years': years, 'payments': dict(p.payment_timing),
                'incomes': dict(p.gross_income_history),
                'net incomes': dict(p.net_income_history),
                'no incomes': dict(q.net_income_history)}
    Modes(c).compare('people', run)


# --------------------------------------------------- strategies, forecasts
EXPENSES = ['Constant contribution', 'Constant living expenses',
            'Percentage of net income', 'Percentage of gross income',
            'Percentage of earnings growth',
            'Percentage of principal at retirement',
            'Percentage of net income at retirement',
            'Percentage of gross income at retirement']


@contract('P24', kinds=('bounded',), max_paths=20000)
def living_expenses(c):
    """Living expenses by every strategy."""
    name = c.choice('strategy', EXPENSES)
    base, rate = c.real('base', lo=100, hi=200), c.real('rate', lo=0, hi=1)
    income = c.real('income', lo=1000, hi=2000)
    balance = c.real('balance', lo=100, hi=200)
    least = c.real('minimum', lo=50, hi=300)
    price = c.real('inflation', lo=0, hi=0.1)
    adjusted = c.flag('adjusted')

    def run(m):
        hp = dict(high_precision=m.convert)
        p = Person(Y, 'A', '1950', str(Y + 1), gross_income=m(income),
                   raise_rate=m(0), tax_treatment=Tax(
                       {Y: {m(0): m(price)}}, **hp), **hp)
        x = Account(p, balance=m(balance), rate=m(price), nper=1, **hp)
        scenario = Scenario(Y, 5, inflation=m(price))
        kw = dict(hp)
        if adjusted:
            kw['inflation_adjust'] = scenario.inflation_adjust
        s = LivingExpensesStrategy(
            name, base_amount=base, rate=rate, **kw)
        t = LivingExpensesStrategySchedule(
            s, s, minimum=LivingExpensesStrategy(
                'Constant living expenses', base_amount=least, **kw))
        r = []
        for i in range(4):
            if i:
                p.next_year(), x.next_year()
            if name.endswith('retirement') and i < 2:
                continue
            args = dict(people={p}, year=Y + i, retirement_year=Y + 1)
            r.append([s(**args), t(**args)])
        return {'expenses': r, 'adjustments': dict(
            scenario.inflation_adjustments(Y + 1))}
    Modes(c).compare('living expenses', run)


@contract('P24', kinds=('bounded',), max_paths=20000)
def allocation(c):
    """Allocation of assets and the resulting rates."""
    name = c.choice('strategy', ['n-age', 'Transition to constant'])
    low, high = c.real('min', lo=0, hi=0.3), c.real('max', lo=0.7, hi=1)
    target = c.real('target', lo=0.1, hi=0.9)
    target = target * 100 if name == 'n-age' else target
    returns = [c.real('return %d' % i, lo=0, hi=0.1) for i in range(3)]
    adjust = c.flag('adjust')
    age = c.choice('age', [20, 50, 60, 80])
    balance = c.real('balance', lo=100, hi=200)

    def run(m):
        hp = dict(high_precision=m.convert)
        s = AllocationStrategy(
            name, target=target, min_equity=low, max_equity=high,
            adjust_for_retirement_plan=adjust, **hp)
        x = s(age=age, retirement_age=67)
        p = Person(Y, 'A', str(Y - age), str(Y - age + 90), **hp)
        scenario = Scenario(
            Y, 5, *[m(r) for r in [0] + returns])
        a = Account(p, balance=m(balance),
                    rate=s.rate_function(p, scenario), nper=1, **hp)
        r = {'allocation': list(x), 'rate': a.rate, 'returns': a.returns}
        p.next_year(), a.next_year()
        return dict(r, later=a.rate, balance=a.balance)
    Modes(c).compare('allocation', run)


@contract('P24', kinds=('bounded',), max_paths=20000, budget=400)
def forecasts(c):
    """A forecast over two years."""
    price = c.real('inflation', lo=0, hi=0.1)
    own, due = c.real('tax withheld', lo=0.1, hi=0.2), c.real(
        'tax', lo=0.3, hi=0.4)
    income = c.real('income', lo=50000, hi=60000)
    balance = [c.real('balance %d' % i, lo=10000, hi=20000)
               for i in range(3)]
    rate = c.real('rate', lo=0.01, hi=0.05)
    amounts = {(k, y): c.real('%s in %d' % (k, y), lo=100, hi=200)
               for k in ('spent', 'saved', 'paid', 'taken')
               for y in (Y, Y + 1)}
    due_at = c.choice('tax due', ['end', c.real('tax due at', lo=0, hi=1)])
    how = c.choice('how', ['by forecaster', 'directly'])

    def run(m):
        hp = dict(high_precision=m.convert)
        scenario = Scenario(Y, 2, inflation=m(price))
        tax = Tax({Y: {m(0): m(own), m(30000): m(due)}},
                  payment_timing=m(due_at), refund_timing=m(due_at),
                  inflation_adjust=scenario.inflation_adjust, **hp)
        p = Person(Y, 'A', '1970', '2100', gross_income=m(income),
                   raise_rate=m(rate), tax_treatment=tax, **hp)
        x = Account(p, balance=m(balance[0]), rate=m(rate), nper=1, **hp)
        y = TaxableAccount(p, balance=m(balance[1]), rate=m(rate), nper=1,
                           **hp)
        d = Debt(p, balance=m(balance[2]), rate=m(rate), nper=1,
                 minimum_payment=m(1), **hp)
        for i, a in enumerate([x, y, d]):
            a.label = i

        def now(k, z):
            return m(amounts[k, z])

        def save(available, accounts, year):
            r = {}
            for a in accounts:
                k = ['saved', None, 'paid'][a.label]
                if k:
                    r[a] = {m(0.5): now(k, a.this_year)}
            return r

        def take(available, accounts, year):
            return {a: {m(0.25): -now('taken', a.this_year)}
                    for a in accounts if a.label == 1}
        kw = dict(living_expenses_strategy=Given(
            lambda available, accounts, year: now('spent', year)))
        if how == 'by forecaster':
            f = Forecaster(
                settings=Settings(), scenario=scenario,
                saving_strategy=Given(save), withdrawal_strategy=Given(take),
                tax_treatment=tax, **kw, **hp).run_forecast({p}, {x, y}, {d})
        else:
            f = Forecast(
                IncomeForecast(Y, {p}, **hp),
                LivingExpensesForecast(Y, {p}, **kw, **hp),
                SavingForecast(Y, {x, y}, {d}, Given(save), **hp),
                WithdrawalForecast(Y, {p}, {x, y}, Given(take), **hp),
                TaxForecast(Y, {p}, tax, **hp), scenario, **hp)
        r = {'available': dict(f.available)}
        for part in (f, f.income_forecast, f.living_expenses_forecast,
                     f.saving_forecast, f.withdrawal_forecast,
                     f.tax_forecast):
            name = type(part).__name__
            for n in dir(type(part)):
                if n.endswith('_history'):
                    r[name, n] = numbers(getattr(part, n))
            r[name, 'transactions'] = {
                str(getattr(k, 'label', k)) if isinstance(k, str) else
                'account %d' % k.label: dict(v)
                for k, v in part.transactions.items()
                if isinstance(k, str) or hasattr(k, 'label')} if hasattr(
                    part, 'transactions') else None
        for a in f.assets | f.debts:
            r[a.label] = [a.balance, dict(a.transactions), a.returns]
        return {str(k): v for k, v in r.items()}
    Modes(c).compare('forecast', run)


def numbers(history):
    """What is numeric in a history."""
    return {str(y): v for y, v in history.items()
            if not isinstance(v, (dict, set, frozenset, list, tuple))}
