"""Living expenses."""
from collections import defaultdict
from pyvc.ctx import contract
from forecaster.accounts import Account
from forecaster.forecast.living_expenses import LivingExpensesForecast
from forecaster.person import Person
from forecaster.scenario import Scenario
from forecaster.strategy.gross_transaction import (
    LivingExpensesStrategy, LivingExpensesStrategySchedule)
from contracts.common import Y

KEYS = ['Constant contribution', 'Constant living expenses',
        'Percentage of net income', 'Percentage of gross income',
        'Percentage of earnings growth',
        'Percentage of principal at retirement',
        'Percentage of net income at retirement',
        'Percentage of gross income at retirement']
RATES = [0.2, 0.5, 0.04, 1, 0, 1.5]


class Thing(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


def an_account(g):
    return Thing(balance=g.real('balance'),
                 balance_history={Y: g.real('balance then')})


def a_person(g):
    return Thing(net_income=g.real('net'), gross_income=g.real('gross'),
                 net_income_history={Y: g.real('net then')},
                 gross_income_history={Y: g.real('gross then')},
                 accounts=set())


def formula(key, base, rate, price, net, gross, principal, net0, gross0):
    """What a strategy prescribes, before the floor of zero.  `price` is
    the level of prices relative to the year the formula refers to."""
    if key == 'Constant contribution':
        return net - base * price
    if key == 'Constant living expenses':
        return base * price
    if key == 'Percentage of net income':
        return rate * net
    if key == 'Percentage of gross income':
        return rate * gross
    if key == 'Percentage of earnings growth':
        return base * price + rate * (net - base * price)
    if key == 'Percentage of principal at retirement':
        return rate * principal * price
    if key == 'Percentage of net income at retirement':
        return rate * net0 * price
    if key == 'Percentage of gross income at retirement':
        return rate * gross0 * price


def floor(x, least=0):
    return x if x > least else least


class Prices(object):
    """Any levels of prices.  Without a base year they are relative to some
    base of their own."""
    def __init__(self, c, years):
        self.levels = {y: c.pos('prices %d' % y, nice=[1, 1.02, 2])
                       for y in years}
        self.default = c.pos('base prices', nice=[1, 1.5])

    def __call__(self, target_year, base_year=None):
        return self.levels[target_year] / (
            self.default if base_year is None else self.levels[base_year])


def total(xs):
    t = 0
    for x in xs:
        t += x
    return t


@contract('P20')
def incomes(c):
    """Strategies that refer to income, for any number of people."""
    key = c.choice('strategy', [k for k in KEYS if 'principal' not in k])
    base, rate = c.real('base'), c.real('rate', nice=RATES)
    prices = Prices(c, [Y, Y + 9]) if c.flag('adjusted') else None
    s = LivingExpensesStrategy(key, base, rate, prices)
    year = Y + 9
    people = c.as_set(c.objects('people', a_person)
                      + [a_person(Named(c, 'p'))])
    got = s(year=year, people=people, retirement_year=Y)
    price = 1
    if prices is not None:
        price = prices(year, Y if 'at retirement' in key else None)
    want = formula(
        key, base, rate, price, total(p.net_income for p in people),
        total(p.gross_income for p in people), None,
        total(p.net_income_history[Y] for p in people),
        total(p.gross_income_history[Y] for p in people))
    c.eq('living expenses', got, floor(want))
    c.ge('never negative', got, 0)


class Named(object):
    """Draws named values."""
    def __init__(self, c, name):
        self.c, self.name = c, name

    def real(self, name):
        return self.c.real(self.name + ' ' + name)


@contract('P20')
def principal(c):
    """A share of principal at retirement, for any number of accounts, each
    counted once even if two people share it."""
    n = c.choice('people', [1, 2])
    people = [a_person(Named(c, 'p%d' % i)) for i in range(n)]
    own = [c.objects('accounts %d' % i, an_account) for i in range(n)]
    shared = c.objects('shared', an_account) if n == 2 else []
    for p, accounts in zip(people, own):
        p.accounts = c.as_set(accounts + shared)
    rate = c.real('rate', nice=RATES)
    prices = Prices(c, [Y, Y + 9]) if c.flag('adjusted') else None
    s = LivingExpensesStrategy('Percentage of principal at retirement',
                               c.real('base'), rate, prices)
    got = s(year=Y + 9, people=set(people), retirement_year=Y)
    then = total(a.balance_history[Y] for a in shared)
    for accounts in own:
        then += total(a.balance_history[Y] for a in accounts)
    price = prices(Y + 9, Y) if prices is not None else 1
    c.eq('living expenses', got, floor(rate * then * price))


class Given(object):
    """A strategy that prescribes a given amount."""
    def __init__(self, c, name):
        self.c, self.amount, self.calls = c, c.nonneg(name), []

    def __call__(self, *args, year=None, retirement_year=None, people=None,
                 **kwargs):
        self.calls.append((year, retirement_year, people))
        return self.amount


@contract('P20')
def schedule(c):
    """Working strategy until and including the year of retirement, the
    retirement strategy after it, and never below the minimum."""
    working, retired = Given(c, 'working'), Given(c, 'retired')
    least = Given(c, 'least') if c.flag('minimum') else None
    s = LivingExpensesStrategySchedule(working, retired, least)
    year = c.integer('year', lo=1900, hi=2200, nice=[Y, Y + 1])
    if c.flag('retirement planned'):
        planned = c.integer('retirement year', lo=1900, hi=2200,
                            nice=[Y, Y - 1, Y + 1])
        want = retired if year > planned else working
    else:
        planned, want = None, working
    people = object()
    got = s(year=year, retirement_year=planned, people=people)
    c.eq('living expenses', got,
         floor(want.amount, least.amount if least else 0))
    for used in (want, least) if least else (want,):
        for y, r, p in used.calls:
            c.eq('year', y, year)
            c.check('people', p is people)
            if planned is not None:
                c.eq('retirement year', r, planned)
            else:
                c.check('no retirement year', r is None)


@contract('P20')
def schedule_of_strategies(c):
    """A schedule of real strategies, minimum included, one person."""
    year = c.integer('year', lo=1900, hi=2200, nice=[Y, Y + 1])
    keys = c.choice('strategies', [
        (KEYS[0], KEYS[7], KEYS[1]), (KEYS[1], KEYS[5], KEYS[2]),
        (KEYS[4], KEYS[6], KEYS[3])])
    prices = Prices(c, [Y])
    price = c.pos('prices now', nice=[1, 2])
    since = c.pos('prices since retirement', nice=[1, 1.5])
    adjust = lambda to, base=None: price if base is None else since
    values = [(c.real('base %d' % i), c.real('rate %d' % i, nice=RATES))
              for i in range(3)]
    s = LivingExpensesStrategySchedule(*(
        LivingExpensesStrategy(k, b, r, adjust)
        for k, (b, r) in zip(keys, values)))
    p = a_person(Named(c, 'p'))
    accounts = c.objects('accounts', an_account)
    p.accounts = c.as_set(accounts)
    got = s(year=year, retirement_year=Y, people=[p])
    def want(i):
        k = keys[i]
        return floor(formula(
            k, *values[i], since if 'retirement' in k else price,
            p.net_income, p.gross_income,
            total(a.balance_history[Y] for a in accounts),
            p.net_income_history[Y], p.gross_income_history[Y]))
    c.eq('living expenses', got,
         floor(want(1 if year > Y else 0), want(2)))


@contract('P20')
def prices_of_scenario(c):
    """With the price levels of a scenario, constant living expenses grow
    with inflation from the first year of the scenario, in any year."""
    inflation = {Y + i: c.real('inflation %d' % i, lo=-1, lo_open=True, hi=5,
                               nice=[0.02, 0, 0.1]) for i in range(4)}
    base = c.nonneg('base')
    n = c.choice('year', [0, 1, 3])
    s = LivingExpensesStrategy(
        'Constant living expenses', base,
        inflation_adjust=Scenario(Y, 5, inflation=inflation).inflation_adjust)
    want = base
    for i in range(n):
        want = want * (1 + inflation[Y + i])
    c.eq('living expenses', s(year=Y + n), want)


@contract('P20', kinds=('bounded',))
def forecast(c):
    """Living expenses of a forecast year by year: by the working strategy
    until the first planned retirement of the household."""
    first, second = c.choice('retirements', [
        (0, None), (1, None), (5, None), (0, 2), (2, 1), (1, 1)])
    base, rate = c.nonneg('base'), c.real('rate', lo=0, hi=2, nice=RATES)
    floor_rate = c.real('floor', lo=0, hi=2, nice=RATES)
    s = LivingExpensesStrategySchedule(
        LivingExpensesStrategy('Percentage of gross income', rate=rate),
        LivingExpensesStrategy('Constant living expenses', base),
        LivingExpensesStrategy('Percentage of principal at retirement',
                               rate=floor_rate)
        if c.flag('minimum') else None)
    people = [Person(Y, 'p%d' % i, '1960-03-03', '%d-03-03' % (Y + n),
                     gross_income=c.nonneg('income %d' % i))
              for i, n in enumerate((first, second)) if n is not None]
    account = Account(people[-1], balance=c.nonneg('balance'), rate=0)
    if len(people) > 1:
        people[0].accounts.add(account)
    f = LivingExpensesForecast(Y, c.as_set(people), s)
    retires = Y + min(n for n in (first, second) if n is not None)
    account.balance_history
    for i in range(3):
        year = Y + i
        if s.minimum is not None and year < retires:
            s_min, s.minimum = s.minimum, None  # principal is not known yet
        else:
            s_min = s.minimum
        want = (base if year > retires
                else rate * total(p.gross_income for p in people))
        if s.minimum is not None:
            want = floor(want, floor_rate * account.balance_history[retires])
        available = defaultdict(lambda: 0)
        f(available)
        c.eq('living expenses', f.living_expenses, want)
        c.eq('all of it is spent', -total(available.values()), want)
        s.minimum = s_min
        for x in people + [account, f]:
            x.next_year()

