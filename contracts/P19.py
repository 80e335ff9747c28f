"""Asset allocation and the returns that follow from it."""
from pyvc.ctx import contract
from forecaster.accounts import Account
from forecaster.person import Person
from forecaster.scenario import Scenario
from forecaster.strategy.allocation import (
    AllocationStrategy, AssetAllocation)
from contracts.common import Y

SHARES = [0, 1, 0.3, 0.5, 0.25, 0.9]
AGES = [0, 20, 30, 35, 45, 46, 55, 64, 65, 66, 80, 100, 120]


def clip(x, lo, hi):
    return lo if x < lo else hi if x > hi else x


def bounds(c):
    low = c.real('min equity', lo=0, hi=1, nice=SHARES)
    high = c.real('max equity', lo=0, hi=1, nice=SHARES)
    c.assume(low <= high)
    return low, high


def portfolio(c, got, stocks, low, high):
    c.eq('equities', got.stocks, stocks)
    c.ge('equities are no less than the minimum', got.stocks, low)
    c.le('equities are no more than the maximum', got.stocks, high)
    c.ge('bonds', got.bonds, 0)
    c.ge('other assets', got.other, 0)
    c.eq('the whole portfolio', got.stocks + got.bonds + got.other, 1)


def strategy(c, key, low, high, adjust, **kw):
    return AllocationStrategy(
        key, min_equity=low, max_equity=high,
        adjust_for_retirement_plan=adjust, **kw)


@contract('P19')
def n_minus_age(c):
    """Any age, target, bounds, standard and actual retirement ages."""
    low, high = bounds(c)
    n = c.real('n', nice=[100, 110, 65, 120, 300, 0, -50])
    age = c.real('age', nice=AGES)
    standard = c.integer('standard', lo=0, hi=200, nice=[65, 60])
    adjust = c.flag('adjust')
    retires = c.real('retires', nice=[65, 55, 45, 70])
    s = strategy(c, 'n-age', low, high, adjust, target=n,
                 standard_retirement_age=standard)
    if adjust:
        c.raises('the retirement age is needed', lambda: s(age), ValueError)
    if adjust or c.flag('retirement age given'):
        got = s(age, retirement_age=retires)
    else:
        got = s(age)
    counted = age + (standard - retires if adjust else 0)
    portfolio(c, got, clip((n - counted) / 100, low, high), low, high)


@contract('P19')
def transition(c):
    """Any age, target, bounds, retirement ages and period."""
    low, high = bounds(c)
    target = c.real('target', nice=SHARES + [2, -1])
    age = c.real('age', nice=AGES)
    standard = c.integer('standard', lo=0, hi=200, nice=[65, 60])
    period = c.integer('period', lo=0, hi=100, nice=[20, 0, 1])
    adjust = c.flag('adjust')
    retires = c.real('retires', nice=[65, 55, 45, 70])
    s = strategy(c, 'Transition to constant', low, high, adjust,
                 target=target, standard_retirement_age=standard,
                 risk_transition_period=period)
    if adjust:
        c.raises('the retirement age is needed', lambda: s(age), ValueError)
    if adjust or c.flag('retirement age given'):
        got = s(age, retirement_age=retires)
    else:
        got = s(age)
    end = retires if adjust else standard
    if age <= end - period:
        stocks = high
    elif age >= end:
        stocks = target
    else:
        stocks = target + (high - target) * (end - age) / period
    portfolio(c, got, clip(stocks, low, high), low, high)


@contract('P19')
def any_portfolio(c):
    """Whatever portfolio a strategy comes up with is brought within the
    bounds, other assets kept in proportion to bonds."""
    low, high = bounds(c)
    stocks = c.real('stocks', lo=0, hi=1, nice=SHARES)
    bonds = c.real('bonds', lo=0, hi=1, nice=SHARES)
    other = 1 - stocks - bonds
    c.assume(other >= 0)
    class Fixed(AllocationStrategy):
        def pick(self, age, *args, **kwargs):
            return AssetAllocation(stocks, bonds, other)
    Fixed.strategies = dict(Fixed.strategies, fixed=Fixed.pick)
    s = Fixed('fixed', 0, min_equity=low, max_equity=high)
    got = s(40, retirement_age=65)
    portfolio(c, got, clip(stocks, low, high), low, high)
    c.eq('proportions', got.bonds * other, got.other * bonds)


@contract('P19')
def bounds_in_order(c):
    """A minimum above the maximum is refused."""
    low = c.real('min equity', lo=0, hi=1, nice=SHARES)
    high = c.real('max equity', lo=0, hi=1, nice=SHARES)
    make = lambda: strategy(c, 'n-age', low, high, True, target=100)
    if low > high:
        c.raises('refused', make, ValueError)
    else:
        s = make()
        c.eq('minimum', s.min_equity, low)
        c.eq('maximum', s.max_equity, high)


def markets(c, years):
    """Returns by year: stocks, bonds and other assets."""
    return tuple({y: c.real('%s %d' % (kind, y), nice=[0, 0.05, 0.1, -0.2])
                  for y in years} for kind in ('stock', 'bond', 'else'))


class Anyone(object):
    """Someone of any age, retiring at any age."""
    def __init__(self, c, years):
        self.ages = {y: c.real('age %d' % y, nice=AGES) for y in years}
        self.retirement_age = c.real('retires', nice=[65, 55, 45, 70])
        self.age = self.ages.__getitem__


@contract('P19')
def weighted_return(c):
    """The return is the average of the year's returns, weighted by the
    allocation at the age the person has in that year, for any allocation,
    ages and returns."""
    years = [Y, Y + 1]
    stock, bond, other = markets(c, years)
    p = Anyone(c, years)
    shares = {y: AssetAllocation(*(
        c.nonneg('%s %d' % (kind, y))
        for kind in ('stocks', 'bonds', 'other'))) for y in years}
    for w in shares.values():
        c.assume(w.stocks + w.bonds + w.other > 0)
    class Given(object):
        def __call__(self, age, retirement_age):
            c.eq('age', age, p.ages[self.year])
            c.eq('retirement age', retirement_age, p.retirement_age)
            return shares[self.year]
    s = Given()
    f = AllocationStrategy.rate_function(s, p, Scenario(
        Y, 3, stock_return=stock, bond_return=bond, other_return=other))
    for y in years + years[:1]:
        s.year = y
        w = shares[y]
        c.eq('rate', f(y), (w.stocks * stock[y] + w.bonds * bond[y]
                            + w.other * other[y])
             / (w.stocks + w.bonds + w.other))


@contract('P19')
def return_of_strategy(c):
    """Strategies together with their returns: the returns of equities and
    bonds in the year, by the strategy's own formula."""
    low, high = bounds(c)
    stock, bond, other = markets(c, [Y])
    p = Anyone(c, [Y])
    n = c.real('n', nice=[100, 110, 65, 120, 300, 0, -50])
    adjust = c.flag('adjust')
    s = strategy(c, 'n-age', low, high, adjust, target=n,
                 standard_retirement_age=65)
    scenario = Scenario(Y, 3, stock_return=stock, bond_return=bond,
                        other_return=other)
    shift = 65 - p.retirement_age if adjust else 0
    w = clip((n - p.ages[Y] - shift) / 100, low, high)
    c.eq('rate', s.rate_function(p, scenario)(Y),
         w * stock[Y] + (1 - w) * bond[Y])


@contract('P19', kinds=('bounded',))
def rate_of_account(c):
    """The rate of an account follows the age of its owner year by year."""
    years = [Y, Y + 1]
    stock, bond, other = markets(c, years)
    age, retires, day = c.choice('case', [
        (0, 65, '01-01'), (30, 50, '12-31'), (64, 65, '06-15'),
        (70, 72, '06-15')])
    p = Person(Y, 'p', '%d-%s' % (Y - age, day), '%d' % (Y - age + retires))
    low, high = bounds(c)
    adjust = c.flag('adjust')
    s = strategy(c, 'n-age', low, high, adjust, target=c.real(
        'n', nice=[100, 110, 65, 120, 300, 0, -50]))
    account = Account(p, balance=c.nonneg('balance'), rate=s.rate_function(
        p, Scenario(Y, 3, stock_return=stock, bond_return=bond,
                    other_return=other)))
    balance = account.balance
    for i, y in enumerate(years):
        shift = 65 - retires if adjust else 0
        w = clip((s.target - (age + i) - shift) / 100, low, high)
        c.eq('rate', account.rate, w * stock[y] + (1 - w) * bond[y])
        c.eq('balance', account.balance, balance)
        balance = balance * (1 + account.rate)
        p.next_year()
        account.next_year()
