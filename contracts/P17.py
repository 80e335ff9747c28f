"""A forecast accounts for every dollar each year."""
from collections import defaultdict
from datetime import datetime
from pyvc.ctx import contract, finding
from forecaster.accounts import Account, Debt
from forecaster.forecast import (
    Forecast, IncomeForecast, LivingExpensesForecast, SavingForecast,
    TaxForecast, WithdrawalForecast)
from forecaster.ledger import recorded_property
from forecaster.person import Person
from forecaster.scenario import Scenario
from forecaster.utility import Timing
from contracts.common import Y

ASSUMPTIONS = [
    'the strategies that decide contributions and withdrawals are '
    'given: any amounts, at the times of the contracts (see P18 for '
    'what real ones decide)']


class Given:
    """Whatever a strategy may decide, year by year."""

    def __init__(self, decide):
        self.decide = decide

    def __call__(self, available=None, accounts=None, year=None, **kwargs):
        return self.decide(available, accounts, year)


class GivenTax:
    """A flat tax on income, another on people."""

    def __init__(self, withheld, due, refund=0, payment=0):
        self.withheld, self.due = withheld, due
        self.refund_timing = Timing(refund)
        self.payment_timing = Timing(payment)

    def __call__(self, income, year, **kwargs):
        if hasattr(income, '__iter__'):
            return sum([x.taxable_income for x in income]) * self.due
        return income * self.withheld


class Withholding(Account):
    """Withholds a share of what is withdrawn; as a negative amount, which
    is what WithdrawalForecast takes, or as a positive one, as RRSP does."""
    share = 0

    @recorded_property
    def tax_withheld(self):
        return self.outflows() * self.share

    @recorded_property
    def taxable_income(self):
        return -self.outflows()


class World:
    """A forecast in which everything that people decide is given."""

    def __init__(self, c, years=1, covered=False, withhold=None, n=1,
                 times=(0.5, 0.5, 0.5, 0.5), moves='xdwz'):
        self.c, self.times, self.moves = c, times, moves
        self.tax = GivenTax(
            c.real('withholding rate', lo=0, hi=1),
            c.real('tax rate', lo=0, hi=1),
            *([c.choice('refund timing', [0, 0.5]),
               c.choice('payment timing', [0, 0.5])] if years > 1 else []))
        self.people = [
            Person(Y, 'P%d' % i, '1970', '2100', tax_treatment=self.tax,
                   gross_income=c.nonneg('gross income %d' % i),
                   payment_timing=times[i]) for i in range(n)]
        p = self.people[0]
        self.a = Account(p, balance=c.nonneg('balance'), rate=0)
        self.b = Withholding(p, balance=c.nonneg('other balance'), rate=0)
        self.b.share = withhold if withhold is not None else 0
        self.debt = Debt(p, balance=c.nonneg('debt'), rate=0)
        if n > 1:       # an account that two people hold
            self.people[1].accounts.add(self.a)
        self.spent, self.saved, self.taken = {}, {}, {}
        self.covered = covered
        self.parts = {
            'income_forecast': IncomeForecast(Y, set(self.people)),
            'living_expenses_forecast': LivingExpensesForecast(
                Y, set(self.people), Given(self.spend)),
            'saving_forecast': SavingForecast(
                Y, {self.a}, {self.debt}, Given(self.save)),
            'withdrawal_forecast': WithdrawalForecast(
                Y, set(self.people), {self.a, self.b}, Given(self.take)),
            'tax_forecast': TaxForecast(Y, set(self.people), self.tax)}
        self.forecast = Forecast(scenario=Scenario(Y, num_years=years),
                                 **self.parts)

    def spend(self, available, accounts, year):
        if year not in self.spent:
            self.spent[year] = self.c.nonneg('spent in %d' % year)
        return self.spent[year]

    def amount(self, key, name):
        if key not in self.moves:
            return 0
        return self.c.nonneg('%s in %d' % (name, self.a.this_year))

    def flows(self, *parts):
        """No flows for what is not moved."""
        return {place: {t: v} for key, place, t, v in parts
                if key in self.moves}

    def save(self, available, accounts, year):
        t = self.times
        x, d = self.amount('x', 'saved'), self.amount('d', 'repaid')
        self.saved[self.a.this_year] = x, d
        return self.flows(('x', self.a, t[2], x), ('d', self.debt, t[3], d))

    def take(self, available, accounts, year):
        t = self.times
        need = -sum(available.values())
        x = self.amount('w', 'withdrawn')
        if self.covered:
            self.c.assume(x <= need)
            z = need - x
        else:
            z = self.amount('z', 'also withdrawn')
        self.taken[self.a.this_year] = x, z
        return self.flows(('w', self.a, t[1], -x), ('z', self.b, t[3], -z))


@contract('P17', kinds=('bounded',), max_paths=20000, budget=400)
def every_dollar(c):
    """What comes in during a year is what goes out and what is left."""
    n, times, moves = c.choice('case', [
        (1, (0.5, 0.5, 0.5, 0.5), 'xdwz'), (2, (0.5, 0.5, 0.5, 0.5), 'xz'),
        (1, (0.5, 0.5, 0.5, 1), 'xz'), (1, (0.5, 0.5, 0.25, 1), 'wd')])
    covered = 'z' in moves and c.flag('covered')
    share = c.real('share withheld', lo=0, hi=1)
    w = World(c, covered=covered, withhold=share, n=n, times=times,
              moves=moves)
    f, parts = w.forecast, w.parts
    gross = sum([p.gross_income for p in w.people])
    x, d = w.saved[Y]
    taken = sum(w.taken[Y])
    left = sum(f.available.values())
    net = gross * (1 - w.tax.withheld)
    c.eq('nothing carried into the first year',
         parts['income_forecast'].carryover, 0)
    c.eq('every dollar', left,
         net - w.spent[Y] - x - d + taken - w.taken[Y][1] * share)
    c.eq('net income', f.income, net)
    c.eq('gross income', parts['income_forecast'].gross_income, gross)
    c.eq('tax withheld on income', parts['income_forecast'].tax_withheld,
         gross * w.tax.withheld)
    c.eq('living expenses', f.living_expenses, w.spent[Y])
    c.eq('saved for retirement',
         parts['saving_forecast'].retirement_savings, x)
    c.eq('repaid', parts['saving_forecast'].debt_repayment, d)
    c.eq('saved or repaid', parts['saving_forecast'].total, x + d)
    c.eq('withheld from withdrawals',
         -parts['withdrawal_forecast'].tax_withheld, w.taken[Y][1] * share)
    if covered:
        c.eq('withdrawals', f.withdrawals, taken)
        c.eq('net withdrawals', parts['withdrawal_forecast'].net_withdrawals,
             taken - w.taken[Y][1] * share)
    c.eq('in the account', sum(w.a.transactions.values()), x - w.taken[Y][0])
    c.eq('paid on the debt', sum(w.debt.transactions.values()), d)
    c.eq('principal', f.principal, w.a.balance + w.b.balance)
    c.check('assets and debts', f.assets == {w.a, w.b} and
            f.debts == {w.debt} and f.people == set(w.people))
    least = f.savings
    c.check('savings are not negative', least >= 0)
    if net > w.spent[Y]:
        c.eq('savings', least, net - w.spent[Y])


@contract('P17')
def tax_of_the_year(c):
    """Tax owing or refunded is what is withheld, from anyone and any
    account once, less what is due."""
    tax = GivenTax(c.real('withholding rate', lo=0, hi=1),
                   c.real('tax rate', lo=0, hi=1))
    n = c.size('people', 1, 4)
    people = [Person(Y, 'P%d' % i, '1970', '2100', tax_treatment=tax,
                     gross_income=c.nonneg('gross income %d' % i))
              for i in range(n)]
    total = sum([p.gross_income for p in people])
    withheld = total * tax.withheld
    shared = Withholding(people[0], balance=0, rate=0)
    shared.share = -c.real('share', lo=0, hi=1)
    v = c.nonneg('withdrawn')
    shared.add_transaction(-v, 0.5)
    withheld += v * -shared.share
    due = (total + v) * tax.due
    for p in people[1:]:        # held by all
        p.accounts.add(shared)
        due += v * tax.due
    f = TaxForecast(Y, set(people), tax)
    c.eq('withheld', f.tax_withheld, withheld)
    c.eq('due', f.tax_owing, due)
    c.eq('refund or amount owing', f.tax_adjustment, withheld - due)


@contract('P17', kinds=('bounded',), max_paths=20000, budget=400)
def carried_over(c):
    """What is left of one year and its refund or tax owing are what the
    next starts with; the year is on record as it was."""
    w = World(c, years=2, moves=c.choice('moves', list('xdwz')))
    f, parts = w.forecast, w.parts
    inc, tax = parts['income_forecast'], parts['tax_forecast']
    p = w.people[0]
    net = p.gross_income_history[Y] * (1 - w.tax.withheld)
    x, d = w.saved[Y]
    taken = sum(w.taken[Y])
    left = net - w.spent[Y] - x - d + taken
    due = (p.gross_income_history[Y] + w.taken[Y][1]) * w.tax.due
    adjust = p.gross_income_history[Y] * w.tax.withheld - due
    c.eq('adjustment for tax', tax.tax_adjustment_history[Y], adjust)
    c.eq('tax', f.tax_history[Y], due)
    c.eq('carried over', inc.carryover, left + adjust)
    c.eq('carried into the first year', inc.carryover_history[Y], 0)
    c.eq('income on record', f.income_history[Y], net)
    c.eq('living expenses on record', f.living_expenses_history[Y],
         w.spent[Y])
    y = Y + 1
    x1, d1 = w.saved[y]
    c.eq('every dollar of the second year', sum(f.available.values()),
         left + adjust + p.net_income - w.spent[y] - x1 - d1
         + sum(w.taken[y]))
    if adjust > 0:
        at = [t for t in w.tax.refund_timing]
    else:
        at = [t for t in w.tax.payment_timing]
    c.check('one time', len(at) == 1)
    want = {t: 0 for t in (0, 0.5, 1)}
    want[0] += left
    want[at[0]] += adjust
    moved = {part: parts[part].transactions[f.available]
             for part in parts if part != 'tax_forecast'}
    for t in want:
        other = sum([m[t] if t in m else 0 for m in moved.values()])
        got = f.available[t] if t in f.available else 0
        c.eq('when the year starts', got - other, want[t])
    c.eq('the principal of the second year', f.principal,
         f.principal_history[Y] + x - taken)
    c.eq('debt of the second year', w.debt.balance,
         w.debt.balance_history[Y] + d)
    for part in list(parts.values()) + [f, p, w.a, w.b, w.debt]:
        c.check('all in the same year', part.this_year == y)

class Part:
    """Any part of a forecast: moves some amount at some time each year."""

    def __init__(self, world, name, **attrs):
        self.world, self.name, self.this_year = world, name, Y
        for k in attrs:
            setattr(self, k, attrs[k])

    def __call__(self, available):
        w = self.world
        w.log.append((self.name, self.this_year))
        w.pools.append(available)
        if self.name == 'income':
            w.started.append(dict(available))
        v = w.c.real('%s in %d' % (self.name, self.this_year))
        t = w.times[self.name]
        available[t] = (available[t] if t in available else 0) + v
        w.total += v
        w.made[self.name, self.this_year] = v

    def next_year(self):
        self.world.log.append((self.name, 'recorded'))
        self.this_year += 1


class Parts:
    """A forecast of any parts."""

    def __init__(self, c, timing):
        self.c, self.total = c, 0
        self.log, self.pools, self.started, self.made = [], [], [], {}
        self.times = {'income': 0.25, 'living': 1, 'saving': 0,
                      'withdrawal': 0.25, 'tax': 1}
        attrs = {'tax_owing': c.real('tax')}
        self.adjust = c.real('adjustment') if timing != 'none' else None
        if self.adjust is not None:
            attrs['tax_adjustment'] = self.adjust
        if timing == 'given':
            attrs['tax_refund_timing'] = Timing({0.5: 1, 0.25: 1})
            attrs['tax_payment_timing'] = Timing({1: 1, 0.75: 3})
        self.parts = [
            Part(self, 'income', people=set(), net_income=c.real('net')),
            Part(self, 'living', living_expenses=c.real('spent')),
            Part(self, 'saving', debt_accounts=set()),
            Part(self, 'withdrawal', accounts=set(),
                 gross_withdrawals=c.real('withdrawn')),
            Part(self, 'tax', **attrs)]


@contract('P17', kinds=('bounded',))
def years_of_any_parts(c):
    """Whatever the parts of a forecast do: each acts once a year, in order,
    on the money left by those before it; the next year starts with all that
    is left and with the refund or the tax owing at its own times."""
    timing = c.choice('tax adjustment', ['given', 'no times', 'none'])
    w = Parts(c, timing)
    n = c.size('years', 1, 3)
    f = Forecast(*w.parts, scenario=Scenario(Y, num_years=n))
    names = [x.name for x in w.parts]
    want = [(x, y) for y in range(Y, Y + n) for x in names]
    c.check('each once a year, in order',
            [x for x in w.log if x[1] != 'recorded'] == want)
    for x in w.parts:
        c.check('recorded between the years', x.this_year == Y + n - 1)
    c.check('one pool of money', all([x is f.available for x in w.pools]))
    v = w.adjust if w.adjust is not None else 0
    c.eq('every dollar of all years', sum(f.available.values()),
         w.total + v * (n - 1))
    c.eq('nothing before the first year', sum(w.started[0].values()), 0)
    left = 0
    for y in range(Y, Y + n):
        start = w.started[y - Y]
        at = {0: left}
        if y > Y:
            shares = {0: 1}
            if timing == 'given':
                shares = {0.5: 0.5, 0.25: 0.5} if v > 0 else \
                    {1: 0.25, 0.75: 0.75}
            for t in shares:
                at[t] = (at[t] if t in at else 0) + v * shares[t]
        for t in [0, 0.25, 0.5, 0.75, 1]:
            c.eq('carried over', start[t] if t in start else 0,
                 at[t] if t in at else 0)
        left = sum(start.values()) + sum([
            w.made[x, y] for x in names])
    c.eq('left at last', sum(f.available.values()), left)


class Earner:
    """Anyone with an income."""

    def __init__(self, c, i):
        self.net_income = c.nonneg('net income %d' % i)
        self.payment_timing = Timing(c.choice('paid %d' % i, [0, 0.5, 'SA']))
        self.retirement_date = DATES[i]


DATES = [datetime(Y + i, 5, 1) for i in (20, 10, 15)]


@contract('P17', kinds=('bounded',))
def living_expenses_as_paid(c):
    """Living expenses are paid when people are paid (with money to pay them
    by then), by each in proportion to net income, by all alike if there is
    none; the strategy is asked about the year, the people and their
    first retirement."""
    n = c.size('people', 1, 3)
    people = [Earner(c, i) for i in range(n)]
    v = c.nonneg('living expenses')
    asked = []

    def decide(people, year, retirement_year, **kwargs):
        asked.append((list(people), year, retirement_year))
        return v
    f = LivingExpensesForecast(Y, people, decide)
    start = v + c.nonneg('more money')
    available = defaultdict(lambda: 0, {0: start})
    f(available)
    total = sum([x.net_income for x in people])
    want = {}
    for x in people:
        for t in x.payment_timing:
            share = x.net_income / total if total > 0 else 1 / n
            want[t] = (want[t] if t in want else 0) - \
                v * share * x.payment_timing[t] / sum(
                    x.payment_timing.values())
    want[0] = (want[0] if 0 in want else 0) + start
    for t in want:
        c.eq('paid then', available[t], want[t])
    for t in available:
        c.check('paid at no other time', t in want)
    c.eq('all of it is paid', sum(available.values()), start - v)
    c.check('asked', len(asked) > 0)
    for group, year, retirement in asked:
        c.check('about the people', {id(x) for x in group} ==
                {id(x) for x in people} and len(group) == n)
        c.check('about the year', year == Y)
        c.check('about the first retirement', retirement == min(
            [x.retirement_date.year for x in people]))


@finding('P17', 'withholding-added', 'tax withheld from withdrawals is added '
         'to the money available if the account reports it as a positive '
         'amount (as RRSP does, and TaxForecast takes it)')
def positive_withholding(c):
    """Tax withheld reduces the money available."""
    share = c.real('share withheld', lo=0, hi=1, lo_open=True)
    w = World(c, withhold=-share)
    x, d = w.saved[Y]
    taken = sum(w.taken[Y])
    net = w.people[0].gross_income * (1 - w.tax.withheld)
    c.eq('every dollar', sum(w.forecast.available.values()),
         net - w.spent[Y] - x - d + taken - w.taken[Y][1] * share)


@finding('P17', 'withdrawals-not-covered', 'gross withdrawals are reported '
         'as the shortfall of cash even where other amounts were withdrawn')
def withdrawals_not_covered(c):
    """Gross withdrawals are what is withdrawn, covering the need or not."""
    w = World(c)
    c.eq('withdrawals', w.forecast.withdrawals, sum(w.taken[Y]))


@contract('P17', kinds=('bounded',))
def tax_withheld_from_withdrawals(c):
    """What is withheld because of the withdrawals of a forecast, and only
    that, leaves the money withdrawn, whatever was withheld from the accounts
    before; anew for each year, and again if a year is done over."""
    p = Person(Y, 'a', '1970', '2100')
    names, given, years, calls = c.choice('case', [
        ('a', True, 1, 1), ('a', False, 1, 2), ('a', True, 2, 1),
        ('ab', False, 1, 1), ('ab', True, 1, 1)])
    accounts = []
    for name in names:
        flows = defaultdict(lambda: 0)
        if given:
            flows[0.25] = -c.nonneg('taken before from ' + name)
        x = Withholding(p, balance=100000, rate=0,
                        inputs={'transactions': {Y: flows}})
        x.share = c.real('share ' + name, lo=0, hi=1)
        accounts.append(x)
    chosen = {}
    f = WithdrawalForecast(Y, {p}, set(accounts),
                           Given(lambda *args: chosen))
    c.eq('nothing withheld yet', f.tax_withheld, 0)
    for i in range(years):
        before = {x: sum(x.transactions.values()) for x in accounts}
        for again in range(calls):
            cash = c.nonneg('cash %d %d' % (i, again))
            available = defaultdict(lambda: 0)
            available[0] = cash
            taken = {x: c.nonneg('from %d %d %d' % (j, i, again), hi=1000)
                     for j, x in enumerate(accounts)}
            chosen = {x: {0.5: -v} for x, v in taken.items()}
            if again:
                f.undo_transactions()
                c.eq('nothing withheld once undone', f.tax_withheld, 0)
            f(available)
            tax = sum([v * x.share for x, v in taken.items()])
            c.eq('tax withheld', f.tax_withheld, -tax)
            c.eq('money available', sum(available.values()),
                 cash + sum(taken.values()) - tax)
            c.eq('nothing is withheld before it is withdrawn',
                 sum([v for t, v in available.items() if t < 0.5]), cash)
            for x, v in taken.items():
                c.eq('withdrawn', sum(x.transactions.values()),
                     before[x] - v)
        for x in accounts:
            x.next_year()
        f.next_year()
        c.eq('nothing withheld in a new year', f.tax_withheld, 0)
