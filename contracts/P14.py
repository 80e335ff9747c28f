"""Capital gains of taxable accounts."""
from pyvc.ctx import contract
from forecaster.canada.accounts import TaxableAccount
from forecaster.person import Person
from contracts.common import Y, compounding, flows_to, grow
from pyvc.invariant import Invariant

TIMES = [[], [0.5], [1], [0, 0.5], [0.5, 0.25], [0.25, 0.5, 1], [1, 0.5, 0]]


def a_person(c):
    return Person(Y, 'p', '1950', '2100', gross_income=c.nonneg('income'))


def life(c, balance, acb, m, rate, nper):
    """Cost base and gain after the flows of a year, by average cost.
    Withdrawals are of no more than there is."""
    gain, last, acb0 = 0, 0, acb
    for t in sorted(m):
        balance = balance * grow(rate, nper, t - last)
        last = t
        if m[t] < 0:
            c.assume(balance > 0)
            c.assume(-m[t] <= balance)
            carried = acb * -m[t] / balance
            gain += -m[t] - carried
            acb -= carried
        else:
            acb += m[t]
        balance += m[t]
    return acb, gain, balance * grow(rate, nper, 1 - last)


class AverageCost(Invariant):
    """_realize_gains: the cost base so far is what it was at first, with
    the flows and the gains so far; at each flow both change by the rule of
    average cost, on the balance just before it."""

    def __init__(self, c, phase, element, flows, acb, before):
        Invariant.__init__(self, c, 'TaxableAccount._realize_gains', 0,
                           phase, element)
        self.flows, self.acb, self.before = flows, acb, before
        # (the state when a loop over these flows is done is one and the
        # same each time, as all that it starts from is)
        self.gain = c.real('gain so far')
        if phase == 'finish':
            self.C = sum(flows.values())
        else:
            self.C = sum(flows[k] for k in flows if k < element)
        self.base = acb + self.C + self.gain

    def over(self, v):
        return self.flows

    def entry(self, v):
        self.c.eq('cost base at first', v['acb'], self.acb)
        self.c.eq('no gain at first', v['capital_gain'], 0)

    def fresh(self, v):
        c = self.c
        if self.phase == 'step':
            c.assume(c.any_of(self.flows[self.element] >= 0,
                              self.before > 0))
        return {'acb': self.base, 'capital_gain': self.gain}

    def step(self, v):
        c, flow = self.c, self.flows[self.element]
        if flow < 0:
            carried = self.base * -flow / self.before
            c.eq('gain of a withdrawal', v['capital_gain'],
                 self.gain - flow - carried)
            c.eq('cost base after a withdrawal', v['acb'],
                 self.base - carried)
        else:
            c.eq('no gain on money in', v['capital_gain'], self.gain)
            c.eq('cost base after money in', v['acb'], self.base + flow)
        c.eq('what came in, less what is left in the cost base, is the gain',
             self.acb + self.C + flow + v['capital_gain'], v['acb'])


def any_number_of_flows(c):
    """By the invariant of the loop: one flow among any number of others,
    and the whole at the end."""
    nper, rate = compounding(c)
    t = c.real('time', lo=0, hi=1)
    m = c.around('transactions', t, lo=0, hi=1)
    balance = c.nonneg('balance')
    acb = c.nonneg('acb') if c.flag('acb given') else None
    p = a_person(c)
    a = TaxableAccount(p, initial_year=Y, balance=balance, rate=rate,
                       nper=nper, acb=acb, inputs={'transactions': {Y: m}})
    acb = balance if acb is None else acb
    before = balance * grow(rate, nper, t) + flows_to(
        {k: m[k] for k in m if k < t}, rate, nper, t)
    phase = c.choice('phase', ['step', 'finish'])
    inv = AverageCost(c, phase, t, m, acb, before)
    c.eq('cost base of the year', a.acb, acb)
    if c.flag('look'):
        c.eq('capital gain', a.capital_gain, inv.gain)
        c.eq('half of it is taxable', a.taxable_income, inv.gain / 2)
        c.eq('taxable income of the owner', p.taxable_income,
             p.gross_income + inv.gain / 2)
    a.next_year()
    c.eq('cost base of the next year', a.acb, inv.base)
    c.eq('gain on record', a.capital_gain_history[Y], inv.gain)
    c.eq('taxable income on record', a.taxable_income_history[Y],
         inv.gain / 2)
    c.eq('cost base on record', a.acb_history[Y], acb)


@contract('P14')
def gains_of_a_year(c):
    """Cost base and gains after any flows at any number of times listed in
    any order, any cost base, growth and compounding."""
    if c.unbounded:
        return any_number_of_flows(c)
    nper, rate = compounding(c)
    m = c.time_map('transactions', times=TIMES)
    balance = c.nonneg('balance')
    acb = c.nonneg('acb') if c.flag('acb given') else None
    p = a_person(c)
    a = TaxableAccount(p, initial_year=Y, balance=balance, rate=rate,
                       nper=nper, acb=acb, inputs={'transactions': {Y: m}})
    acb = balance if acb is None else acb
    c.eq('cost base of the year', a.acb, acb)
    end, gain, closing = life(c, balance, acb, m, rate, nper)
    if c.flag('look'):
        c.eq('capital gain', a.capital_gain, gain)
        c.eq('half of it is taxable', a.taxable_income, gain / 2)
        c.eq('taxable income of the owner', p.taxable_income,
             p.gross_income + gain / 2)
    a.next_year()
    c.eq('cost base of the next year', a.acb, end)
    c.eq('what came in less what is left in the cost base is the gain',
         acb + sum(m.values()) + gain, end)
    c.eq('gain on record', a.capital_gain_history[Y], gain)
    c.eq('taxable income on record', a.taxable_income_history[Y], gain / 2)
    c.eq('cost base on record', a.acb_history[Y], acb)
    c.eq('no gain without a withdrawal', a.capital_gain, 0)
    c.eq('balance', a.balance, closing)


@contract('P14', kinds=('bounded',), max_paths=20000)
def flows_as_they_come(c):
    """Gains follow the flows as they are made, whatever was looked at
    before, over two years."""
    rate = c.real('rate', lo=-1, lo_open=True, hi=10, nice=[0, 0.1, 0.5])
    p = a_person(c)
    balance = c.pos('balance')
    acb = c.nonneg('acb')
    a = TaxableAccount(p, initial_year=Y, balance=balance, rate=rate,
                       acb=acb)
    for i in range(2):
        m = {}
        for j in range(2 - i):
            t = c.choice('time %d %d' % (i, j), [0, 0.5])
            v = c.real('flow %d %d' % (i, j))
            a.add_transaction(v, t)
            m[t] = m.get(t, 0) + v
            life(c, balance, acb, m, rate, 1)
            if c.flag('look %d %d' % (i, j)):
                a.acb, a.acb_history
                a.capital_gain_history, a.taxable_income
        c.eq('cost base', a.acb, acb)
        acb, gain, balance = life(c, balance, acb, m, rate, 1)
        c.eq('capital gain', a.capital_gain, gain)
        c.eq('taxable income', a.taxable_income, gain / 2)
        a.next_year()
        c.eq('balance', a.balance, balance)
    c.eq('cost base at the end', a.acb, acb)


@contract('P14', kinds=('bounded',))
def whole_life(c):
    """Over the life of an account that is emptied in the end the gains are
    what came out less what went in."""
    rates = {Y: c.real('rate', lo=-1, lo_open=True, hi=10, nice=[0, 0.1]),
             Y + 1: c.real('rate 1', lo=-1, lo_open=True, hi=10,
                           nice=[0, 0.5]),
             Y + 2: 0}
    p = a_person(c)
    a = TaxableAccount(p, initial_year=Y, balance=0, rate=rates)
    money_in, out = c.pos('in'), c.choice('share', [0.25, 0.5]) 
    a.add_transaction(money_in, 0)
    if c.flag('some out'):
        some = a.balance_at_time(1) * out
        a.add_transaction(-some, 1)
    else:
        some = 0
    gains = a.capital_gain
    a.next_year()
    more = c.nonneg('more') if c.flag('more in') else 0
    a.add_transaction(more, 0.5)
    gains += a.capital_gain
    a.next_year()
    left = a.balance
    a.add_transaction(-left, 0.5)
    gains += a.capital_gain
    c.eq('gains are money out less money in', gains,
         some + left - money_in - more)
    a.next_year()
    c.eq('nothing is left in the cost base', a.acb, 0)
    c.eq('nor in the account', a.balance, 0)


@contract('P14', kinds=('bounded',))
def proportion(c):
    """A withdrawal carries the part of the cost base that it is of the
    balance: none of it is a gain when the cost base is the balance, all of
    it when there is no cost base, and two halves are worth as much as the
    whole."""
    balance = c.pos('balance')
    out = balance * c.real('share', lo=0, hi=1)
    acb = c.choice('acb', [balance, 0, c.nonneg('base')])
    p = a_person(c)
    a, b = [TaxableAccount(p, initial_year=Y, balance=balance, rate=0,
                           acb=acb) for _ in range(2)]
    a.add_transaction(-out, 0.5)
    c.eq('gain', a.capital_gain * balance, out * (balance - acb))
    b.add_transaction(-out / 2, 0.25)
    c.assume(b.balance_at_time(0.25) > 0)
    b.add_transaction(-out / 2, 0.75)
    c.eq('in two halves', b.capital_gain, a.capital_gain)
    a.next_year()
    b.next_year()
    c.eq('cost base', a.acb * balance, acb * (balance - out))
    c.eq('cost base in two halves', b.acb, a.acb)
