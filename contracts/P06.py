"""Debts."""
from pyvc.ctx import contract
from forecaster.accounts import Debt
from contracts.common import Y, compounding, growth_rate, grow, flows_to
from contracts.P05 import schedule, proportional, flows_in

INF = float('inf')


def debt(c, m, rate, nper=1, **kw):
    minimum = c.nonneg('minimum_payment')
    extra = c.nonneg('accelerated_payment') if c.flag('limited') else INF
    d = Debt(None, initial_year=Y, balance=c.real('balance'), rate=rate,
             nper=nper, minimum_payment=minimum, accelerated_payment=extra,
             inputs={'transactions': {Y: m}}, **kw)
    return d, minimum, extra


@contract('P06')
def amount_owed(c):
    """A debt's balance is negative or zero however it is given, and stays
    what it was."""
    b = c.real('balance')
    d = Debt(None, initial_year=Y, balance=b, rate=growth_rate(c),
             minimum_payment=c.nonneg('minimum_payment'))
    c.le('the balance is not positive', d.balance, 0)
    c.check('the amount is kept', c.any_of(
        c.same(d.balance, b), c.same(d.balance, -b)))
    c.eq('on record', d.balance_history[Y], d.balance)


@contract('P06')
def largest_payments(c):
    """The largest payments clear the debt and no more, within the minimum
    payment plus the accelerated part, whatever was already paid."""
    rate = growth_rate(c)
    m = c.time_map('transactions', ends=False)
    w, total = schedule(c, ends=False)
    d, minimum, extra = debt(c, m, rate)
    hyp = c.flag('hypothetical')
    kw = {'transactions': {1: c.nonneg('extra')}} if hyp else {}
    limited = c.flag('with transaction limit')
    if limited:
        kw['transaction_limit'] = c.real('transaction_limit')
    r = d.max_inflows(w, **kw)
    s = proportional(c, r, w, total)
    for k in r:
        c.le('payments are not negative', 0, r[k])
    made = flows_in(m)
    before = d.balance * (1 + rate) + flows_to(m, rate, 1, 1)
    if hyp:
        made += kw['transactions'][1]
        before += kw['transactions'][1]
    closing = before + flows_to(r, rate, 1, 1)
    c.check('never overpaid', c.any_of(
        c.most(closing, 0), c.same(s, 0)))
    c.check('never above minimum plus accelerated payment', c.any_of(
        c.most(made + s, minimum + extra), c.same(s, 0)))
    ways = [c.same(closing, 0), c.same(made + s, minimum + extra),
            c.all_of(c.same(s, 0), c.most(0, closing)),
            c.all_of(c.same(s, 0), c.most(minimum + extra, made))]
    if limited:
        t = kw['transaction_limit']
        c.check("the caller's limit holds", c.any_of(
            c.most(s, t), c.same(s, 0)))
        ways += [c.same(s, t), c.all_of(c.same(s, 0), c.most(t, 0))]
    c.check('as much as allowed', c.any_of(*ways))
    c.eq('asking changes nothing', d.balance_at_time('end'),
         d.balance * (1 + rate) + flows_to(m, rate, 1, 1))


@contract('P06')
def smallest_payments(c):
    """The required payments are the rest of the minimum payment, or what
    clears the debt if that is less."""
    rate = growth_rate(c)
    m = c.time_map('transactions', ends=False)
    w, total = schedule(c, ends=False)
    d, minimum, extra = debt(c, m, rate)
    hyp = c.flag('hypothetical')
    kw = {'transactions': {1: c.nonneg('extra')}} if hyp else {}
    limited = c.flag('with transaction limit')
    if limited:
        kw['transaction_limit'] = c.real('transaction_limit')
    r = d.min_inflows(w, **kw)
    s = proportional(c, r, w, total)
    for k in r:
        c.le('payments are not negative', 0, r[k])
    made = flows_in(m)
    before = d.balance * (1 + rate) + flows_to(m, rate, 1, 1)
    if hyp:
        made += kw['transactions'][1]
        before += kw['transactions'][1]
    closing = before + flows_to(r, rate, 1, 1)
    c.check('never overpaid', c.any_of(
        c.most(closing, 0), c.same(s, 0)))
    c.check('never above the minimum payment', c.any_of(
        c.most(made + s, minimum), c.same(s, 0)))
    ways = [c.same(closing, 0), c.same(made + s, minimum),
            c.all_of(c.same(s, 0), c.most(0, closing)),
            c.all_of(c.same(s, 0), c.most(minimum, made))]
    if limited:
        t = kw['transaction_limit']
        c.check("the caller's limit holds", c.any_of(
            c.most(s, t), c.same(s, 0)))
        ways += [c.same(s, t), c.all_of(c.same(s, 0), c.most(t, 0))]
    c.check('the minimum payment or what is owed', c.any_of(*ways))
    if not limited:
        most = sum(d.max_inflows(w, **kw).values())
        c.le('required payments can be made', s, most)


@contract('P06')
def paying_off(c):
    """A debt that may be accelerated without limit is paid off exactly,
    with any payment schedule and compounding."""
    nper, rate = compounding(c)
    w, total = schedule(c)
    b = c.real('balance', hi=0)
    d = Debt(None, initial_year=Y, balance=b, rate=rate, nper=nper,
             minimum_payment=c.nonneg('minimum_payment'), default_timing=w)
    own = c.flag('own schedule')
    r = d.max_inflows() if own else d.max_inflows(w)
    proportional(c, r, w, total)
    c.eq('paid off exactly', b * grow(rate, nper, 1) +
         flows_to(r, rate, nper, 1), 0)
    for t in r:
        d.add_transaction(r[t], t)
    d.next_year()
    c.eq('nothing is owed next year', d.balance, 0)


@contract('P06')
def payment_at_one_time(c):
    """At one time, no more than the debt then, nor than the limit."""
    nper, rate = compounding(c)
    m = c.time_map('transactions', ends=False)
    d, minimum, extra = debt(c, m, rate, nper)
    t = c.real('time', lo=0, hi=1)
    b = d.balance_at_time(t)
    x = d.max_inflow(t)
    c.le('payment is not negative', 0, x)
    c.le('payment is within the limit', x, minimum + extra)
    c.check('payment is at most the debt', c.any_of(
        c.same(x, 0), c.most(b + x, 0)))
    c.check('payment is as large as allowed', c.any_of(
        c.same(b + x, 0), c.same(x, minimum + extra),
        c.all_of(c.same(x, 0), c.most(0, b))))
    c.eq('the minimum', d.min_inflow(t), minimum)
    c.eq('no withdrawal', d.max_outflow(t), 0)


@contract('P06')
def no_withdrawals(c):
    """Nothing can be withdrawn from a debt, even one that was overpaid."""
    rate = growth_rate(c)
    m = c.time_map('transactions', ends=False)
    w, total = schedule(c, ends=False)
    d, minimum, extra = debt(c, m, rate)
    kw = {}
    if c.flag('with balance limit'):
        kw['balance_limit'] = c.real('balance_limit')
    r = d.max_outflows(w, **kw)
    for k in r:
        c.eq('no withdrawal is offered', r[k], 0)
    r = d.min_outflows(w, **kw)
    for k in r:
        c.eq('no withdrawal is required', r[k], 0)


@contract('P06')
def minimum_payment_every_year(c):
    """The limits apply to each year afresh."""
    rate = growth_rate(c)
    minimum = c.nonneg('minimum_payment')
    extra = c.nonneg('accelerated_payment')
    d = Debt(None, initial_year=Y, balance=c.real('balance', hi=0),
             rate=rate, minimum_payment=minimum, accelerated_payment=extra)
    p = c.nonneg('paid')
    d.add_transaction(p, 'end')
    owed = -d.balance * (1 + rate) - p
    c.assume(owed >= 0)
    s = sum(d.max_inflows('end').values())
    c.check('first year', c.any_of(
        c.same(s, owed), c.same(s + p, minimum + extra),
        c.all_of(c.same(s, 0), c.most(minimum + extra, p))))
    d.next_year()
    c.eq('the rest is carried over', d.balance, -owed)
    owed = owed * (1 + rate)
    s = sum(d.max_inflows('end').values())
    low = sum(d.min_inflows('end').values())
    c.le('never overpaid', s, owed)
    c.check('second year', c.any_of(
        c.same(s, owed), c.same(s, minimum + extra)))
    c.le('minimum or less', low, minimum)
    c.check('minimum or all of it', c.any_of(
        c.same(low, owed), c.same(low, minimum)))
