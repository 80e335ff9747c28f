"""Suggested inflows and outflows of an account."""
from pyvc.ctx import contract
from forecaster.accounts import Account, Debt, LinkedLimitAccount
from forecaster.canada.accounts import (
    PrincipleResidence, RRSP, TaxableAccount, TFSA)
from forecaster.person import Person
from forecaster.utility import Timing
from contracts.common import Y, compounding, growth_rate, grow, flows_to

INF = float('inf')


class Limited(Account):
    """An account with limits (the documented way to have them: override
    the properties in a subclass)."""
    limits = {}

    @property
    def max_inflow_limit(self):
        return self.limits['max_inflow']

    @property
    def min_inflow_limit(self):
        return self.limits['min_inflow']

    @property
    def max_outflow_limit(self):
        return self.limits['max_outflow']

    @property
    def min_outflow_limit(self):
        return self.limits['min_outflow']


def account(c, m, limits=None, rate=None, nper=1):
    kind = Limited if limits is not None else Account
    a = kind(initial_year=Y, balance=c.real('balance'),
             rate=growth_rate(c) if rate is None else rate, nper=nper,
             inputs={'transactions': {Y: m}})
    if limits is not None:
        a.limits = limits
    return a


def schedule(c, ends=True):
    """A requested schedule and its total weight."""
    w = c.time_map('weights', sign='0+', ends=ends)
    total = sum(w.values())
    c.assume(total > 0)
    return w, total


def proportional(c, r, w, total):
    """r is spread over w in proportion to its weights; returns the total."""
    s = sum(r.values())
    for k in w:
        if w[k] != 0:
            c.check('every requested time is used', k in r)
            c.eq('amounts are in proportion to the weights',
                 r[k] * total, s * w[k])
    for k in r:
        c.check('only requested times are used', k in w)
    return s


@contract('P05')
def reaching_a_balance(c):
    """The suggested flows, made on schedule, give exactly the requested
    closing balance; any existing and hypothetical flows, any schedule, any
    compounding."""
    nper, rate = compounding(c)
    m, h = c.time_maps(['transactions', 'extra'], ends=False)
    w, total = schedule(c)
    a = account(c, m, rate=rate, nper=nper)
    target = c.real('target')
    hyp = c.flag('hypothetical')
    r = a.transactions_to_balance(target, Timing(w) if c.flag('timing')
                                  else w, transactions=h if hyp else None)
    proportional(c, r, w, total)
    closing = a.balance * grow(rate, nper, 1) + flows_to(m, rate, nper, 1)
    if hyp:
        closing += flows_to(h, rate, nper, 1)
    c.eq('the requested balance is reached',
         closing + flows_to(r, rate, nper, 1), target)
    c.eq('suggesting changes nothing', a.balance_at_time('end'),
         a.balance * grow(rate, nper, 1) + flows_to(m, rate, nper, 1))
    for k in m:
        c.eq('existing flows are unchanged', a.transactions[k], m[k])


@contract('P05')
def reaching_a_balance_within_totals(c):
    """With bounds on the total, the closing balance is as close to the
    requested one as they allow."""
    rate = growth_rate(c)
    m = c.time_map('transactions', ends=False)
    w, total = schedule(c)
    a = account(c, m, rate=rate)
    target = c.real('target')
    hi = c.real('max_total') if c.flag('max') else None
    lo = c.real('min_total') if c.flag('min') else None
    if hi is not None and lo is not None:
        c.assume(lo <= hi)
    r = a.transactions_to_balance(target, w, max_total=hi, min_total=lo)
    s = proportional(c, r, w, total)
    closing = a.balance_at_time('end') + flows_to(r, rate, 1, 1)
    ways = [c.same(closing, target)]
    if hi is not None:
        c.le('total is at most the maximum', s, hi)
        ways.append(c.all_of(c.same(s, hi), c.most(closing, target)))
    if lo is not None:
        c.le('total is at least the minimum', lo, s)
        ways.append(c.all_of(c.same(s, lo), c.most(target, closing)))
    c.check('as close to the requested balance as allowed', c.any_of(*ways))


@contract('P05')
def default_schedule(c):
    """Without a schedule the account's own default schedule is used."""
    m = c.time_map('transactions', ends=False)
    w, total = schedule(c)
    rate = growth_rate(c)
    a = Account(initial_year=Y, balance=c.real('balance'), rate=rate,
                default_timing=w, inputs={'transactions': {Y: m}})
    target = c.real('target')
    empty = c.choice('timing', [None, {}])
    r = a.transactions_to_balance(target, empty)
    proportional(c, r, w, total)
    c.eq('the requested balance is reached',
         a.balance_at_time('end') + flows_to(r, rate, 1, 1), target)


def flows_in(m):
    return sum(v for v in m.values() if v > 0)


def flows_out(m):
    return sum(v for v in m.values() if v < 0)


def options(c, sign):
    """The optional arguments of a suggestion."""
    kw = {}
    if c.flag('with transaction limit'):
        kw['transaction_limit'] = c.real('transaction_limit')
    if c.flag('with balance limit'):
        kw['balance_limit'] = c.real('balance_limit')
    return kw


def limits_of(c):
    """max_outflow <= min_outflow <= 0 <= min_inflow <= max_inflow"""
    lim = {'min_inflow': c.nonneg('min_inflow'),
           'min_outflow': c.real('min_outflow', hi=0)}
    lim['max_inflow'] = lim['min_inflow'] + c.nonneg('more_inflow')
    lim['max_outflow'] = lim['min_outflow'] - c.nonneg('more_outflow')
    return lim


def inflow_suggestion(c, kind):
    rate = growth_rate(c)
    m = c.time_map('transactions', ends=False)
    w, total = schedule(c, ends=False)
    lim = limits_of(c)
    a = account(c, m, lim, rate=rate)
    kw = options(c, '+')
    r = getattr(a, kind + 's')(w, **kw)
    s = proportional(c, r, w, total)
    for k in r:
        c.le('inflows are not negative', 0, r[k])
    made = flows_in(m)
    limit = lim[kind]
    closing = a.balance_at_time('end') + flows_to(r, rate, 1, 1)
    c.check('the limit on inflows holds unless already exceeded',
            c.any_of(c.most(made + s, limit), c.same(s, 0)))
    ways = [c.same(made + s, limit), c.all_of(c.same(s, 0), c.most(limit, made))]
    if 'transaction_limit' in kw:
        t = kw['transaction_limit']
        c.check("the caller's limit holds", c.any_of(c.most(s, t), c.same(s, 0)))
        ways += [c.same(s, t), c.all_of(c.same(s, 0), c.most(t, 0))]
    if 'balance_limit' in kw:
        b = kw['balance_limit']
        c.check('the balance limit holds',
                c.any_of(c.most(closing, b), c.same(s, 0)))
        ways += [c.same(closing, b), c.all_of(c.same(s, 0), c.most(b, closing))]
    c.check('as much as the limits allow', c.any_of(*ways))
    c.eq('suggesting changes nothing', a.balance_at_time('end'),
         closing - flows_to(r, rate, 1, 1))
    for k in m:
        c.eq('existing flows are unchanged', a.transactions[k], m[k])


def outflow_suggestion(c, kind):
    rate = growth_rate(c)
    m = c.time_map('transactions', ends=False)
    w, total = schedule(c, ends=False)
    lim = limits_of(c)
    a = account(c, m, lim, rate=rate)
    kw = options(c, '-')
    r = getattr(a, kind + 's')(w, **kw)
    s = proportional(c, r, w, total)
    for k in r:
        c.le('outflows are not positive', r[k], 0)
    made = flows_out(m)
    limit = lim[kind]
    b = kw.get('balance_limit', 0)
    closing = a.balance_at_time('end') + flows_to(r, rate, 1, 1)
    c.check('the limit on outflows holds unless already exceeded',
            c.any_of(c.most(limit, made + s), c.same(s, 0)))
    c.check('the balance limit holds', c.any_of(c.most(b, closing), c.same(s, 0)))
    ways = [c.same(made + s, limit), c.all_of(c.same(s, 0), c.most(made, limit)),
            c.same(closing, b), c.all_of(c.same(s, 0), c.most(closing, b))]
    if 'transaction_limit' in kw:
        t = kw['transaction_limit']
        c.check("the caller's limit holds", c.any_of(c.most(t, s), c.same(s, 0)))
        ways += [c.same(s, t), c.all_of(c.same(s, 0), c.most(0, t))]
    c.check('as much as the limits allow', c.any_of(*ways))
    c.eq('suggesting changes nothing', a.balance_at_time('end'),
         closing - flows_to(r, rate, 1, 1))


@contract('P05')
def largest_inflows(c):
    """The largest inflows that limits allow."""
    inflow_suggestion(c, 'max_inflow')


@contract('P05')
def smallest_inflows(c):
    """The smallest inflows that limits require."""
    inflow_suggestion(c, 'min_inflow')


@contract('P05')
def largest_outflows(c):
    """The largest outflows that limits and the balance allow."""
    outflow_suggestion(c, 'max_outflow')


@contract('P05')
def smallest_outflows(c):
    """The smallest outflows that limits require."""
    outflow_suggestion(c, 'min_outflow')


@contract('P05')
def hypothetical_flows_count(c):
    """Hypothetical flows use up limits like flows already made."""
    rate = growth_rate(c)
    m, h = c.time_maps(['transactions', 'extra'], ends=False)
    lim = limits_of(c)
    a = account(c, m, lim, rate=rate)
    kind = c.choice('kind', ['max_inflow', 'min_inflow', 'max_outflow',
                             'min_outflow'])
    r = getattr(a, kind + 's')({1: 1}, transactions=h)
    s = r[1]
    c.eq('only requested times are used', len(r), 1)
    closing = a.balance * (1 + rate) + flows_to(m, rate, 1, 1) + \
        flows_to(h, rate, 1, 1) + s
    limit = lim[kind]
    if kind in ('max_inflow', 'min_inflow'):
        made = flows_in(m) + flows_in(h)
        c.le('inflows are not negative', 0, s)
        c.check('limit after all flows', c.any_of(
            c.same(made + s, limit), c.all_of(c.same(s, 0), c.most(limit, made))))
    else:
        made = flows_out(m) + flows_out(h)
        c.le('outflows are not positive', s, 0)
        c.check('never below the limits', c.any_of(
            c.same(s, 0), c.all_of(c.most(limit, made + s), c.most(0, closing))))
        c.check('limit after all flows', c.any_of(
            c.same(made + s, limit), c.all_of(c.same(s, 0), c.most(made, limit)),
            c.same(closing, 0), c.all_of(c.same(s, 0), c.most(closing, 0))))
    for k in h:
        c.eq('hypothetical flows are unchanged', h[k], h[k])
    for k in m:
        c.eq('existing flows are unchanged', a.transactions[k], m[k])
    for k in a.transactions:
        c.check('no flow is recorded', k in m)


@contract('P05')
def unlimited_accounts(c):
    """An ordinary account has no limit on inflows, requires none, and can
    be emptied but not overdrawn."""
    rate = growth_rate(c)
    m = c.time_map('transactions', ends=False)
    w, total = schedule(c, ends=False)
    a = account(c, m, rate=rate)
    r = a.max_inflows(w)
    for k in w:
        if w[k] > 0:
            c.check('inflows are unlimited', r[k] == INF)
    for v in a.min_inflows(w).values():
        c.eq('no inflow is required', v, 0)
    for v in a.min_outflows(w).values():
        c.eq('no outflow is required', v, 0)
    out = a.max_outflows(w)
    s = proportional(c, out, w, total)
    c.le('outflows are not positive', s, 0)
    closing = a.balance_at_time('end') + flows_to(out, rate, 1, 1)
    c.check('the account can be emptied', c.any_of(
        c.same(closing, 0), c.all_of(c.same(s, 0), c.most(closing, 0))))


@contract('P05')
def at_one_time(c):
    """Limits at one time: inflow and outflow limits of the account, and no
    more than the balance then."""
    nper, rate = compounding(c)
    m = c.time_map('transactions', ends=False)
    lim = limits_of(c)
    a = account(c, m, lim, rate=rate, nper=nper)
    t = c.real('time', lo=0, hi=1)
    b = a.balance_at_time(t)
    c.eq('largest inflow', a.max_inflow(t), lim['max_inflow'])
    c.eq('smallest inflow', a.min_inflow(t), lim['min_inflow'])
    c.eq('smallest outflow', a.min_outflow(t), lim['min_outflow'])
    x = a.max_outflow(t)
    c.le('outflow is not positive', x, 0)
    c.le('outflow is within its limit', lim['max_outflow'], x)
    c.check('outflow is at most the balance', c.any_of(c.same(x, 0), c.most(0, b + x)))
    c.check('outflow is as large as allowed', c.any_of(
        c.same(b + x, 0), c.same(x, lim['max_outflow']),
        c.all_of(c.same(x, 0), c.most(b, 0))))


def of_kind(c, kind, **kw):
    """An account of that kind (with the least it needs)."""
    p = Person(Y, 'P', '1 January 1990', retirement_date='1 January 2055')
    if kind is Debt:
        kw['minimum_payment'] = 5
    if kind in (TFSA, RRSP):
        kw.update(contribution_room=c.nonneg('room'),
                  inflation_adjust=lambda val, this=None, base=None: val)
    return kind(p, balance=c.real('balance'), rate=growth_rate(c), **kw)


KINDS = [Account, Debt, LinkedLimitAccount, PrincipleResidence,
         TaxableAccount, TFSA, RRSP]


@contract('P05', kinds=('bounded',))
def default_schedule_of_any_account(c):
    """The default schedule of any kind of account is the one it is given,
    at first or later; without one, the middle of the year."""
    kind = c.choice('kind', KINDS)
    given = c.choice('schedule', ['weights', 'timing', 'M', 'end', 0.25])
    want = {'M': {(2 * i + 1) / 24: 1 for i in range(12)},
            'end': {1: 1}, 0.25: {0.25: 1}}.get(given)
    if want is None:
        want = {0: c.pos('w0'), 0.75: c.pos('w1')}
        given = Timing(want) if given == 'timing' else dict(want)
    how = c.choice('given', ['at first', 'later', 'instead', 'taken back',
                             'never'])
    if how == 'at first':
        a = of_kind(c, kind, default_timing=given)
    elif how == 'instead':
        a = of_kind(c, kind, default_timing='start')
        a.default_timing = given
    else:
        a = of_kind(c, kind)
        if how != 'never':
            a.default_timing = given
        if how == 'taken back':
            del a.default_timing
    if how in ('never', 'taken back'):
        want = {0.5: 1}
    target = c.real('target')
    r = a.transactions_to_balance(target)
    c.eq('every time is used', len(r), len(want))
    proportional(c, r, want, sum(want.values()))
    c.eq('the requested balance is reached',
         a.balance_at_time('end') + flows_to(r, a.rate, 1, 1), target)


@contract('P05')
def schedules_without_weight(c):
    """A schedule whose weights come to nothing spreads equally over its
    times."""
    w = c.time_map('weights', ends=False)
    c.assume(sum(w.values()) == 0)
    c.assume(len(w) > 0)
    m = c.time_map('transactions', ends=False)
    rate = growth_rate(c)
    a = account(c, m, rate=rate)
    timing = Timing({k: 1 for k in w})
    for k in w:         # (a `Timing` is taken as it is)
        timing[k] = w[k]
    target = c.real('target')
    r = a.transactions_to_balance(target, timing)
    proportional(c, r, {k: 1 for k in w}, len(w))
    c.eq('the requested balance is reached',
         a.balance_at_time('end') + flows_to(r, rate, 1, 1), target)
