"""Account balances carry over between years."""
from collections import defaultdict
from pyvc.ctx import contract
from forecaster.accounts import Account
from contracts.common import Y, compounding, growth_rate, grow, flows_to


def make(c, trans, rate, nper, **kw):
    return Account(
        initial_year=Y, balance=c.real('balance'), rate=rate, nper=nper,
        inputs={'transactions': {Y: trans}}, **kw)


@contract('P01')
def closing_balance_is_next_opening(c):
    """Next opening balance = closing balance = opening + flows + returns =
    opening and flows grown to year end; any transactions, any rate, any
    compounding."""
    nper, rate = compounding(c)
    m = c.time_map('transactions')
    a = make(c, m, rate, nper)
    opening = a.balance
    closing = a.balance_at_time('end')
    returns = a.returns
    flows = sum(m.values())
    expected = opening * grow(rate, nper, 1) + flows_to(m, rate, nper, 1)
    a.next_year()
    c.eq('next opening balance is the closing balance', a.balance, closing)
    c.eq('next opening balance is opening + flows + returns',
         a.balance, opening + flows + returns)
    c.eq('next opening balance is everything grown to year end',
         a.balance, expected)


@contract('P01')
def continuity_with_changing_rates(c):
    """As above when every year has its own rate, over two years, with the
    rate given as a dict or as a function."""
    rates = {Y + i: growth_rate(c, 'rate%d' % i) for i in range(3)}
    m = c.time_map('transactions')
    v = c.real('second')
    spec = rates if c.flag('dict') else (lambda year: rates[year])
    a = make(c, m, spec, 1)
    b0 = a.balance
    closing = a.balance_at_time('end')
    c.eq('closing balance', closing,
         b0 * (1 + rates[Y]) + flows_to(m, rates[Y], 1, 1))
    c.eq('returns', a.returns, closing - b0 - sum(m.values()))
    a.next_year()
    c.eq('next opening balance is the closing balance', a.balance, closing)
    b1 = a.balance
    a.add_transaction(v, 'start')
    c.eq('second closing balance', a.balance_at_time('end'),
         (b1 + v) * (1 + rates[Y + 1]))
    a.next_year()
    c.eq('third opening balance', a.balance, (b1 + v) * (1 + rates[Y + 1]))
    c.eq('first year is still on record', a.balance_history[Y], b0)
    c.eq('second year is still on record', a.balance_history[Y + 1], b1)


@contract('P01')
def balance_within_the_year(c):
    """At any time the balance is the opening balance plus every flow made
    so far, each grown to that time."""
    nper, rate = compounding(c)
    m = c.time_map('transactions')
    t = c.real('time', lo=0, hi=1)
    a = make(c, m, rate, nper)
    c.eq('balance at any time', a.balance_at_time(t),
         a.balance * grow(rate, nper, t) + flows_to(m, rate, nper, t))


@contract('P01')
def balance_between_two_times(c):
    """A later balance is the earlier one grown, plus the flows since."""
    nper, rate = compounding(c)
    m = c.time_map('transactions')
    t = c.real('t', lo=0, hi=1)
    u = c.real('u', lo=0, hi=1)
    c.assume(t <= u)
    a = make(c, m, rate, nper)
    since = 0
    for k in m:
        if k > t and k <= u:
            since += m[k] * grow(rate, nper, u - k)
    c.eq('balance between two times', a.balance_at_time(u),
         a.balance_at_time(t) * grow(rate, nper, u - t) + since)


@contract('P01')
def hypothetical_flows_are_like_recorded_ones(c):
    """Flows passed as an argument count exactly as if recorded, and nothing
    is recorded or changed by asking."""
    nper, rate = compounding(c)
    m, h = c.time_maps(['transactions', 'extra'])
    t = c.real('time', lo=0, hi=1)
    a = make(c, m, rate, nper)
    before = a.balance_at_time(t)
    got = a.balance_at_time(t, transactions=h)
    c.eq('hypothetical flows count', got,
         before + flows_to(h, rate, nper, t))
    c.eq('asking changes nothing', a.balance_at_time(t), before)


@contract('P01')
def inflows_and_outflows(c):
    """Inflows are the positive flows and outflows the negative ones, with
    or without hypothetical flows."""
    m, h = c.time_maps(['transactions', 'extra'], ends=False)
    a = make(c, m, 0, 1)
    total = 0
    for k in h:
        total += h[k]
    c.eq('flows in plus flows out is the net flow',
         a.inflows(h) + a.outflows(h), total + sum(m.values()))
    c.le('inflows are not negative', 0, a.inflows(h))
    c.le('outflows are not positive', a.outflows(h), 0)
    ins = sum(m[k] for k in m if m[k] > 0)
    outs = sum(m[k] for k in m if m[k] < 0)
    c.eq('inflows are the positive flows', a.inflows(), ins)
    c.eq('outflows are the negative flows', a.outflows(), outs)


@contract('P01')
def adding_transactions(c):
    """Transactions at one time add up; others are left alone; each one
    moves the closing balance by its grown value."""
    nper, rate = compounding(c)
    h, m = c.time_maps(['added', 'recorded'])
    a = Account(initial_year=Y, balance=c.real('balance'), rate=rate,
                nper=nper)
    for t in m:
        a.add_transaction(m[t], t)
    for t in h:
        a.add_transaction(h[t], t)
    got = a.transactions
    for t in h:
        c.eq('transactions at one time add up', got[t],
             h[t] + (m[t] if t in m else 0))
    for t in m:
        c.eq('other transactions are untouched', got[t],
             m[t] + (h[t] if t in h else 0))
    for t in got:
        c.check('no other transaction appears', t in m or t in h)
    c.eq('closing balance', a.balance_at_time('end'),
         a.balance * grow(rate, nper, 1) + flows_to(m, rate, nper, 1)
         + flows_to(h, rate, nper, 1))
    closing = a.balance_at_time('end')
    a.next_year()
    c.eq('next opening balance', a.balance, closing)
    n = 0
    for t in a.transactions:
        n += 1
    c.eq('the new year starts without transactions', n, 0)


@contract('P01')
def taxable_returns(c):
    """Ordinary accounts report their gains, never their losses, as
    taxable income."""
    nper, rate = compounding(c)
    m = c.time_map('transactions')
    a = make(c, m, rate, nper)
    r = a.returns
    ti = a.taxable_income
    c.le('taxable income is not negative', 0, ti)
    c.le('gains are taxable', r, ti)
    c.check('taxable income is the gain or nothing',
            c.any_of(ti == r, ti == 0))
    a.next_year()
    c.eq('returns are on record', a.returns_history[Y], r)
    c.eq('taxable income is on record', a.taxable_income_history[Y], ti)


@contract('P01')
def years_without_flows(c):
    """Balances over three years in which there may be no flows, whether or
    not balances are looked at in between."""
    rate = growth_rate(c)
    opening = c.real('balance')
    flows = [c.real('flow %d' % i) if c.flag('flow in year %d' % i) else None
             for i in range(3)]
    a = Account(initial_year=Y, balance=opening, rate=rate)
    look = c.flag('look')
    for flow in flows:
        if look:
            c.eq('balance during the year', a.balance, a.balance)
        if flow is not None:
            a.add_transaction(flow, 'start')
        a.next_year()
    want = opening
    for i in range(3):
        c.eq('balance on record', a.balance_history[Y + i], want)
        if flows[i] is not None:
            want += flows[i]
        want = want * (1 + rate)
    c.eq('balance at last', a.balance, want)


@contract('P01')
def flows_as_a_mapping(c):
    """An account is a mapping of its flows of the year, by any spelling of
    the times: reading changes nothing, setting replaces, deleting and
    clearing remove, and what counts is what is left."""
    nper, rate = compounding(c)
    m, h = c.time_maps(['transactions', 'set'])
    mine = defaultdict(lambda: 0)
    for t in m:
        mine[t] = m[t]
    given = c.flag('given as inputs')
    a = make(c, mine if given else {}, rate, nper) if given else Account(
        initial_year=Y, balance=c.real('balance'), rate=rate, nper=nper)
    if not given:
        for t in m:
            a.add_transaction(m[t], t)
    absent = c.real('absent')
    change = c.choice('change', ['none', 'set', 'delete', 'clear'])
    if change == 'set':
        for t in h:
            a[t] = h[t]
    elif change == 'delete':
        for t in m:
            if t in h:
                del a[t]
    elif change == 'clear':
        a.clear()
    left = {'none': m, 'set': {**m, **h}, 'clear': {},
            'delete': {t: m[t] for t in m if t not in h}}[change]
    c.eq('number of flows', len(a), c.count(left))
    for t in left:
        c.check('flow is there', t in a)
        c.eq('flow as an item', a[t], left[t])
        c.eq('flow that is there', a.get(t, absent), left[t])
    for t in a.keys():
        c.check('no other flow', t in left)
    for t, v in a.items():
        c.eq('flow among the items', v, left[t])
    c.eq('values', sum(a.values()), sum(left.values()))
    c.eq('going over the account goes over its times',
         sum(left[t] for t in a), sum(left.values()))
    if 1 in left:
        c.eq('flow at the end', a.get('end', absent), left[1])
        c.eq('flow at the end', a['end'], left[1])
    else:
        c.eq('no flow at the end', a.get('end', absent), absent)
        c.check('no flow at the end', 'end' not in a)
    b = a.balance
    c.eq('closing balance', a.balance_at_time('end'),
         b * grow(rate, nper, 1) + flows_to(left, rate, nper, 1))


@contract('P01')
def flows_set_by_name(c):
    """Flows set by the name of a time replace those at that time."""
    v, w, x = c.real('first'), c.real('second'), c.real('third')
    a = Account(initial_year=Y, balance=c.real('balance'), rate=0)
    name, t = c.choice('time', [('start', 0), ('end', 1), (0, 'start'),
                                (1, 'end')])
    a.add_transaction(v, name)
    a[t] = w
    c.eq('replaced', a[name], w)
    a[name] = x
    c.eq('replaced again', a[t], x)
    c.eq('one flow', len(a), 1)
    c.eq('closing balance', a.balance_at_time(1), a.balance + x)
    del a[name]
    c.eq('no flow', len(a), 0)
    c.eq('nothing there', a.get(t), None)
    c.eq('balance without it', a.balance_at_time(1), a.balance)
