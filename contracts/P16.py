"""Money moved in a forecast is never created or lost."""
from collections import defaultdict
from pyvc.ctx import contract
from forecaster.accounts import Account
from forecaster.forecast import (
    IncomeForecast, LivingExpensesForecast, SavingForecast, SubForecast,
    WithdrawalForecast)
from forecaster.utility import Timing
from contracts.common import Y, growth_rate
from contracts.P12 import a_person

PLACES = ['nowhere', 'pool', 'account']
TIMES = [[], [0.5], [0, 1]]


class Strategy:
    """Whatever a strategy may decide."""

    def __init__(self, decide):
        self.decide = decide

    def __call__(self, available, accounts=None, **kwargs):
        return self.decide


def place(c, name, kind, p, m, simple=True):
    """A place with flows m on it."""
    if kind == 'nowhere':
        return None
    out = defaultdict(lambda: 0)
    for t in m:
        out[t] = m[t]
    if kind == 'pool':
        return out
    return Account(p, initial_year=Y, balance=c.real(name + ' balance'),
                   rate=0 if simple else growth_rate(c, name + ' rate'),
                   inputs={'transactions': {Y: out}})


def flow(x, t):
    """What x has at time t."""
    if x is None:
        return 0
    flows = x.transactions if isinstance(x, Account) else x
    return flows[t] if t in flows else 0


def state(x):
    if x is None:
        return {}
    return dict(x.transactions if isinstance(x, Account) else x)


def times_of(*maps):
    out = []
    for m in maps:
        for t in m:
            if t not in out:
                out.append(t)
    return out


def change(x, before, t):
    return flow(x, t) - (before[t] if t in before else 0)


def books_balance(c, f, src, dst, was, value, label):
    """What left src is what arrived at dst, at each time, as recorded."""
    a, b = was
    record = f.transactions
    out = record[src] if src is not None else record[None]
    into = record[dst] if dst is not None else record[None]
    times = times_of(a, b, state(src), state(dst), out, into)
    total = 0
    for t in times:
        if src is not None and dst is not None:
            c.eq(label + ': out of one, into the other',
                 change(src, a, t), -change(dst, b, t))
        if src is not None:
            c.eq(label + ': recorded outflow', out[t] if t in out else 0,
                 change(src, a, t))
        if dst is not None:
            c.eq(label + ': recorded inflow', into[t] if t in into else 0,
                 change(dst, b, t))
            total += change(dst, b, t)
        else:
            total -= change(src, a, t)
    c.eq(label + ': the amount', total, value)
    return times


@contract('P16')
def transfer_on_time(c):
    """A transaction at a given time takes from one place what it puts into
    the other, whatever else is on either of them."""
    p = a_person(c, 'p')
    kinds = c.choice('places', [(a, b) for a in PLACES for b in PLACES
                                if (a, b) != ('nowhere', 'nowhere')])
    if c.unbounded and c.flag('among other flows'):
        # (at any time, at which there is a flow already)
        when = c.real('time', lo=0, hi=1)
        m = {k: c.around(k + ' flows', when, lo=0, hi=1)
             for k in ('from', 'to')}
    else:
        when = c.choice('when', [0, 1])
        m = {k: c.time_map(k + ' flows', ends=False)
             for k in ('from', 'to')}
    src = place(c, 'from', kinds[0], p, dict(m['from']))
    dst = place(c, 'to', kinds[1], p, dict(m['to']))
    f = SubForecast(Y)
    value = c.real('value')
    before = {}
    for x, k in ((src, 'from'), (dst, 'to')):
        before[k] = flow(x, when), c.count(state(x)), sum(state(x).values())
    f.add_transaction(value, when, src, dst, strict_timing=True)
    places = f.transactions.keys()
    for x, k, v in ((src, 'from', -value), (dst, 'to', value)):
        if x is None:
            continue
        c.check('on record once',
                len([y for y in places if y is x]) == 1)
        c.eq('at its time', flow(x, when), before[k][0] + v)
        c.eq('in total', sum(state(x).values()), before[k][2] + v)
        c.eq('recorded', f.transactions[x][when], v)
        for t in m[k]:
            c.eq('other flows', flow(x, t),
                 m[k][t] + (v if t == when else 0))
        for t in state(x):
            c.check('no other flow', t == when or t in m[k])
    f.undo_transactions()
    for x, k in ((src, 'from'), (dst, 'to')):
        if x is not None:
            c.eq('undone', flow(x, when), before[k][0])
            c.eq('undone in total', sum(state(x).values()), before[k][2])
            for t in m[k]:
                c.eq('other flows after undoing', flow(x, t), m[k][t])
    c.eq('nothing left on record', len(f.transactions), 0)


@contract('P16', kinds=('bounded',), max_paths=20000)
def transfer(c):
    """Moved when there is money, spread over the times asked for, no
    earlier than asked for; out of one place and into the other."""
    p = a_person(c, 'p')
    kinds = c.choice('places', [(a, b) for a in PLACES for b in PLACES
                                if (a, b) != ('nowhere', 'nowhere')])
    src = place(c, 'from', kinds[0], p, c.time_map('from flows', times=TIMES))
    dst = place(c, 'to', kinds[1], p, c.time_map('to flows', times=[[], [1]]))
    f = SubForecast(Y)
    value = c.real('value')
    timing = c.choice('timing', [None, 0, 'start', {0.25: 1, 0.5: 3}])
    strict = c.flag('strict')
    was = state(src), state(dst)
    f.add_transaction(value, timing, src, dst, strict_timing=strict)
    times = books_balance(c, f, src, dst, was, value, 'one transfer')
    start = {None: 0.5, 'start': 0}.get(timing, timing) \
        if not isinstance(timing, dict) else 0.25
    for t in times:
        if t < start:
            for x, b in zip((src, dst), was):
                c.eq('nothing before its time', change(x, b, t), 0)
    if strict and isinstance(timing, dict):
        for x, b, v in zip((src, dst), was, (-value, value)):
            if x is not None:
                for t in timing:
                    c.eq('share of each time', change(x, b, t),
                         v * timing[t] / 4)
    f.undo_transactions()
    f.undo_transactions()
    for x, b in zip((src, dst), was):
        for t in times:
            c.eq('undone', change(x, b, t), 0)


@contract('P16', kinds=('bounded',), max_paths=20000)
def transfer_from_a_growing_account(c):
    """The same when the money comes from an account with growth."""
    p = a_person(c, 'p')
    src = place(c, 'from', 'account', p,
                c.time_map('from flows', times=[[], [0.5]]), simple=False)
    dst = place(c, 'to', c.choice('to', PLACES), p, {})
    f = SubForecast(Y)
    value = c.real('value')
    was = state(src), state(dst)
    f.add_transaction(value, c.choice('timing', [None, 0]), src, dst)
    times = books_balance(c, f, src, dst, was, value, 'transfer')
    f.undo_transactions()
    for x, b in zip((src, dst), was):
        for t in times:
            c.eq('undone', change(x, b, t), 0)

@contract('P16', kinds=('bounded',), max_paths=20000)
def when_there_is_money(c):
    """A transaction that may be late happens as soon as the place it comes
    from has the money from then on; when asked, if it never has."""
    kind = c.choice('kind', ['pool', 'account'])
    p = a_person(c, 'p')
    src = place(c, 'from', kind, p,
                c.time_map('flows', times=[[0.5], [0, 1], [0.25, 0.75]]))
    dst = place(c, 'to', 'pool', p, {})
    when = c.choice('when', [0, 0.25, 0.6])
    value = c.pos('value')
    flows = state(src)
    start = src.balance if kind == 'account' else 0

    def has(t):
        return start + sum([flows[r] for r in flows if r <= t])
    times = sorted([t for t in flows if t > when] + [when])
    first = when
    for t in times[::-1]:
        if has(t) < value:
            break
        first = t
    else:
        first = when
    f = SubForecast(Y)
    if c.flag('the other way round'):
        f.add_transaction(-value, when, dst, src)
    else:
        f.add_transaction(value, when, src, dst)
    c.eq('all of it then', change(dst, {}, first), value)
    c.eq('taken out then', change(src, flows, first), -value)
    for t in times:
        if t != first:
            c.eq('nothing at other times', change(src, flows, t), 0)


@contract('P16', kinds=('random',), trials=400,
          note='evaluated on random flows and rates')
def when_growth_makes_money(c):
    """The same for an account with growth, between its flows too."""
    p = a_person(c, 'p')
    rate = c.pos('rate', hi=3)
    b = c.nonneg('balance')
    flows = c.time_map('flows', times=[[], [0.5], [0.25, 0.75],
                                       [0.25, 0.5, 0.75]])
    m = defaultdict(lambda: 0, flows)
    m[1] = 0
    src = Account(p, initial_year=Y, balance=b, rate=rate,
                  inputs={'transactions': {Y: m}})
    when = c.choice('when', [0, 0.3])
    if c.flag('some of what there is at last'):
        value = c.real('share', lo=0, hi=1) * src.balance_at_time(1)
        c.assume(value > 0)
    else:
        value = c.pos('value')
    times = [when] + sorted([t for t in flows if t > when]) + [1]
    # Go back from the end of the year as long as the money is there.
    # (Between its flows the balance only grows, if it is positive.)
    first, late = when, None
    for i in range(len(times) - 1, -1, -1):
        if src.balance_at_time(times[i]) >= value:
            first = times[i]
            continue
        if i + 1 < len(times) and src.balance_at_time(times[i]) > 0:
            # (there by growth alone, before the flow that follows?)
            early = src.time_to_balance(value, times[i])
            if times[i] < early < times[i + 1]:
                first = early
                if -sum(src.max_outflows(early).values()) < value:
                    late = times[i + 1]     # (by rounding)
        break
    if src.balance_at_time(1) < value:
        first = when
    f = SubForecast(Y)
    pool = defaultdict(lambda: 0)
    f.add_transaction(value, when, src, pool)
    c.eq('at one time', len(pool), 1)
    for t in pool:
        if late is None or t != late:
            c.eq('as soon as there is money', t, first)
        c.eq('all of it', pool[t], value)


@contract('P16', kinds=('bounded',), max_paths=20000)
def several_transfers(c):
    """Transactions among three places add up, and undoing them restores all
    of them, once; what past years recorded stays."""
    p = a_person(c, 'p')
    pool, other = defaultdict(lambda: 0), {}
    a = place(c, 'account', 'account', p, c.time_map('flows', times=[[], [1]]))
    places = [pool, other, a, None]
    pool[0] = c.real('pool')
    was = [state(x) for x in places]
    f = SubForecast(Y)
    n = c.size('transfers', 1, 2)
    total = [0, 0, 0, 0]
    for i in range(n):
        s, d = c.choice('from, to %d' % i, [(0, 2), (2, 0), (1, 0), (3, 2),
                                            (0, 3)])
        v, w = c.nonneg('value %d' % i), c.nonneg('value %d at the end' % i)
        f.add_transactions({0: v, 1: w}, places[s], places[d],
                           strict_timing=i == 0 and c.flag('strict'))
        v = v + w
        total[s] -= v
        total[d] += v
    for x, b, v in zip(places[:3], was, total):
        got = sum([change(x, b, t) for t in times_of(b, state(x))])
        c.eq('each place', got, v)
    c.eq('nothing is created', sum(total), 0)
    record = f.transactions
    what = {i: dict(record[x]) for i, x in enumerate(places)}
    if c.flag('next year'):
        f.next_year()
        for i, x in enumerate(places):
            got = f.transactions_history[Y][x]
            for t in times_of(what[i], got):
                c.eq('recorded for the year', got[t] if t in got else 0,
                     what[i][t] if t in what[i] else 0)
        was = [state(x) for x in places]
    f.undo_transactions()
    if c.flag('again'):
        f.undo_transactions()
    for x, b in zip(places, was):
        for t in times_of(b, state(x)):
            c.eq('restored', change(x, b, t), 0)


@contract('P16', kinds=('bounded',), max_paths=20000)
def calling_again(c):
    """A part of a forecast called again for the year first undoes what it
    did, so that only the last call counts."""
    p = a_person(c, 'p', gross=c.nonneg('income'))
    a = Account(p, initial_year=Y, balance=c.nonneg('balance'), rate=0)
    pool = defaultdict(lambda: 0)
    pool[0.25] = opening = c.real('pool')
    decide = Strategy({})
    kind = c.choice('part', ['income', 'living expenses', 'saving',
                             'withdrawal'])
    f = {'income': lambda: IncomeForecast(Y, {p}),
         'living expenses': lambda: LivingExpensesForecast(
             Y, {p}, lambda **kw: spent),
         'saving': lambda: SavingForecast(Y, {a}, set(), decide),
         'withdrawal': lambda: WithdrawalForecast(Y, {p}, {a}, decide),
         }[kind]()
    net = p.net_income

    def expected(v):
        if kind == 'income':
            return net
        if kind == 'living expenses':
            return -spent
        return -v
    for i in range(2):
        spent = c.nonneg('spent %d' % i)
        v = c.real('moved %d' % i)
        decide.decide = {a: {c.choice('when %d' % i, [0.25, 1]): v}}
        f(pool)
        got = sum(pool.values())
        c.eq('only the last call counts', got,
             opening + expected(v))
        if kind in ('saving', 'withdrawal'):
            c.eq('moved to the account', sum(a.transactions.values()), v)
    f.undo_transactions()
    for t in pool:
        c.eq('restored', pool[t], opening if t == 0.25 else 0)
    for t in a.transactions:
        c.eq('account restored', a.transactions[t], 0)
