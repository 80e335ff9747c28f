"""Schedules: timings and the time series made from them."""
from pyvc.ctx import contract
from forecaster.utility import (
    Timing, when_conv, frequency_conv, transactions_from_timing,
    add_transactions, subtract_transactions)
from contracts.common import FREQ


@contract('P03')
def regular_schedule(c):
    """A regular schedule has one time in each of n periods, at the same
    relative position, with equal weights that sum to one (any n)."""
    n = c.integer('n', lo=1, hi=400, nice=[1, 2, 3, 4, 12])
    w = c.real('when', lo=0, hi=1, nice=[0, 1, 0.5])
    t = Timing(w, n)
    for k in t:
        c.le('times are not before the start', 0, k)
        c.le('times are not after the end', k, 1)
        c.eq('weights are equal', t[k], 1 / n)
    c.eq('one time in each period', len(t), n)
    c.eq('weights sum to one', sum(t.values()), 1)


@contract('P03')
def regular_schedule_times(c):
    """The times of a regular schedule, for each frequency code."""
    w = c.real('when', lo=0, hi=1, nice=[0, 1, 0.5])
    code = c.choice('code', ['A', 'SA', 'Q', 'BM', 'M'])
    n = FREQ[code]
    t = Timing(w, code)
    for i in range(n):
        c.check('time in each period', (i + w) / n in t)
        c.eq('weight in each period', t[(i + w) / n], 1 / n)
    c.eq('no other time', len(t), n)
    d = Timing(code)
    for i in range(n):
        c.check('a bare code means the middle of each period',
                (2 * i + 1) / (2 * n) in d)
    c.eq('a bare code has no other time', len(d), n)


@contract('P03')
def named_times(c):
    """'start' and 'end' are 0 and 1; other times are kept if in the year
    and refused otherwise."""
    c.eq('start', when_conv('start'), 0)
    c.eq('end', when_conv('end'), 1)
    w = c.real('when', lo=-5, hi=5)
    if w < 0 or w > 1:
        c.raises('times outside the year are refused',
                 lambda: when_conv(w), ValueError)
        c.raises('schedules outside the year are refused',
                 lambda: Timing(w), ValueError)
    else:
        c.eq('times in the year are kept', when_conv(w), w)
        t = Timing(w)
        c.eq('a single time has all the weight', t[w], 1)
        c.eq('a single time is the only one', len(t), 1)
    c.eq('the default is mid-year', Timing()[0.5], 1)
    c.eq('start of the year', Timing('start')[0], 1)
    c.eq('end of the year', Timing('end')[1], 1)


@contract('P03')
def frequencies(c):
    """Frequencies are positive whole numbers, or codes for them."""
    n = c.integer('n', lo=-10, hi=1000)
    if n > 0:
        c.eq('whole numbers are kept', frequency_conv(n), n)
    else:
        c.raises('non-positive frequencies are refused',
                 lambda: frequency_conv(n), ValueError)
    x = c.integer('m', lo=0, hi=100)
    c.raises('fractions are refused', lambda: frequency_conv(x + 0.5),
             TypeError)
    c.raises('unknown codes are refused', lambda: frequency_conv('xyz'),
             ValueError)


def weights(c, kind='0+'):
    """A schedule with arbitrary times and weights, at least one of them
    nonzero."""
    m = c.time_map('weights', sign=kind, nonempty=True)
    total = 0
    for t in m:
        total += m[t]
    c.assume(total != 0)
    return m, total


@contract('P03')
def schedule_from_weights(c):
    """A schedule of non-negative weights is used as given, one of
    non-positive amounts is used with the signs flipped."""
    m, total = weights(c, '0+')
    t = Timing(m)
    for k in m:
        c.check('times are kept', k in t)
        c.eq('weights are kept', t[k], m[k])
    for k in t:
        c.check('no time is added', k in m)
    neg = {k: -m[k] for k in m}
    u = Timing(neg)
    for k in m:
        c.check('times of outflows are kept', k in u)
        c.eq('outflows count by their size', u[k], m[k])
    for k in u:
        c.check('no time is added to outflows', k in m)
    v = Timing(t)
    for k in m:
        c.eq('copies are equal', v[k], m[k])


@contract('P03')
def schedule_without_weights(c):
    """All-zero weights mean uniform weights; no times mean an empty
    schedule."""
    m = c.time_map('weights', sign='0+')
    zero = {k: 0 for k in m}
    t = Timing(zero)
    for k in m:
        c.check('times are kept', k in t)
        c.eq('weights are uniform', t[k], 1)
    c.eq('no other time', len(t), len(m))
    c.eq('empty schedule', len(Timing({})), 0)


@contract('P03')
def normalized_schedules(c):
    """Normalising keeps the times and the proportions and makes the
    weights sum to one."""
    m, total = weights(c)
    t = Timing(m)
    n = t.normalized()
    c.eq('weights sum to one', sum(n.values()), 1)
    for k in m:
        c.check('times are kept', k in n)
        c.eq('proportions are kept', n[k] * total, m[k])
    for k in n:
        c.check('no time is added', k in m)
    for k in m:
        c.eq('the schedule itself is unchanged', t[k], m[k])


@contract('P03')
def spreading_an_amount(c):
    """An amount is spread over a schedule without loss and in proportion
    to the weights."""
    m, total = weights(c)
    x = c.real('amount')
    s = Timing(m).time_series(x)
    c.eq('nothing is lost', sum(s.values()), x)
    for k in m:
        c.check('times are kept', k in s)
        c.eq('amounts are in proportion', s[k] * total, m[k] * x)
    for k in s:
        c.check('no time is added', k in m)
    f = transactions_from_timing(Timing(m), x)
    c.eq('nothing is lost (transactions)', sum(f.values()), x)
    for k in m:
        c.eq('transactions are in proportion', f[k] * total, m[k] * x)
    for k in f:
        c.check('no transaction is added', k in m)


@contract('P03')
def spreading_over_some_times(c):
    """An amount can be spread over some of the times only."""
    m, total = weights(c)
    x = c.real('amount')
    cut = c.real('cut', lo=0, hi=1)
    part = 0
    for k in m:
        if k > cut:
            part += m[k]
    c.assume(part > 0)
    keys = [k for k in m if k > cut]
    s = Timing(m).time_series(x, keys)
    c.eq('nothing is lost', sum(s.values()), x)
    for k in m:
        if k > cut:
            c.check('chosen times are kept', k in s)
            c.eq('amounts are in proportion', s[k] * part, m[k] * x)
        else:
            c.check('other times are left out', k not in s)
    n = Timing(m).normalized(keys)
    c.eq('weights sum to one', sum(n.values()), 1)


@contract('P03')
def combining_flows(c):
    """Adding and subtracting time series works time by time and leaves the
    second one alone."""
    a, b = c.time_maps(['first', 'second'])
    a0 = {k: a[k] for k in a}
    b0 = {k: b[k] for k in b}
    if c.flag('add'):
        sign = 1
        add_transactions(a, b)
    else:
        sign = -1
        subtract_transactions(a, b)
    for k in a0:
        c.eq('combined time by time', a[k],
             a0[k] + (sign * b0[k] if k in b0 else 0))
    for k in b0:
        c.eq('new times are included', a[k],
             sign * b0[k] + (a0[k] if k in a0 else 0))
        c.eq('the second series is unchanged', b[k], b0[k])
    for k in a:
        c.check('no other time', k in a0 or k in b0)
    for k in b:
        c.check('the second series gains no time', k in b0)


@contract('P03')
def spreading_over_a_mapping(c):
    """An amount can be spread over anything a schedule can be made from:
    weights, amounts paid, a time of the year or how often it happens."""
    m, total = weights(c)
    x = c.real('amount')
    if c.flag('paid'):
        # Amounts paid count by their size:
        f = transactions_from_timing({k: -m[k] for k in m}, x)
    else:
        f = transactions_from_timing({k: m[k] for k in m}, x)
    c.eq('nothing is lost', sum(f.values()), x)
    for k in m:
        c.check('times are kept', k in f)
        c.eq('amounts are in proportion', f[k] * total, m[k] * x)
    for k in f:
        c.check('no time is added', k in m)


@contract('P03')
def spreading_over_a_description(c):
    """An amount can be spread over a time of the year, the name of one or
    how often it happens."""
    x = c.real('amount')
    w = c.real('when', lo=0, hi=1, nice=[0, 1, 0.5])
    f = transactions_from_timing(w, x)
    c.eq('all at that time', f[w], x)
    c.eq('and at no other time', len(f), 1)
    s = transactions_from_timing('start', x)
    c.eq('all at the start', s[0], x)
    c.eq('not later than the start', len(s), 1)
    e = transactions_from_timing('end', x)
    c.eq('all at the end', e[1], x)
    c.eq('not earlier than the end', len(e), 1)
    code = c.choice('code', ['A', 'SA', 'Q', 'BM', 'M'])
    n = FREQ[code]
    p = transactions_from_timing(code, x)
    for i in range(n):
        c.eq('the same amount in each period', p[(2 * i + 1) / (2 * n)],
             x / n)
    c.eq('no other amount', len(p), n)


@contract('P03', timeout_ms=8000)
def spreading_over_flows(c):
    """An amount can be spread over flows of both signs, which stand for the
    schedule made from them."""
    a = c.real('early')
    b = c.real('late')
    x = c.real('amount')
    c.assume(c.all_of(a * b < 0, a + b != 0))
    f = transactions_from_timing({0: a, 1: b}, x)
    # What can be taken early is what the early flow brings and the late
    # flow leaves; what is missing early must be brought early, and only
    # what is missing then is brought late.
    if a + b > 0:
        early = a + b if a > 0 else 0
        late = 0 if a > 0 else a + b
    else:
        early = 0 if a > 0 else -a
        late = -(a + b) if a > 0 else 0
    c.eq('nothing is lost', sum(f.values()), x)
    for k in f:
        c.check('no time is added', k == 0 or k == 1)
        c.eq('amounts are in proportion', f[k] * (early + late),
             x * (early if k == 0 else late))
