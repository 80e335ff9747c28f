"""Compound growth."""
from pyvc.ctx import contract
from pyvc.invariant import Induction
from forecaster.accounts import Account
from forecaster.accounts.util import (
    accumulation_function, accumulation_function_inverse, value_at_time,
    time_to_value)
from forecaster.utility import frequency_conv
from contracts.common import (
    Y, FREQ, compounding, growth_rate, grow)


def conv(nper):
    return None if nper == 'C' else nper


@contract('P02')
def growth_factor(c):
    """The growth factor is the textbook one, 1 over no time, multiplies
    over successive periods and is undone by going back."""
    nper, r = compounding(c)
    n = conv(nper)
    s = c.real('s', lo=-3, hi=3)
    t = c.real('t', lo=-3, hi=3)
    f = accumulation_function
    c.eq('formula', f(t, r, n), grow(r, nper, t))
    c.eq('no time, no growth', f(0, r, n), 1)
    c.eq('periods multiply', f(s + t, r, n), f(s, r, n) * f(t, r, n))
    c.eq('backwards undoes forwards', f(t, r, n) * f(-t, r, n), 1)
    c.check('growth factors are positive', f(t, r, n) > 0)


@contract('P02')
def growth_direction(c):
    """Positive rates grow, negative rates shrink, and zero does nothing."""
    nper, r = compounding(c)
    n = conv(nper)
    t = c.real('t', lo=0, hi=3)
    a = accumulation_function(t, r, n)
    if r > 0:
        c.le('positive rates grow', 1, a)
    elif r < 0:
        c.le('negative rates shrink', a, 1)
    else:
        c.eq('zero rate does nothing', a, 1)


@contract('P02')
def annual_rate_over_a_year(c):
    """Annual compounding over one year adds exactly the rate."""
    r = growth_rate(c)
    c.eq('one year', accumulation_function(1, r, 1), 1 + r)
    c.eq('one year by default', accumulation_function(1, r), 1 + r)


@contract('P02')
def moving_values_in_time(c):
    """Valuing money at another time is linear, and there and back again is
    the identity."""
    nper, r = compounding(c)
    n = conv(nper)
    v = c.real('value')
    w = c.real('value2')
    t = c.real('t', lo=0, hi=1)
    u = c.real('u', lo=0, hi=1)
    a = value_at_time(v, r, t, u, n)
    c.eq('formula', a, v * grow(r, nper, u - t))
    c.eq('round trip', value_at_time(a, r, u, t, n), v)
    c.eq('linear', value_at_time(v + 3 * w, r, t, u, n),
         a + 3 * value_at_time(w, r, t, u, n))
    c.eq('from start to end', value_at_time(v, r, 'start', 'end', n),
         v * grow(r, nper, 1))


@contract('P02')
def time_to_grow(c):
    """The time needed to reach a value really reaches it."""
    nper, r = compounding(c)
    n = conv(nper)
    x = c.pos('accum', nice=[1, 2, 0.5, 1.1])
    c.assume(r != 0)
    t = accumulation_function_inverse(x, r, n)
    c.eq('the inverse inverts', accumulation_function(t, r, n), x)
    v = c.real('value', lo=1, hi=10000)
    c.eq('time to value reaches it',
         v * accumulation_function(time_to_value(r, v, v * x, n), r, n),
         v * x)


@contract('P02')
def growth_then_time(c):
    """Growing for a time t takes time t."""
    nper, r = compounding(c)
    n = conv(nper)
    t = c.real('t', lo=-3, hi=3)
    c.assume(c.any_of(r > 0.001, r < -0.001))
    c.assume(r > -0.9)
    c.eq('time of growth', accumulation_function_inverse(
        accumulation_function(t, r, n), r, n), t)


@contract('P02')
def no_growth_never_arrives(c):
    """At a zero rate a different value is never reached."""
    nper = c.choice('nper', [1, 12, None])
    x = c.pos('accum')
    t = accumulation_function_inverse(x, 0, nper)
    inf = float('inf')
    if x == 1:
        c.check('already there', t == 0)
    elif x > 1:
        c.check('never', t == inf)
    else:
        c.check('never was', t == -inf)
    y = c.real('negative', hi=0, hi_open=True)
    c.raises('negative factors are refused',
             lambda: accumulation_function_inverse(y, 0.05, nper),
             ValueError)


@contract('P02')
def no_growth_across_zero(c):
    """Growth takes no value to zero or across it: the time is infinite,
    unless it is there already."""
    nper, r = compounding(c)
    n = conv(nper)
    v = c.real('value')
    w = c.choice('other', [-1, 0, 1]) * c.pos('size of the other')
    c.assume(v * w <= 0)
    t = time_to_value(r, v, w, n)
    if v == w:
        c.eq('already there', t, 0)
    else:
        c.check('never', t == float('inf'))


@contract('P02')
def frequency_codes(c):
    """Each frequency code compounds the number of times it stands for."""
    code = c.choice('code', sorted(FREQ))
    r = growth_rate(c)
    b = c.real('balance')
    c.eq('periods of a code', frequency_conv(code), FREQ[code])
    a = Account(initial_year=Y, balance=b, rate=r, nper=code)
    d = Account(initial_year=Y, balance=b, rate=r, nper=FREQ[code])
    c.eq('a code is its number of periods', a.balance_at_time('end'),
         d.balance_at_time('end'))
    c.eq('compounded that often', a.balance_at_time('end'),
         b * (1 + r / FREQ[code]) ** FREQ[code])
    c.check('continuous compounding has no period',
            frequency_conv('C') is None)


@contract('P02')
def time_to_reach_a_balance(c):
    """Without further transactions, the balance at the time found is the
    balance asked for."""
    nper, r = compounding(c)
    c.assume(r != 0)
    b = c.pos('balance')
    x = c.pos('factor', nice=[1.01, 1.001, 0.99])
    a = Account(initial_year=Y, balance=b, rate=r, nper=nper)
    t = a.time_to_balance(b * x)
    c.eq('the balance is reached then', b * grow(r, nper, t), b * x)


@contract('P02')
def time_to_reach_a_balance_with_flows(c):
    """With flows (any number of them) the time found is when the balance
    reaches what is asked for after the last flow until then: by induction
    on the flows to come."""
    nper, r = compounding(c)
    c.assume(r > 0)
    b, value = c.real('balance'), c.pos('value')
    if c.unbounded:
        n = c.real('next', lo=0, hi=1)
        flows = c.around('flows', n, lo=0, hi=1)
        when = c.real('when', lo=0, hi=1)
        for k in flows:
            c.assume(k >= n or k <= when)
        c.assume(when < n)
    else:
        flows = c.time_map('flows', times=[[], [0.5], [0.25, 0.75]])
        when = c.choice('when', [0, 0.25, 0.5, 0.6])
        n = min([t for t in flows if t > when], default=None)
    a = Account(initial_year=Y, balance=b, rate=r, nper=nper,
                inputs={'transactions': {Y: flows}})
    now = a.balance_at_time(when)
    c.assume(now <= value)
    # (when it would be reached without more flows)
    alone = when + time_to_value(r, now, value, conv(nper))
    later = []
    if c.unbounded:
        def smaller(value, when):
            c.check('on to the next flow', when == n)

        def spec(value, when):
            later.append((value, when))
            return c.real('time after the next flow')
        Induction(c, a, 'time_to_balance', smaller, spec)
        t = a.time_to_balance(value, when)
    else:
        t = a.time_to_balance(value, when)
        if n is not None and n < alone:
            later.append((value, n))
    if later:
        c.le('not reached before the next flow', n, alone)
        c.eq('looking for the same balance', later[0][0], value)
        if not c.unbounded:
            that = a.time_to_balance(value, n)
        else:
            that = c.real('time after the next flow')
        c.eq('found from there on', t, max(that, n))
    else:
        c.le('not before', when, t)
        if n is not None:
            c.le('reached before the next flow', t, n)
        if now <= 0:
            c.check('never reached without more flows', t == float('inf'))
            return
        c.eq('the balance is reached then', now * grow(r, nper, t - when),
             value)
