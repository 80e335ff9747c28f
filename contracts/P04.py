"""Schedules made from mixed cash flows."""
from pyvc.ctx import contract
from pyvc.invariant import Invariant
from forecaster.utility import Timing


def cumulate(flows, times):
    out, total = [], 0
    for t in times:
        total += flows[t] if t in flows else 0
        out.append(total)
    return out


def some_of(c, d, m, skip=None):
    """Give d arbitrary positive values at any of the keys of m."""
    for k in m:
        if k is not skip and c.like(k, 'recorded') > 0:
            d[k] = c.like(k, 'weight', pos=True)


class Contributions(Invariant):
    """_accum_outflows: at each time, with C what came in so far and P what
    was put in for it, the running total C + P is not negative, and P is the
    least that it can be, the largest shortfall so far."""

    def over(self, v):
        return v['when']

    def entry(self, v):
        self.c.eq('nothing is put in before the first flow', v['accum'], 0)
        self.c.eq('no schedule yet', self.c.count(v['result']), 0)

    def fresh(self, v):
        c, when, result = self.c, v['when'], v['result']
        some_of(c, result, when, skip=self.element)
        self.C = c.real('flows so far')
        self.P = c.nonneg('put in so far')
        c.assume(self.C + self.P >= 0)
        if self.phase == 'finish':
            c.assume(self.C == sum(when.values()))
            c.assume(self.P == sum(result.values()))
        self.before = dict(result)
        return {'accum': self.C + self.P}

    def step(self, v):
        c, t, result = self.c, self.element, v['result']
        put = result.pop(t, 0)
        C, P = self.C + v['when'][t], self.P + put
        c.le('weights are not negative', 0, put)
        c.le('running total is never negative', 0, C + P)
        c.eq('as little and as late as possible', P,
             -C if -C > self.P else self.P)
        c.eq('the state describes the running total', v['accum'], C + P)
        c.check('other weights stay as they were', result == self.before)


def any_number_of_contributions(c):
    """Flows at any number of times, by the invariant of the loop: of one
    time among any number of others, and of the whole at the end."""
    t = c.real('time', lo=0, hi=1)
    m = c.around('flows', t, lo=0, hi=1)
    phase = c.choice('phase', ['step', 'finish'])
    Contributions(c, '_accum_outflows', 0, phase, t)
    total = sum(m.values())
    c.assume(total < 0)
    before = dict(m)
    w = Timing(m)
    # (only the mixed case is left when the step is reached)
    c.check('the flows are unchanged', m == before)
    for k in w:
        c.check('only times of the flows', k in m)
        c.le('weights are not negative', 0, w[k])
    c.le('running total is never negative', 0, total + sum(w.values()))


class Running(Invariant):
    """_accum_inflows, first loop: what came in until each time."""

    def over(self, v):
        return v['when']

    def entry(self, v):
        self.c.eq('nothing came in before the first flow', v['tally'], 0)
        self.c.eq('no totals yet', self.c.count(v['accum']), 0)
        self.c.eq('no schedule yet', self.c.count(v['result']), 0)

    def fresh(self, v):
        c, when, accum = self.c, v['when'], v['accum']
        for k in when:
            if k is not self.element or self.phase == 'finish':
                accum[k] = c.like(k, 'total until')
        self.before = dict(accum)
        self.C = c.real('flows so far')
        if self.phase == 'finish':
            # (the element of the step of the second loop is a time like
            # any other here; the last total is that of all flows)
            self.C = sum(when.values())
        return {'tally': self.C}

    def step(self, v):
        c, t, accum = self.c, self.element, v['accum']
        c.eq('flows so far', v['tally'], self.C + v['when'][t])
        c.eq('the total until then', accum.pop(t), v['tally'])
        c.check('earlier totals stay as they were', accum == self.before)


class Withdrawals(Invariant):
    """_accum_inflows, second loop: with P what was taken out before, each
    later total is the running total less P, and P is at most the least of
    those running totals; at each time what is taken out in all becomes the
    least running total from then on, if that is positive."""

    def over(self, v):
        return v['when']

    def entry(self, v):
        self.c.eq('nothing is taken out before', v['tally'], 0)
        self.c.eq('no schedule yet', self.c.count(v['result']), 0)

    def least(self, t, totals):
        """The least running total from time t on."""
        return min(x for k, x in totals.items() if k >= t)

    def fresh(self, v):
        c, when, accum, result = self.c, v['when'], v['accum'], v['result']
        totals = self.totals = dict(accum)
        self.P = c.nonneg('taken out before')
        some_of(c, result, when,
                skip=self.element if self.phase == 'step' else None)
        self.before = dict(result)
        if self.phase == 'step':
            for k in when:
                if k < self.element:
                    accum[k] = c.like(k, 'any')
                else:
                    accum[k] = totals[k] - self.P
            low = self.least(self.element, totals)
            c.assume(c.any_of(c.same(self.P, 0), c.most(self.P, low)))
            self.rest = dict(accum)
        else:
            # the least total from the last time on is that of all flows
            self.P = sum(when.values())
            c.assume(self.P > 0)
            c.assume(self.P == sum(result.values()))
        return {'tally': self.P}

    def step(self, v):
        c, t, result, accum = self.c, self.element, v['result'], v['accum']
        out = result.pop(t, 0)
        low = self.least(t, self.totals)
        P = self.P + out
        c.le('weights are not negative', 0, out)
        c.eq('as much and as early as possible', P, low if low > 0 else 0)
        c.eq('the state describes what is taken out', v['tally'], P)
        for k in v['when']:
            if k >= t:
                c.eq('later totals are less what is taken out', accum[k],
                     self.totals[k] - P)
            else:
                c.eq('earlier totals stay as they were', accum[k],
                     self.rest[k])
        c.check('other weights stay as they were', result == self.before)


def any_number_of_withdrawals(c):
    t = c.real('time', lo=0, hi=1)
    m = c.around('flows', t, lo=0, hi=1)
    part = c.choice('part', ['first loop', 'second loop', 'finish'])
    Running(c, '_accum_inflows', 0,
            'step' if part == 'first loop' else 'finish', t)
    last = Withdrawals(c, '_accum_inflows', 1,
                       'step' if part == 'second loop' else 'finish', t)
    total = sum(m.values())
    c.assume(total > 0)
    before = dict(m)
    w = Timing(m)
    c.check('the flows are unchanged', m == before)
    for k in w:
        c.check('only times of the flows', k in m)
        c.le('weights are not negative', 0, w[k])
    if last.reached:
        c.eq('the net inflow is taken out in all', total, sum(w.values()))


def mixed(c, most=5):
    n = c.size('n', 2, 4, unbounded=most)
    # the order in which the flows are listed must not matter
    order = c.choice('order', ['forward', 'backward', 'rotated'])
    ts = [i / n for i in range(n)]
    listed = {'forward': ts, 'backward': ts[::-1],
              'rotated': ts[1:] + ts[:1]}[order]
    m = {}
    for t in listed:
        m[t] = c.real('flow%d' % ts.index(t), nice=[
            0, 1, -1, 2, -2, 5, -5, 10, -10])
    return m, ts


@contract('P04', trials=600)
def withdrawable_inflows(c):
    """When flows come to a net inflow, the schedule holds at each time the
    largest amount that can be taken out without ever overdrawing, and
    takes out the net inflow in all."""
    if c.unbounded:
        return any_number_of_withdrawals(c)
    m, ts = mixed(c)
    total = sum(m.values())
    c.assume(total > 0)
    c.assume(c.any_of(*[m[t] < 0 for t in ts]))
    before = {t: m[t] for t in ts}
    w = Timing(m)
    for t in w:
        c.check('only times of the flows', t in ts)
        c.le('weights are not negative', 0, w[t])
    for t in ts:
        c.eq('the flows are unchanged', m[t], before[t])
    c.eq('the net inflow is taken out in all', sum(w.values()), total)
    cum, out = cumulate(m, ts), cumulate(w, ts)
    for i in range(len(ts)):
        best = max(0, min(cum[i:]))
        c.le('never overdrawn', out[i], best)
        c.eq('as much and as early as possible', out[i], best)


@contract('P04', trials=600)
def necessary_contributions(c):
    """When flows come to a net outflow, the schedule holds at each time the
    least amount that keeps the running total from going negative."""
    if c.unbounded:
        return any_number_of_contributions(c)
    m, ts = mixed(c)
    total = sum(m.values())
    c.assume(total < 0)
    c.assume(c.any_of(*[m[t] > 0 for t in ts]))
    before = {t: m[t] for t in ts}
    w = Timing(m)
    for t in w:
        c.check('only times of the flows', t in ts)
        c.le('weights are not negative', 0, w[t])
    for t in ts:
        c.eq('the flows are unchanged', m[t], before[t])
    cum, put = cumulate(m, ts), cumulate(w, ts)
    for i in range(len(ts)):
        c.le('running total is never negative', 0, cum[i] + put[i])
        c.eq('as little and as late as possible', put[i],
             max([0] + [-x for x in cum[:i + 1]]))


@contract('P04')
def balanced_flows(c):
    """Flows that cancel out need no schedule."""
    if c.unbounded:
        t = c.real('time', lo=0, hi=1)
        m = c.around('flows', t, lo=0, hi=1)
        c.assume(m[t] != 0)
        c.assume(sum(m.values()) == 0)
        c.eq('no schedule', c.count(Timing(m)), 0)
        return
    m, ts = mixed(c)
    c.assume(c.any_of(*[m[t] > 0 for t in ts]))
    m[ts[-1]] = -sum(m[t] for t in ts[:-1])
    c.assume(c.any_of(*[m[t] != 0 for t in ts]))
    c.assume(c.any_of(*[m[t] > 0 for t in ts]))
    c.eq('no schedule', len(Timing(m)), 0)
