"""History: one value for each past year, never rewritten."""
from pyvc.ctx import contract
from forecaster.accounts import Account, Debt
from forecaster.canada.accounts import RRSP, TFSA, TaxableAccount
from forecaster.ledger import Ledger, recorded_property, \
    recorded_property_cached
from forecaster.person import Person
from forecaster.tax import Tax
from contracts.common import Y


class Example(Ledger):
    """One recorded property of each kind."""

    def __init__(self, initial_year, inputs=None, level=0, series=None):
        super().__init__(initial_year, inputs=inputs)
        self.level = level
        self.series = series
        self._own = 0
        self._kept = 0

    @recorded_property
    def plain(self):
        return self.level

    @recorded_property_cached
    def cached(self):
        return self.series(self.this_year)

    @recorded_property
    def own(self):
        return self._own

    @own.setter
    def own(self, val):
        self._own = 2 * val

    @own.deleter
    def own(self):
        self._own = -1

    @recorded_property_cached
    def kept(self):
        return self._kept

    @kept.setter
    def kept(self, val):
        self._kept = 3 * val

    @recorded_property_cached
    def growing(self):
        return self._growing_history[self.this_year - 1] + 1


NAMES = ('plain', 'cached', 'own', 'kept')


@contract('P11')
def advancing_a_year(c):
    """Whatever is on record, advancing adds the values that the year ended
    with and changes nothing else; inputs for the year stand."""
    past = {n: c.year_map('past ' + n, Y) for n in NAMES}
    inputs = {n: dict(past[n]) for n in NAMES}
    level, value = c.real('level'), c.real('value')
    set_own, start = c.real('own'), c.real('growing')
    given = c.choice('given', (None,) + NAMES)
    if given:
        inputs[given][Y] = c.real('given')
    inputs['growing'] = {Y: start}
    a = Example(Y, inputs, level, lambda year: value)
    end = {'plain': level, 'cached': value, 'own': 0, 'kept': 0}
    if c.flag('look'):
        for n in NAMES:
            getattr(a, n)
            getattr(a, n + '_history')
    if c.flag('set'):
        a.own = set_own
        end['own'] = 2 * set_own
        a.kept = set_own
        end['kept'] = 3 * set_own
    if given:
        end[given] = inputs[given][Y]
    a.next_year()
    c.eq('the year advanced', a.this_year, Y + 1)
    a.level = c.real('new level')
    a.series = lambda year: c.real('new value')
    a.own = c.real('new own')
    a.kept = c.real('new kept')
    a.clear_cache()
    for n in NAMES:
        h = getattr(a, n + '_history')
        c.eq('recorded %s of the year' % n, h[Y], end[n])
        for y in past[n]:
            c.eq('earlier %s is unchanged' % n, h[y], past[n][y])
        c.eq('one %s for each year' % n, c.count(h), c.count(past[n]) + 2)
        c.check('%s of the new year' % n, Y + 1 in h)
    c.eq('growing', a.growing, start + 1)


@contract('P11')
def inputs_stand(c):
    """A value given for a year is reported and recorded for that year
    whatever is looked at, set, deleted or cleared."""
    given = {n: {Y + 1: c.real('given ' + n)} for n in NAMES}
    given['growing'] = {Y: 0, Y + 1: c.real('given growing')}
    a = Example(Y, given, c.real('level'), lambda year: c.real('value'))
    a.next_year()
    op = c.choice('operation', ['look', 'set', 'delete', 'clear', 'level'])
    for n in NAMES + ('growing',):
        want = given[n][Y + 1]
        if op == 'look':
            c.eq('history of ' + n, getattr(a, n + '_history')[Y + 1], want)
        elif op == 'set':
            setattr(a, n, 17)
        elif op == 'delete':
            delattr(a, n)
        elif op == 'clear':
            a.clear_cache()
        else:
            a.level = 19
        c.eq('given ' + n, getattr(a, n), want)
    c.check('the inputs are unchanged', len(given['growing']) == 2)
    a.next_year()
    for n in NAMES + ('growing',):
        c.eq('recorded given ' + n, getattr(a, n + '_history')[Y + 1],
             given[n][Y + 1])
    c.eq('growth from a given value', a.growing, given['growing'][Y + 1] + 1)


OPS = ('look', 'history', 'set plain', 'set cached', 'set own', 'set kept',
       'delete',
       'level', 'clear', 'next')


@contract('P11', kinds=('bounded',), max_paths=20000)
def any_sequence_of_operations(c):
    """After any sequence of three operations the values and histories are
    those of a plain table of values; bounded to three operations."""
    values = [c.real('v%d' % i) for i in range(4)]
    series = [c.real('series%d' % i) for i in range(4)]
    a = Example(Y, {'growing': {Y: 0}}, values[3],
                lambda year: series[year - Y])
    year, level, own, kept = Y, values[3], 0, 0
    fixed = {n: {} for n in NAMES}
    done = {n: {} for n in NAMES}

    def now(n):
        if year in fixed[n]:
            return fixed[n][year]
        return {'plain': level, 'cached': series[year - Y], 'own': own,
                'kept': kept}[n]

    for i in range(3):
        op = c.choice('op%d' % i, OPS)
        if op == 'look':
            for n in NAMES:
                c.eq('value of ' + n, getattr(a, n), now(n))
        elif op == 'history':
            for n in NAMES:
                c.eq('history of ' + n, getattr(a, n + '_history')[year],
                     now(n))
        elif op == 'set plain':
            a.plain = values[i]
            fixed['plain'][year] = values[i]
        elif op == 'set cached':
            a.cached = values[i]
            fixed['cached'][year] = values[i]
        elif op == 'set own':
            a.own = values[i]
            own = 2 * values[i]
        elif op == 'set kept':
            a.kept = values[i]
            kept = 3 * values[i]
        elif op == 'delete':
            for n in NAMES:
                delattr(a, n)
                fixed[n].pop(year, None)
            own = -1
        elif op == 'level':
            a.level = level = values[i]
        elif op == 'clear':
            a.clear_cache()
            fixed['cached'].pop(year, None)
        else:
            for n in NAMES:
                done[n][year] = now(n)
            a.next_year()
            year += 1
    c.eq('current year', a.this_year, year)
    for n in NAMES:
        done[n][year] = now(n)
        h = getattr(a, n + '_history')
        c.eq('years on record for ' + n, len(h), len(done[n]))
        for y in done[n]:
            c.eq('%s on record' % n, h[y], done[n][y])
        c.eq('value of ' + n, getattr(a, n), now(n))


# ------------------------------------------------------- the real ledgers
def histories(x):
    """Every history that an object keeps."""
    return {n: getattr(x, n) for n in sorted(dir(x))
            if n.endswith('_history') and not n.startswith('_')}


def look(x):
    for n in histories(x):
        getattr(x, n[:-len('_history')])


def same_value(c, name, got, want):
    if isinstance(want, dict):
        c.eq(name + ' (number)', len(got), len(want))
        for k in want:
            c.check(name + ' (key)', k in got)
            c.eq(name, got[k], want[k])
    else:
        c.eq(name, got, want)


def same_histories(c, looked, unlooked, last):
    """Equal values for every past year, and only one for each."""
    for a, b in zip(looked, unlooked):
        ha, hb = histories(a), histories(b)
        for n in hb:
            name = '%s.%s' % (type(b).__name__, n)
            for y in range(Y, last):
                c.check(name + ' has the year', y in hb[n] and y in ha[n])
                same_value(c, name, ha[n][y], hb[n][y])


def owner(tax=None):
    return Person(Y, 'a', '1950', '2001', gross_income=50000,
                  raise_rate=0, tax_treatment=tax)


def a_world(kind, v):
    """The ledgers of one kind with amounts v, in the order in which they
    advance."""
    p = Person(Y, 'a', '1950', '2001', gross_income=v[3],
               raise_rate={Y + i: v[4] for i in range(5)})
    if kind == 'account':
        return [p, Account(p, balance=v[0], rate=v[4])]
    if kind == 'debt':
        return [p, Debt(p, balance=v[0], rate=v[4],
                        minimum_payment=100, accelerated_payment=50)]
    if kind == 'taxable':
        return [p, TaxableAccount(p, balance=1000 + v[0] * v[0], rate=v[4],
                                  acb=v[3])]
    cls = {'rrsp': RRSP, 'tfsa': TFSA}[kind]
    return [p] + [cls(p, balance=v[0], rate=v[4], contribution_room=v[3])
                  for _ in range(2)]


@contract('P11', kinds=('bounded',), max_paths=20000, budget=300)
def looking_makes_no_difference(c):
    """Every history of people and of accounts of every kind is the same
    whether or not anything was looked at before and after the flows of each
    year; two years, one flow at most each year."""
    kind = c.choice('kind', ['account', 'debt', 'taxable', 'rrsp', 'tfsa'])
    v = [c.real('balance'), c.real('flow 0', lo=-900, hi=900),
         c.real('flow 1', lo=-900, hi=900), c.nonneg('income'),
         c.real('rate', lo=0, hi=1, nice=[0, 0.05, 0.1])]
    looked, unlooked = a_world(kind, v), a_world(kind, v)
    before, after = c.choice('when', [(True, False), (False, True),
                                      (True, True)])
    flows = c.choice('flows', [(0, 1), (0,), (1,)])
    for i in range(2):
        if before:
            for x in looked:
                look(x)
        for world in (looked, unlooked):
            if i in flows:
                world[1].add_transaction(v[1 + i], 0.5)
        if after:
            for x in looked:
                look(x)
        for world in (looked, unlooked):
            for x in world:
                while x.this_year <= Y + i:
                    x.next_year()
    same_histories(c, looked, unlooked, Y + 2)


def a_ledger(kind, inputs, v):
    p = owner()
    if kind == 'person':
        return [Person(Y, 'b', '1950', '2001', gross_income=v[1],
                       inputs=inputs)]
    if kind == 'account':
        return [Account(p, balance=v[0], rate=0, inputs=inputs)]
    if kind == 'debt':
        return [Debt(p, balance=v[0], rate=0, inputs=inputs)]
    if kind == 'taxable':
        return [TaxableAccount(p, balance=v[0], rate=0, acb=v[1],
                               inputs=inputs)]
    cls = {'rrsp': RRSP, 'tfsa': TFSA}[kind]
    return [cls(p, balance=v[0], rate=0, contribution_room=v[1],
                inputs=inputs),
            cls(p, balance=v[0], rate=0)]


KINDS = ('person', 'account', 'debt', 'taxable', 'rrsp', 'tfsa')
PROPERTIES = {
    'person': ('gross_income', 'net_income', 'raise_rate', 'tax_credit',
               'tax_deduction', 'tax_withheld', 'taxable_income'),
    'account': ('balance', 'rate', 'transactions', 'returns', 'tax_credit',
                'tax_deduction', 'tax_withheld', 'taxable_income')}
PROPERTIES['debt'] = PROPERTIES['account']
PROPERTIES['taxable'] = PROPERTIES['account'] + ('acb', 'capital_gain')
PROPERTIES['rrsp'] = PROPERTIES['tfsa'] = \
    PROPERTIES['account'] + ('contribution_room',)


@contract('P11', kinds=('bounded',), max_paths=20000, budget=300)
def given_values_of_real_ledgers(c):
    """A value given for next year for any property of any kind of ledger is
    the one reported and recorded, through flows, looks and cleared caches,
    and the years after it still have values."""
    kind = c.choice('kind', KINDS)
    name = c.choice('property', PROPERTIES[kind])
    v = [c.real('balance', lo=1000, hi=9000), c.real('other', lo=0, hi=900)]
    flow = c.real('flow', lo=-300, hi=900)
    given = c.real('given', lo=1000, hi=2000)
    if name == 'transactions':
        given = {0.5: given}
    world = a_ledger(kind, {name: {Y + 1: given}}, v)
    if kind in ('rrsp', 'tfsa') and c.flag('other first'):
        order = world[::-1]
    else:
        order = world
    a = world[0]
    for i in range(3):
        if kind != 'person' and (i != 1 or name != 'transactions'):
            a.add_transaction(flow, 0.5)
        if c.flag('look %d' % i):
            for x in world:
                look(x)
        if i == 1:
            same_value(c, '%s.%s given' % (kind, name), getattr(a, name),
                       given)
            a.clear_cache()
            same_value(c, '%s.%s still given' % (kind, name),
                       getattr(a, name), given)
        for x in order:
            while x.this_year <= Y + i:
                x.next_year()
    same_value(c, '%s.%s recorded' % (kind, name),
               getattr(a, name + '_history')[Y + 1], given)
    for n, h in histories(a).items():
        for y in range(Y, Y + 4):
            c.check('%s.%s on record' % (kind, n), y in h)


@contract('P11', kinds=('bounded',), max_paths=20000, budget=300)
def past_years_stay(c):
    """Nothing that happens to a ledger of any kind in a later year changes
    what is on record for the years before."""
    kind = c.choice('kind', KINDS[1:])
    v = [c.real('balance', lo=1000, hi=9000), c.real('other', lo=0, hi=900)]
    world = a_ledger(kind, None, v)
    people = [world[0].owner]
    if c.flag('flow'):
        world[0].add_transaction(c.real('flow', lo=-900, hi=900), 0.5)
    for x in people + world:
        while x.this_year <= Y:
            x.next_year()
    kept = {}
    for i, x in enumerate(people + world):
        for n, h in histories(x).items():
            kept[i, n] = dict(h[Y]) if isinstance(h[Y], dict) else h[Y]
    op = c.choice('operation', ['flow', 'rate', 'set', 'clear', 'years'])
    a = world[0]
    if op == 'flow':
        a.add_transaction(c.real('second', lo=-900, hi=900), 0.5)
    elif op == 'rate':
        a.rate_callable = c.real('rate', lo=0, hi=1)
        a.nper = 12
    elif op == 'set':
        a.balance = 17
        a.transactions = {0.25: 19}
        people[0].gross_income = 23
    elif op == 'clear':
        for x in people + world:
            x.clear_cache()
    else:
        for i in range(1, 3):
            for x in people + world:
                while x.this_year <= Y + i:
                    x.next_year()
    for i, x in enumerate(people + world):
        for n, h in histories(x).items():
            same_value(c, '%s.%s of a past year' % (type(x).__name__, n),
                       h[Y], kept[i, n])


@contract('P11', kinds=('bounded',))
def owners_keep_up(c):
    """An account that advances first brings its owner up to its own year
    (a registered account: past it, as its contributor records the year),
    leaves an owner who is there or ahead alone, and the owner has one value
    for every year passed."""
    rate, gross = c.real('raise', lo=0, hi=1), c.nonneg('gross')
    p = Person(Y, 'a', '1950', '2100', gross_income=gross,
               raise_rate={Y + i: rate for i in range(5)})
    for _ in range(c.choice('owner ahead', [0, 1, 2])):
        p.next_year()
    start = c.choice('start', [Y, Y + 1, Y + 2])
    cls = c.choice('class', [Account, Debt, TFSA, RRSP, TaxableAccount])
    registered = cls in (TFSA, RRSP)
    given = {'contribution_room': 0} if registered else {}
    a = cls(p, balance=c.real('balance'), rate=0, initial_year=start, **given)
    was = p.this_year
    for i in range(c.choice('years', [1, 2])):
        a.next_year()
        c.eq('the account advances one year', a.this_year, start + i + 1)
        c.eq('the owner is brought up to the year that ends', p.this_year,
             max(was, start + i + registered))
    h, want = p.gross_income_history, gross
    c.check('one value for each year', list(sorted(h)) ==
            list(range(Y, p.this_year + 1)))
    for y in range(Y, p.this_year + 1):
        c.eq('income of each year', h[y], want)
        want = want * (1 + rate)
