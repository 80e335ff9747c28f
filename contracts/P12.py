"""Contribution room of registered accounts."""
from pyvc.ctx import contract, finding
from forecaster.accounts import Account
from forecaster.accounts.link import AccountLink
from forecaster.canada.accounts import RRSP, TFSA
from forecaster.person import Person
from contracts.common import Y

TIMES = [[], [0.5], [0, 0.5]]


class Rules(object):
    """Constants of registered accounts (any amounts)."""
    TFSA_ELIGIBILITY_AGE = 18
    RRSP_RRIF_CONVERSION_AGE = 71
    RRSP_RRIF_WITHDRAWAL_MIN = {71: 0.05, 72: 0.06}
    RRSP_WITHHOLDING_TAX_RATE = {Y: {0: 0.1}}

    def __init__(self, c, first=-2, last=3):
        self.TFSA_ACCRUAL_ROUNDING_FACTOR = 500
        self.TFSA_ANNUAL_ACCRUAL = {
            Y + i: c.nonneg('accrual %d' % i) for i in range(first, last)}
        self.RRSP_ACCRUAL_RATE = c.real('accrual rate', lo=0, hi=1)
        self.RRSP_ACCRUAL_MAX = {Y: c.nonneg('accrual max')}


def born(age):
    """Date of birth of someone who becomes `age` in the year Y."""
    return '%d-06-15' % (Y - age)


def a_person(c, name='p', age=40, gross=None, raises=0):
    return Person(Y, name, born(age), '2150', raise_rate=raises,
                  gross_income=0 if gross is None else gross)


def flows(m):
    return sum(m.values())


def inflows(m):
    return sum(v for v in m.values() if v > 0)


def adjust(price):
    """Prices rise by a ratio of `price` after the year Y."""
    level = lambda y: price if y > Y else 1
    return lambda target, base=Y: level(target) / level(base)


def accounts(c, cls, owners, contributor, law, **kw):
    """Linked accounts with any flows.  Returns them and their flows."""
    a, ms = [], []
    for i, owner in enumerate(owners):
        ms.append(c.time_map('transactions %d' % i, ends=False, times=TIMES))
        a.append(cls(initial_year=Y, owner=owner, contributor=contributor,
                     balance=c.real('balance %d' % i), rate=0, constants=law,
                     inputs={'transactions': {Y: ms[-1]}}, **kw))
    return a, ms


def next_room(c, cls, p, law, room, ms, price=1):
    """Room in the year after Y, by the rules."""
    if cls is TFSA:
        return law.TFSA_ANNUAL_ACCRUAL[Y + 1] + room - sum(map(flows, ms))
    if p.age(Y + 1) > 71:
        return 0
    accrual = p.gross_income * law.RRSP_ACCRUAL_RATE
    most = law.RRSP_ACCRUAL_MAX[Y] * price
    return (accrual if accrual < most else most) + room - \
        sum(map(inflows, ms))


class Linked(Account):
    """A linked account with given total flows."""
    ins = outs = 0

    def inflows(self, transactions=None):
        return self.ins

    def outflows(self, transactions=None):
        return -self.outs


def linked(g):
    a = Linked(initial_year=Y, balance=0, rate=0)
    a.ins, a.outs = g.nonneg('inflows'), g.nonneg('outflows')
    return a


@contract('P12', max_paths=20000)
def room_of_the_next_year(c):
    """Room carried over, plus the accrual, less what was contributed (TFSA:
    net of withdrawals; RRSP: gross) to any number of linked accounts with
    any flows, also if the contributor is in the next year already."""
    law = Rules(c)
    cls = c.choice('kind', [TFSA, RRSP])
    p = a_person(c, age=c.choice('age', [40, 70, 71]),
                 gross=c.nonneg('income'), raises=c.real('raise', lo=-1))
    room, price = c.real('room'), c.pos('price')

    others = c.objects('linked accounts', linked)
    ins = sum([x.ins for x in others])
    outs = sum([x.outs for x in others])
    m = c.time_map('transactions', ends=False)
    a = cls(initial_year=Y, owner=p, balance=0, rate=0, constants=law,
            contribution_room=room, inflation_adjust=adjust(price),
            inputs={'transactions': {Y: m}})
    others.append(a)
    p.data[a.max_inflow_link.token].group = c.as_set(others)
    ins += inflows(m)
    outs += inflows(m) - flows(m)
    income = p.gross_income
    if c.flag('the contributor first'):
        p.next_year()
    got = a.next_contribution_room()
    if cls is TFSA:
        want = law.TFSA_ANNUAL_ACCRUAL[Y + 1] + room - ins + outs
    elif p.age(Y + 1) > 71:
        want = 0
    else:
        accrual = income * law.RRSP_ACCRUAL_RATE
        most = law.RRSP_ACCRUAL_MAX[Y] * price
        want = (accrual if accrual < most else most) + room - ins
    c.eq('room of the next year', got, want)
    c.eq('room of the year', a.contribution_room, room)


@contract('P12', max_paths=20000)
def linked_accounts(c):
    """Accounts of one kind and contributor report the same room, whichever
    is asked or advanced first; other kinds and contributors keep their own;
    the room of past years stays on record."""
    law = Rules(c)
    cls = c.choice('kind', [TFSA, RRSP])
    p = a_person(c, 'p', gross=c.nonneg('income'))
    q = a_person(c, 'q')
    n = c.size('accounts', 1, 2 if c.bounded else 3)
    room = c.real('room')
    a, ms = accounts(c, cls, [[p, q, p][i] for i in range(n)], p, law)
    other = RRSP if cls is TFSA else TFSA
    kw = dict(initial_year=Y, balance=0, rate=0, constants=law)
    b = [other(p, contribution_room=c.real('other room'), **kw),
         cls(q, contribution_room=c.real('room of q'), **kw)]
    before = [x.contribution_room for x in b]
    a[c.choice('set by', list(range(n)))].contribution_room = room
    for x in a:
        c.eq('one room for all', x.contribution_room, room)
        c.eq('the limit of inflows', x.max_inflow_limit, room)
    want = next_room(c, cls, p, law, room, ms)
    first = c.choice('first', list(range(n)))
    for x in a[first:] + a[:first]:
        while x.this_year == Y:
            x.next_year()
    for x in a:
        c.eq('the year', x.this_year, Y + 1)
        c.eq('room of the next year', x.contribution_room, want)
        c.eq('room on record', x.contribution_room_history[Y], room)
    for x, r in zip(b, before):
        c.eq('others keep their room', x.contribution_room, r)


@contract('P12', kinds=('bounded',), max_paths=20000)
def two_years(c):
    """Room over two years with up to two accounts: withdrawals restore room
    of a TFSA only, in the year after, and never room of the same year."""
    law = Rules(c)
    cls = c.choice('kind', [TFSA, RRSP])
    gross = [c.nonneg('income'), c.real('raise', lo=-1, hi=1)]
    p = a_person(c, 'p', gross=gross[0],
                 raises={Y: 0, Y + 1: gross[1],
                         Y + 2: c.real('another raise', lo=-1, hi=1)})
    n = c.size('accounts', 1, 2)
    room = c.real('room')
    price = c.pos('price') if cls is RRSP else 1
    a = [cls(initial_year=Y, owner=p, balance=c.real('balance %d' % i),
             rate=0.1, constants=law,
             inflation_adjust=adjust(price))
         for i in range(n)]
    a[0].contribution_room = room
    for i in range(2):
        net = ins = 0
        for j, x in enumerate(a):
            d, w = c.nonneg('in %d %d' % (i, j)), c.nonneg('out %d %d' % (i,
                                                                         j))
            if j == 0 or i == 0:
                x.add_transaction(d, 0)
                net += d
                ins += d
            if j > 0 or i == 0:
                x.add_transaction(-w, 0.5)
                net -= w
        c.eq('room is of the year as a whole', a[-1].contribution_room, room)
        if cls is TFSA:
            room += law.TFSA_ANNUAL_ACCRUAL[Y + i + 1] - net
        else:
            accrual = p.gross_income * law.RRSP_ACCRUAL_RATE
            most = law.RRSP_ACCRUAL_MAX[Y] * price
            room += (accrual if accrual < most else most) - ins
        if c.flag('last first %d' % i):
            a.reverse()
        if i == 1:
            p.next_year()
        for x in a:
            while x.this_year == Y + i:
                x.next_year()
        for x in a:
            c.eq('room after a year', x.contribution_room, room)


@contract('P12', kinds=('bounded',))
def initial_room(c):
    """Without a given room, a TFSA starts with every accrual since its
    contributor became eligible, or since the last room on record; an RRSP
    with none."""
    law = Rules(c)
    age = c.choice('age', [15, 17, 18, 19, 30])
    p = a_person(c, age=age)
    past = c.choice('on record', [(), (-2,), (-1,), (-1, -2), (1,), (0,)])
    inputs = {'contribution_room': {Y + i: c.real('record %d' % i)
                                    for i in past}}
    a = TFSA(p, initial_year=Y, constants=law, balance=0, rate=0,
             inputs=inputs)
    known = [i for i in past if i <= 0]
    want, start = 0, -2
    if known:
        start = max(known) + 1
        want = inputs['contribution_room'][Y + max(known)]
    for i in range(start, 1):
        if age + i >= 18:
            want += law.TFSA_ANNUAL_ACCRUAL[Y + i]
    c.eq('initial room', a.contribution_room, want)
    c.eq('linked account', TFSA(p, initial_year=Y, constants=law, balance=0,
                                rate=0).contribution_room, want)
    c.eq('room of a new RRSP', RRSP(p, initial_year=Y, constants=law,
                                    balance=0, rate=0).contribution_room, 0)
    a.next_year()
    if 1 in past:
        want = inputs['contribution_room'][Y + 1]
    elif age + 1 >= 18:
        want += law.TFSA_ANNUAL_ACCRUAL[Y + 1]
    c.eq('room a year later', a.contribution_room, want)


@contract('P12', kinds=('bounded',))
def accruals_not_listed(c):
    """Beyond the listed years (without inflation) a year accrues the first
    listed amount, rounded; TFSAs of a contributor who is not the owner go
    by the age of the contributor."""
    law = Rules(c, last=1)
    p = a_person(c, 'p', age=c.choice('age', [16, 17, 40]))
    q = a_person(c, 'q', age=c.choice('age of owner', [10, 40]))
    room = c.real('room')
    a = TFSA(q, contributor=p, initial_year=Y, constants=law, balance=0,
             rate=0, contribution_room=room)
    base = law.TFSA_ANNUAL_ACCRUAL[Y - 2]
    want = round(base / 500) * 500
    a.next_year()
    c.eq('accrual of a later year', a.contribution_room - room,
         want if p.age(Y + 1) >= 18 else 0)


@finding('P12', 'tfsa-deflated',
         'TFSA room accrued in years after the last listed year is deflated '
         'by the price level instead of inflated')
def tfsa_deflated(c):
    law = Rules(c, last=1)
    law.TFSA_ANNUAL_ACCRUAL = {Y - 2: 5000}
    p = a_person(c, 'p')
    a = TFSA(p, initial_year=Y, constants=law, balance=0, rate=0,
             contribution_room=0, inflation_adjust=adjust(2))
    a.next_year()
    c.eq('indexed accrual', a.contribution_room, 10000)


@contract('P12')
def given_rooms(c):
    """A room given for the next year is the room of all linked accounts,
    whichever has it and whichever advances first."""
    law = Rules(c)
    cls = c.choice('kind', [TFSA, RRSP])
    p = a_person(c, gross=c.nonneg('income'))
    given = c.real('given')
    has = c.choice('has it', [0, 1])
    a = []
    for i in range(2):
        inputs = {'contribution_room': {Y + 1: given}} if i == has else {}
        inputs['transactions'] = {Y: c.time_map('transactions %d' % i,
                                                ends=False, times=TIMES)}
        a.append(cls(p, initial_year=Y, constants=law, balance=0, rate=0,
                     contribution_room=c.real('room') if i == 0 else None,
                     inputs=inputs))
    if c.flag('last first'):
        a.reverse()
    for x in a:
        while x.this_year == Y:
            x.next_year()
    for x in a:
        c.eq('given room', x.contribution_room, given)
        c.eq('given limit', x.max_inflow_limit, given)


@contract('P12', kinds=('bounded',))
def ways_of_giving_room(c):
    """Room and contributor are those given, by either name; by default the
    contributor is the owner, and accounts of one kind and contributor share
    room. What is given twice is refused."""
    law, room = Rules(c), c.nonneg('room')
    p, q = a_person(c, 'p'), a_person(c, 'q')
    cls = c.choice('kind', [TFSA, RRSP])
    build = lambda **kw: cls(initial_year=Y, owner=p, balance=0, rate=0,
                             constants=law, **kw)
    who, token, given = p, 'own', {}
    how = c.choice('contributor', ['default', 'contributor', 'pair', 'link'])
    if c.flag('token') and how in ('default', 'contributor'):
        given['max_inflow_token'] = token
    if how == 'contributor':
        given['contributor'] = who = q
    elif how == 'pair':
        given = {'max_inflow_link': (q, token)}
        who = q
    elif how == 'link':
        given = {'max_inflow_link': AccountLink((q, token))}
        who = q
    name = c.choice('room as', ['contribution_room', 'max_inflow_limit'])
    a = build(**dict(given, **{name: room}))
    c.check('contributor', a.contributor is who)
    c.eq('room', a.contribution_room, room)
    c.eq('limit', a.max_inflow_limit, room)
    if 'max_inflow_link' not in given and 'max_inflow_token' not in given:
        # (accounts of the kind, whatever links them)
        token = a.max_inflow_link.token
    c.check('one record', who.data[token].group == {a} and
            a.max_inflow_link == AccountLink((who, token)))
    c.check('owner', a.owner is p and a in p.accounts and
            a not in q.accounts)
    b = build(**given)
    c.eq('shared with the next', b.contribution_room, room)
    c.check('in one group', who.data[token].group == {a, b})
    c.raises('room given twice', lambda: build(
        contribution_room=room, max_inflow_limit=room), ValueError)
    link = AccountLink((q, token))
    for twice in ({'contributor': q}, {'max_inflow_token': token}):
        c.raises('contributor given twice', lambda: build(
            max_inflow_link=link, **twice), ValueError)
