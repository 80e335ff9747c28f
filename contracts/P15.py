"""Limits shared by linked accounts."""
from pyvc.ctx import contract
from forecaster.accounts import Account, LinkedLimitAccount
from forecaster.accounts.link import AccountLink
from contracts.common import Y, growth_rate
from contracts.P05 import flows_in, flows_out, proportional, schedule
from contracts.P12 import a_person, Linked, linked, TIMES

KINDS = ['max_inflow', 'min_inflow', 'max_outflow', 'min_outflow']
INF = float('inf')
DEFAULTS = {'max_inflow': INF, 'min_inflow': 0, 'max_outflow': -INF,
            'min_outflow': 0}


def limit_of(c, kind, name='limit'):
    return c.nonneg(name) if kind.endswith('inflow') else c.real(name, hi=0)


def an_account(c, owner, kind, token, m=None, rate=0, balance=0, limit=None):
    kw = {kind + '_link': (owner, token)}
    if limit is not None:
        kw[kind + '_limit'] = limit
    if m is not None:
        kw['inputs'] = {'transactions': {Y: m}}
    return LinkedLimitAccount(owner=owner, initial_year=Y, balance=balance,
                              rate=rate, **kw)


def at_most(total, bound, kind):
    """total is within the bound and of the right sign."""
    if kind.endswith('inflow'):
        return total if total < bound else bound
    return total if total > bound else bound


def clamp(kind, x):
    if kind.endswith('inflow'):
        return x if x > 0 else 0
    return x if x < 0 else 0


@contract('P15')
def flows_use_up_the_limit_of_all(c):
    """What is left of a limit is what the flows of any number of linked
    accounts and one's own leave of it; the flows of others do not touch
    one's own balance."""
    kind = c.choice('kind', KINDS)
    p = a_person(c)
    limit = limit_of(c, kind)
    others = c.objects('linked accounts', linked)
    used = sum([x.ins for x in others])
    if kind.endswith('outflow'):
        used = -sum([x.outs for x in others])
    m = c.time_map('transactions', ends=False)
    rate = growth_rate(c)
    balance = c.real('balance')
    a = an_account(c, p, kind, 'token', m, rate, balance, limit)
    others.append(a)
    p.data['token'].group = c.as_set(others)
    kw = {}
    if c.flag('transaction limit'):
        kw['transaction_limit'] = c.real('transaction_limit')
    target = INF if kind.endswith('inflow') else 0
    if c.flag('balance limit'):
        kw['balance_limit'] = target = c.real('balance_limit')
    got = getattr(a, kind + 's')({1: 1}, **kw)
    c.eq('only requested times', len(got), 1)
    own = flows_in(m) if kind.endswith('inflow') else flows_out(m)
    want = limit - own - used
    if 'transaction_limit' in kw:
        want = at_most(want, kw['transaction_limit'], kind)
    if target != INF:
        want = at_most(want, target - a.balance_at_time(1), kind)
    c.eq('what is left of the limit', got[1], clamp(kind, want))
    c.eq('the limit', getattr(a, kind + '_limit'), limit)


@contract('P15', max_paths=20000)
def one_limit(c):
    """Linked accounts report one limit through whichever it is set; other
    kinds of limit, owners and tokens keep theirs."""
    kind = c.choice('kind', KINDS)
    p, q = a_person(c, 'p'), a_person(c, 'q')
    old, new = limit_of(c, kind, 'old'), limit_of(c, kind, 'new')
    n = c.size('accounts', 1, 3)
    how = c.choice('limit given', ['first', 'last', 'set'])
    a = []
    for i in range(n):
        given = {'first': i == 0, 'last': i == n - 1}.get(how)
        a.append(an_account(c, [p, q, p][i], kind, 'token',
                            limit=old if given else None))
        if i:       # linked with the first whoever owns it
            setattr(a[i], kind + '_link', getattr(a[0], kind + '_link'))
            a[i].owner = q
    if how == 'set':
        setattr(a[-1], kind + '_limit', old)
    other = limit_of(c, kind, 'other')
    b = [an_account(c, p, kind, 'another', limit=other),
         an_account(c, q, kind, 'a third', limit=other)]
    plain = LinkedLimitAccount(owner=p, initial_year=Y, balance=0, rate=0)

    def unchanged():
        for x in b:
            c.eq('limit of other accounts', getattr(x, kind + '_limit'),
                 other)
        for k in KINDS:
            c.check('limit of accounts that are not linked',
                    getattr(plain, k + '_limit') == DEFAULTS[k])
            if k != kind:
                for x in a:
                    c.check('limits of other kinds',
                            getattr(x, k + '_limit') == DEFAULTS[k])
    if how == 'last':
        setattr(a[-1], kind + '_limit', old)
    for x in a[:1]:
        c.eq('one limit', getattr(x, kind + '_limit'), old)
    unchanged()
    setattr(a[c.choice('set by', list(range(n)))], kind + '_limit', new)
    for x in a:
        c.eq('one limit for all', getattr(x, kind + '_limit'), new)
    unchanged()
    for k in KINDS:
        def no_link():
            setattr(plain, k + '_limit', 1)
        c.raises('no limit without a link', no_link, AttributeError)


@contract('P15', kinds=('bounded',), max_paths=40000, budget=300)
def split_flows_stay_within_the_limit(c):
    """However flows are split among linked accounts and over time, what
    they accept never takes their total beyond the limit, and what one
    takes is what is left for the others; two flows, two accounts."""
    kind = c.choice('kind', ['max_inflow', 'max_outflow'])
    p = a_person(c)
    limit = limit_of(c, kind)
    a = [an_account(c, p, kind, 'token', balance=c.nonneg('balance %d' % i),
                    limit=limit if i == 0 else None) for i in range(2)]
    apart = an_account(c, p, kind, 'another', balance=c.nonneg('apart'),
                       limit=limit)
    total = 0
    against = c.choice('against', [None, 0, 1])
    for i in range(2):
        x = a[c.choice('account %d' % i, [0, 1])]
        most = sum(getattr(x, kind + 's')({0.5: 1}).values())
        v = most * c.real('share %d' % i, lo=0, hi=1)
        x.add_transaction(v, [0.5, 1][i])
        total += v
        if kind == 'max_inflow':
            c.eq('all that is left is offered', most, limit - total + v)
            c.le('within the limit', total, limit)
        else:
            c.le('within the limit', limit, total)
        if i == 0 and against is not None:    # does not restore the limit
            w = c.nonneg('flow against')
            a[against].add_transaction(
                w if kind == 'max_outflow' else -w, 0)
    got = [sum(getattr(x, kind + 's')({1: 1}).values()) for x in a]
    for x, g in zip(a, got):
        left = limit - total
        if kind == 'max_inflow':
            c.eq('left for each', g, left if left > 0 else 0)
        else:
            b = -x.balance_at_time(1)
            most = b if b > left else left
            c.eq('left for each', g, most if most < 0 else 0)
    alone = sum(getattr(apart, kind + 's')({1: 1}).values())
    b = -apart.balance_at_time(1)
    c.eq('accounts with another limit', alone, limit
         if kind == 'max_inflow' or limit > b else b)


@contract('P15', max_paths=20000)
def hypothetical_flows_of_the_group(c):
    """Hypothetical flows of linked accounts use up the limit like flows
    made, those of other accounts do not; one's own affect the balance."""
    kind = c.choice('kind', KINDS)
    p = a_person(c)
    limit = limit_of(c, kind)
    balance = c.real('balance')
    a = an_account(c, p, kind, 'token', balance=balance, limit=limit)
    b = an_account(c, p, kind, 'token')
    d = an_account(c, p, kind, 'another', limit=limit)
    flows = {x: c.time_map('flows ' + n, times=[[], [0.5], [0, 0.5]],
                           ends=False)
             for x, n in ((a, 'a'), (b, 'b'), (d, 'd'))}
    given = dict(flows)
    how = c.choice('own flows', ['group', 'argument', 'none',
                                 'argument before group', 'empty argument'])
    kw = {}
    if how in ('argument', 'none'):
        del given[a]
    if how == 'argument before group':
        given[a] = {0.5: c.real('disregarded')}
    if how in ('argument', 'argument before group'):
        kw['transactions'] = flows[a]
    if how == 'empty argument':
        kw['transactions'] = {}
    f = flows_in if kind.endswith('inflow') else flows_out
    own = {} if how in ('none', 'empty argument') else flows[a]
    left = limit - f(own) - f(flows[b])
    target = INF if kind.endswith('inflow') else 0
    if c.flag('balance limit'):
        kw['balance_limit'] = target = c.real('balance_limit')
    if target != INF:
        left = at_most(left, target - balance - sum(own.values()), kind)
    got = getattr(a, kind + 's')({1: 1}, group_transactions=given, **kw)
    c.eq('what is left', got[1], clamp(kind, left))
    for x in (a, b, d):
        c.eq('nothing was made', len(x.transactions), 0)


@contract('P15', max_paths=20000)
def all_limits_at_once(c):
    """An account shares each of its limits with the accounts linked by
    that limit: whoever shares several shares each on its own."""
    p = a_person(c)
    limits = {k: limit_of(c, k, k) for k in KINDS}
    balance = c.real('balance')
    a = LinkedLimitAccount(
        owner=p, initial_year=Y, balance=balance, rate=0,
        **{k + '_link': (p, k) for k in KINDS},
        **{k + '_limit': limits[k] for k in KINDS})
    shared = c.choice('shared', [[k] for k in KINDS] + [
        ['max_inflow', 'min_inflow'], ['max_inflow', 'max_outflow'],
        ['min_inflow', 'min_outflow'], KINDS])
    ins, outs = c.nonneg('in'), c.real('out', hi=0)
    b = LinkedLimitAccount(
        owner=p, initial_year=Y, balance=0, rate=0,
        inputs={'transactions': {Y: {0: ins, 0.5: outs}}},
        **{k + '_link': (p, k) for k in shared})
    for k in KINDS:
        group = getattr(a, k + '_link').group
        c.check('all who share it', group == (
            {a, b} if k in shared else {a}))
        c.eq('the limit', getattr(a, k + '_limit'), limits[k])
        if k in shared:
            c.eq('the limit of both', getattr(b, k + '_limit'), limits[k])
        left = limits[k]
        if k in shared:
            left = left - (ins if k.endswith('inflow') else outs)
        target = INF if k.endswith('inflow') else 0
        if target != INF:
            left = at_most(left, target - balance, k)
        c.eq('what is left', getattr(a, k + 's')({1: 1})[1], clamp(k, left))


@contract('P15', kinds=('bounded',))
def links(c):
    """Links with the same owner and token are equal and share one record;
    others do not; what is linked is linked until it is taken out."""
    p, q = a_person(c, 'p'), a_person(c, 'q')
    one, two = AccountLink((p, 't')), AccountLink([p, 't'])
    others = [AccountLink((q, 't')), AccountLink((p, 'u'))]
    c.check('equal links', one == two and hash(one) == hash(two))
    for o in others:
        c.check('different links', not one == o)
    x = c.real('x')
    (one if c.flag('through one') else two).data = x
    c.eq('shared data', one.data, x)
    c.eq('shared data', two.data, x)
    for o in others:
        c.check('data of others', o.data == {})
    a = Account(p, initial_year=Y, balance=0, rate=0)
    one.link_account(a)
    c.check('linked', two.is_linked(a) and a in two.group)
    for o in others:
        c.check('not linked elsewhere', not o.is_linked(a))
    three = AccountLink(two)
    c.eq('a link made from a link', three.data, x)
    two.unlink_account(a)
    c.check('unlinked', not one.is_linked(a) and not three.group)
    one.unregister()
    c.check('gone for all', not two.is_registered() and two.data is None)
    c.check('others remain', all(o.is_registered() for o in others))
    c.raises('only pairs', lambda: AccountLink(5), TypeError)


@contract('P15', kinds=('bounded',))
def records_of_links(c):
    """The record of a link begins as its maker says (a link made from a
    link: as that one's says), once for all links with the same owner and
    token, and again only after it was discarded; nothing can be linked or
    recorded in between."""
    p, x, y = a_person(c, 'p'), c.real('x'), c.real('y')
    one = AccountLink((p, 't'), default_factory=lambda: x)
    c.eq('the record begins', one.data, x)
    two = AccountLink((p, 't'), default_factory=lambda: y)
    c.eq('only once', two.data, x)
    three = AccountLink(one)
    four = AccountLink(one, default_factory=lambda: y)
    for link in (three, four):
        c.check('the same link', link == one)
        c.eq('the same record', link.data, x)
    a = Account(p, initial_year=Y, balance=0, rate=0)
    one.link_account(a)
    one.register()
    c.check('registered already', three.is_linked(a))
    one.data = z = c.real('z')
    c.eq('what is recorded', four.data, z)
    one.unregister()
    one.unregister()
    for link in (one, two, three, four):
        c.check('no record', not link.is_registered() and
                link.data is None and link.group is None)
        c.raises('nothing to link to', lambda: link.link_account(a), KeyError)
        c.raises('nothing to record in', lambda: setattr(link, 'data', 1),
                 AttributeError)
        c.check('still none', not link.is_registered())
    who, want = c.choice('again by', [(0, x), (1, y), (2, x), (3, y)])
    (one, two, three, four)[who].register()
    for link in (one, two, three, four):
        c.eq('the record begins again', link.data, want)
        c.check('without accounts', not link.group)
