"""Allocation of money to accounts respects limits and priorities."""
from pyvc.ctx import contract
import networkx
from forecaster.accounts import Account, Debt, LimitTuple
from forecaster.person import Person
from forecaster.strategy.transaction import base, graph
from forecaster.strategy.debt_payment import DebtPaymentStrategy
from forecaster.strategy.transaction import (
    TransactionNode, TransactionStrategy, TransactionTraversal)

TRUSTED = [
    'assumed contract of networkx.max_flow_min_cost: some maximum flow '
    'of whole units through the graph it is given, at the least total '
    'weight (stated by the prices of an optimal dual solution); the '
    'real networkx runs in the evaluations']
ASSUMPTIONS = [
    'amounts, limits and minimums are whole numbers, so multiples of '
    'the precision (0.00001); results are compared up to 0.001 since '
    'flows are truncated at every edge',
    'accounts of the shapes below take (or give) any amount between a '
    'least and a most at the one time asked for; that real accounts do '
    'so is decided under P06 and P15',
    'shapes of priority structures are those of the contracts, up to '
    'three or four accounts; other structures are evaluated on random '
    'samples']

# Amounts of flow are truncated to multiples of EPSILON at every edge.
SLACK = 0.001
WHEN = 0.5


class Flows(object):
    """The assumed contract of networkx's max_flow_min_cost, in place of
    it: some maximum flow of whole units at the least cost.

    Optimality is stated by prices of the nodes (the dual solution), with
    a return edge from the sink to the source whose (negative) cost
    exceeds that of every path. A node with one edge in and one out passes
    on what it gets, so such chains have one amount of flow."""

    def __init__(self, c):
        self.c = c
        self.n = 0

    @staticmethod
    def chains(graph, source, sink):
        inner = [v for v in graph.nodes
                 if v != source and v != sink and
                 graph.in_degree(v) == 1 and graph.out_degree(v) == 1]
        for v in graph.nodes:
            if v in inner:
                continue
            for w in graph.successors(v):
                chain = [(v, w)]
                while w in inner:
                    u, w = w, list(graph.successors(w))[0]
                    chain.append((u, w))
                yield v, w, chain

    def solve(self, graph, source, sink, capacity='capacity',
              weight='weight'):
        c = self.c
        self.n += 1
        f = {v: {} for v in graph.nodes}
        into = {v: [] for v in graph.nodes}
        out = {v: [] for v in graph.nodes}
        price = {}
        facts = []
        beyond = 1 + sum([d.get(weight, 0)
                          for _, _, d in graph.edges(data=True)])
        for i, (u, v, chain) in enumerate(self.chains(graph, source, sink)):
            for node in (u, v):
                if node not in price:
                    price[node] = 0 if node == source else c.real(
                        'price%s.%s' % (self.n, len(price)))
            x = c.integer('flow%s.%s' % (self.n, i), lo=0)
            cost = price[u] - price[v] + sum(
                [graph[m][n].get(weight, 0) for m, n in chain])
            free = [cost >= 0]
            for m, n in chain:
                f[m][n] = x
                if capacity in graph[m][n]:
                    facts.append(x <= graph[m][n][capacity])
                    free.append(x == graph[m][n][capacity])
            out[u].append(x)
            into[v].append(x)
            facts.append(c.any_of(*free))
            facts.append(c.any_of(x == 0, cost <= 0))
        for node in (source, sink):
            if node not in price:       # (it has no edges)
                price[node] = 0 if node == source else c.real(
                    'price%s.%s' % (self.n, len(price)))
        for v in price:
            if v != source and v != sink:
                facts.append(sum(into[v]) == sum(out[v]))
        # the return edge
        back = price[sink] - beyond
        facts.append(back >= 0)
        facts.append(c.any_of(sum(out[source]) == 0, back <= 0))
        c.assume(c.all_of(*facts))
        return f

    def __enter__(self):
        self.was = []
        if not self.c.symbolic:
            return self
        flow = type('flow', (), {'max_flow_min_cost': self.solve})
        stand_in = type('networkx', (), {
            'DiGraph': networkx.DiGraph,
            'max_flow_min_cost': self.solve,
            'algorithms': type('algorithms', (), {'flow': flow})})
        for module in (graph, base):
            for name, value in list(vars(module).items()):
                if value is networkx:
                    new = stand_in
                elif value is networkx.max_flow_min_cost:
                    new = self.solve
                else:
                    continue
                self.was.append((module, name, value))
                setattr(module, name, new)
        return self

    def __exit__(self, *a):
        for module, name, value in self.was:
            setattr(module, name, value)


class Slot(object):
    """Any leaf: takes (or gives) between some amounts."""

    def __init__(self, sign, least, most):
        self.sign, self.least, self.most = sign, least, most

    group = None
    number = 0

    def __hash__(self):
        # (so that sets are in the same order in every run)
        return self.number

    def __eq__(self, other):
        return self is other

    def min_inflows(self, timing, transaction_limit=None):
        return {WHEN: self.sign * self.least if transaction_limit is None
                else transaction_limit}

    def max_inflows(self, timing, transaction_limit=None):
        return {WHEN: self.sign * self.most if transaction_limit is None
                else transaction_limit}

    min_outflows, max_outflows = min_inflows, max_inflows


class Tree(object):
    """A priority structure over slots, as TransactionTraversal takes it,
    and what the documentation says of how it divides money."""

    def __init__(self, c, sign, minimums=False):
        self.c, self.sign, self.minimums = c, sign, minimums
        self.slots = []

    def slot(self, kind=Slot, **attributes):
        i, c = len(self.slots), self.c
        least = c.integer('least%s' % i, lo=0) if self.minimums else 0
        x = kind(self.sign, least, least + c.integer('room%s' % i, lo=0))
        x.number = i
        for name, value in attributes.items():
            setattr(x, name, value)
        self.slots.append(x)
        return Leaf(x)

    def sharing(self, *leaves):
        """Gives leaves a shared limit."""
        slots = [leaf.slot for leaf in leaves]
        most = self.c.integer('shared', lo=0)
        link = type('link', (), {'group': frozenset(slots)})
        for x in slots:
            x.most, x.group = most, slots
            if self.minimums:
                self.c.assume(x.least <= most)
            if self.sign > 0:
                x.max_inflow_link = link
            else:
                x.max_outflow_link = link
        if self.minimums:
            self.c.assume(sum([x.least for x in slots]) <= most)

    def limit(self):
        n, self.limits = self.limits, self.limits + 1
        return self.sign * self.c.integer('limit%s' % n, lo=0)

    limits = 0

    def mixed(self):
        """The accounts, in another order."""
        return self.slots[1:] + self.slots[:1]

    def limited(self, node):
        """The node with a limit on what passes through it."""
        limit = self.limit()
        node.limit = self.sign * limit
        node.priority = TransactionNode(
            node.priority, limits=LimitTuple(max_inflow=limit)
            if self.sign > 0 else LimitTuple(max_outflow=limit))
        return node

    def ordered(self, *kids):
        return Ordered(kids)

    def weighted(self, *pairs):
        return Weighted(pairs)

    def allocate(self, node, total):
        self.record(lambda available: TransactionTraversal(node.priority)(
            available, assign_min=self.minimums), total)

    def record(self, allocate, total):
        with Flows(self.c):
            result = allocate({WHEN: self.sign * total})
        for x in self.slots:
            x.got = self.sign * sum(result[x].values()) \
                if x in result else 0
        for x in result:
            self.c.check('only accounts get money', any(
                [x is one for one in self.slots]))

    def fair(self, node, total):
        """The division of money is as documented."""
        c = self.c
        got, least, most = node.got(), node.least(), node.most()
        for x in self.slots:
            c.le('no account exceeds its limit', x.got, x.most)
            c.le('required minimums are met', x.least, x.got + SLACK)
        if self.minimums and self.sign < 0:
            c.check('no more than what is asked for or required', c.any_of(
                c.most(got, total + SLACK), c.most(got, least + SLACK)))
        else:
            c.le('no more than what is available', got, total)
        c.check('all is placed unless every account is full', c.any_of(
            c.most(total, got + SLACK), node.full(c)))
        node.fair(c)


class Leaf(object):
    def __init__(self, slot):
        self.slot = self.priority = slot

    def least(self):
        return self.slot.least

    def most(self):
        return self.slot.most

    def got(self):
        return self.slot.got

    def full(self, c):
        x = self.slot
        full = c.most(x.most, x.got + SLACK)
        if x.group:
            # (or the limit that is shared has been reached)
            return c.any_of(full, c.most(
                x.most, sum([one.got for one in x.group]) + SLACK))
        return full

    def fair(self, c):
        x = self.slot
        if x.group:
            c.le('shared limits are not exceeded',
                 sum([one.got for one in x.group]), x.most)


class Parent(Leaf):
    limit = None

    def least(self):
        return sum([kid.least() for kid in self.kids])

    def most(self):
        return sum([kid.most() for kid in self.kids])

    def got(self):
        return sum([kid.got() for kid in self.kids])

    def full(self, c):
        full = c.all_of(*[kid.full(c) for kid in self.kids])
        if self.limit is not None:
            return c.any_of(full, c.most(self.limit, self.got() + SLACK))
        return full

    def fair(self, c):
        if self.limit is not None:
            c.check('limits of groups are respected', c.any_of(
                c.most(self.got(), self.limit + SLACK),
                c.most(self.got(), self.least() + SLACK)))
        for kid in self.kids:
            kid.fair(c)


class Sequence(Parent):
    def __init__(self, kids):
        self.kids = kids

    def fair(self, c):
        for j, later in enumerate(self.kids):
            for earlier in self.kids[:j]:
                c.check('an account is filled before the next', c.any_of(
                    earlier.full(c),
                    c.most(later.got(), later.least() + SLACK)))
        Parent.fair(self, c)


class Ordered(Sequence):
    def __init__(self, kids):
        Sequence.__init__(self, kids)
        self.priority = tuple([kid.priority for kid in kids])


class Shares(Parent):
    def __init__(self, pairs):
        self.kids = [kid for kid, _ in pairs]
        self.pairs = pairs

    def fair(self, c):
        for one, v in self.pairs:
            for other, w in self.pairs:
                if one is not other:
                    c.check('shares are proportional to weights up to '
                            'limits', c.any_of(
                                c.most(one.got() * w,
                                       other.got() * v + SLACK),
                                c.most(one.got(), one.least() + SLACK),
                                other.full(c)))
        Parent.fair(self, c)


class Weighted(Shares):
    def __init__(self, pairs):
        Shares.__init__(self, pairs)
        self.priority = {}
        for kid, weight in pairs:
            self.priority[TransactionNode(kid.priority)] = weight


def divide(name, build, budget=400, minimums=(False, True)):
    """Contracts for one shape of priority structure: all amounts and
    limits, in and out, without and with required minimums."""
    for sign, way in ((1, 'in'), (-1, 'out')):
        for least in minimums:
            def body(c, sign=sign, least=least):
                t = Tree(c, sign, least)
                node = build(t)
                total = c.integer('total', lo=1)
                if least and sign > 0:
                    # (see `shortage` for less)
                    c.assume(sum([x.least for x in t.slots]) <= total)
                t.allocate(node, total)
                t.fair(node, total)
            contract('P18', '%s_%s%s' % (
                name, way, '_minimums' if least else ''),
                kinds=('bounded',), budget=budget,
                note='bounded: one shape of priority structure')(body)


def nested(name, build):
    divide(name, build, minimums=(False,))


divide('ordered', lambda t: t.ordered(t.slot(), t.slot(), t.slot()))
divide('weighted', lambda t: t.weighted((t.slot(), 3), (t.slot(), 2)))
divide('equal', lambda t: t.weighted((t.slot(), 1), (t.slot(), 1)))
divide('ordered_of_ordered', lambda t: t.ordered(
    t.ordered(t.slot(), t.slot()), t.slot()))
nested('ordered_of_weighted', lambda t: t.ordered(
    t.slot(), t.weighted((t.slot(), 1), (t.slot(), 2))))
nested('weighted_before_another', lambda t: t.ordered(
    t.weighted((t.slot(), 2), (t.slot(), 1)), t.slot()))
nested('weighted_of_ordered', lambda t: t.weighted(
    (t.ordered(t.slot(), t.slot()), 1), (t.slot(), 2)))
nested('weighted_of_weighted', lambda t: t.weighted(
    (t.weighted((t.slot(), 1), (t.slot(), 3)), 1), (t.slot(), 2)))

# Groups without accounts.
nested('nobody', lambda t: t.ordered())
nested('nobody_weighted', lambda t: t.weighted())
nested('empty_group', lambda t: t.ordered(t.weighted(), t.slot()))
nested('empty_share', lambda t: t.weighted((t.ordered(), 1), (t.slot(), 2)))


# Limits on what passes through a group of accounts.
divide('limited', lambda t: t.ordered(
    t.limited(t.ordered(t.slot(), t.slot())), t.slot()))
nested('limited_weighted', lambda t: t.ordered(
    t.limited(t.weighted((t.slot(), 1), (t.slot(), 2))), t.slot()))
nested('limited_share', lambda t: t.weighted(
    (t.limited(t.ordered(t.slot(), t.slot())), 1), (t.slot(), 1)))


def shared(build):
    def tree(t):
        leaves = [t.slot(), t.slot(), t.slot()]
        t.sharing(*leaves[:2])
        return build(t, *leaves)
    return tree


# Limits that are shared between accounts.
divide('shared', shared(lambda t, x, y, z: t.ordered(x, z, y)))
nested('shared_weighted', shared(lambda t, x, y, z: t.ordered(
    t.weighted((x, 1), (y, 2)), z)))
nested('shared_in_weighted', shared(lambda t, x, y, z: t.weighted(
    (t.ordered(x, y), 1), (z, 1))))


def shortage(name, build):
    """What is available doesn't cover the required minimums."""
    def body(c):
        t = Tree(c, 1, True)
        node = build(t)
        total = c.integer('total', lo=1)
        c.assume(total < sum([x.least for x in t.slots]))
        t.allocate(node, total)
        for x in t.slots:
            x.least, x.most = 0, x.least
        t.fair(node, total)
    contract('P18', 'shortage_' + name, kinds=('bounded',), budget=300,
             note='bounded: one shape of priority structure')(body)


shortage('ordered', lambda t: t.ordered(t.slot(), t.slot()))
shortage('weighted', lambda t: t.weighted((t.slot(), 1), (t.slot(), 2)))


# Accounts are named by their types in a strategy's weights.
class First(Slot):
    pass


class Second(Slot):
    pass


class Special(Second):
    """Also a Second."""


class VerySpecial(Special):
    """Also a Special."""


class Unnamed(Slot):
    """Has no weight."""


class Owing(Debt):
    """Any debt: what it owes, its rate and what it takes are given."""
    balance = rate = group = None
    number = 0

    def __init__(self, sign, least, most):
        # pylint: disable=super-init-not-called
        self.sign, self.least, self.most = sign, least, most

    min_inflows = min_outflows = Slot.min_inflows
    max_inflows = max_outflows = Slot.max_inflows

    __hash__, __eq__ = Slot.__hash__, Slot.__eq__


def strategy(name, build, budget=300, least=False, ways=('in', 'out')):
    """Contracts for a strategy, in and out: `build` gives the accounts
    (with slots of a tree), the strategy, and the priority structure which
    the strategy is documented to stand for."""
    for sign, way in ((1, 'in'), (-1, 'out')):
        if way not in ways:
            continue

        def body(c, sign=sign):
            t = Tree(c, sign, least)
            allocate, node = build(t)
            total = c.integer('total', lo=1)
            if least and sign > 0:
                c.assume(sum([x.least for x in t.slots]) <= total)
            t.record(allocate, total)
            for x in t.slots:
                if isinstance(x, Unnamed):
                    c.eq('accounts with no weight get nothing', x.got, 0)
            t.slots = [x for x in t.slots if not isinstance(x, Unnamed)]
            t.fair(node, total)
        contract('P18', '%s_%s' % (name, way), kinds=('bounded',),
                 budget=budget,
                 note='bounded: one set of accounts')(body)


def by_order(t):
    a, b, d = t.slot(First), t.slot(Second), t.slot(Second)
    t.slot(Unnamed)
    v = t.c.real('order of First', lo=0, hi=3)
    w = t.c.real('order of Second', lo=0, hi=3)
    t.c.assume(v != w)
    run = TransactionStrategy('Ordered', {'Second': w, 'First': v})
    accounts, pair = t.mixed(), t.weighted((b, 1), (d, 1))
    return (lambda available: run(available, accounts),
            t.ordered(pair, a) if w < v else t.ordered(a, pair))


def by_weight(t):
    a, b = t.slot(First), t.slot(Second)
    t.slot(Unnamed)
    v, w = t.c.choice('weights', [(1, 3), (0.5, 0.75), (2, 2)])
    run = TransactionStrategy('Weighted', {'Second': w, 'First': v})
    accounts = t.mixed()
    return (lambda available: run(available, accounts),
            t.weighted((a, v), (b, w)))


def by_class(t):
    """An account's own type counts before those it is derived from, and
    the nearest of those before the others."""
    own = t.c.flag('own')
    a = t.slot(t.c.choice('type', [Special, VerySpecial]))
    b, d = t.slot(Second), t.slot(First)
    weights = {'Second': 2, 'First': 3}
    if own:
        weights['Special'] = 1
    run = TransactionStrategy('Ordered', weights)
    accounts = t.mixed()
    return (lambda available: run(available, accounts),
            t.ordered(a, b, d) if own else
            t.ordered(t.weighted((a, 1), (b, 1)), d))


strategy('strategy_ordered', by_order)
strategy('strategy_weighted', by_weight)
strategy('strategy_class', by_class)


def owing(t, n):
    c, debts = t.c, []
    for i in range(n):
        debt = t.slot(Owing, rate=c.real('rate%s' % i, lo=0, hi=1),
                      balance=-c.nonneg('owing%s' % i))
        if debt.slot.balance >= 0:
            # paid off
            c.assume(debt.slot.most == 0)
        debts.append(debt)
    return debts


class Debts(Parent):
    """Debts in the order in which they are paid (equals in any order)."""

    def __init__(self, kids, way):
        self.kids, self.way = kids, way

    def before(self, one, other):
        if self.way == 'Avalanche':
            return one.slot.rate > other.slot.rate
        return one.slot.balance > other.slot.balance

    def fair(self, c):
        for one in self.kids:
            for other in self.kids:
                if one is not other and self.before(one, other):
                    c.check('debts are paid in order', c.any_of(
                        one.full(c),
                        c.most(other.got(), other.least() + SLACK)))


def by_debts(way, threshold, n):
    """High-interest debts come before all else, in order; low-interest
    ones come where the weights put debts, in order."""
    def build(t):
        c = t.c
        debts = owing(t, n)
        account = t.slot(First)
        limit = c.real('threshold', lo=0, hi=1) if threshold else None
        run = TransactionStrategy(
            'Ordered', {'First': 1, 'Debt': 2}, debt_strategy=way,
            high_interest_threshold=limit)
        high = [debt for debt in debts if threshold
                and debt.slot.balance < 0 and debt.slot.rate >= limit]
        low = [debt for debt in debts
               if not any([debt is one for one in high])]
        accounts = t.mixed()
        return (lambda available: run(available, accounts), Sequence([
            Debts(high, way), account, Debts(low, way)]))
    return build


for method in ('Avalanche', 'Snowball'):
    strategy('strategy_debts_' + method, by_debts(method, True, 2))
    strategy('strategy_low_debts_' + method, by_debts(method, False, 2))


def debt_payments(way):
    def body(c):
        t = Tree(c, 1, True)
        debts = owing(t, 3)
        total = c.integer('total', lo=1)
        c.assume(sum([x.least for x in t.slots]) <= total)
        run = DebtPaymentStrategy(way)
        t.record(lambda available: run(t.mixed(), available), total)
        t.fair(Debts(debts, way), total)
    contract('P18', 'debt_payments_' + way, kinds=('bounded',), budget=300,
             note='bounded: three debts')(body)


debt_payments('Avalanche')
debt_payments('Snowball')


@contract('P18')
def divided_debts(c):
    """Debts are of high interest from the threshold on; those paid off
    and other accounts are not divided."""
    limit = c.real('threshold', lo=0, hi=1)
    run = TransactionStrategy(
        'Ordered', {'Debt': 1}, high_interest_threshold=limit)
    debt = Owing(1, 0, 0)
    debt.rate = c.real('rate', lo=0, hi=1)
    debt.balance = c.real('balance', lo=-1000, hi=1000)
    low, high = run.divide_debts([debt, First(1, 0, 0)])
    owed = debt.balance < 0
    c.check('high', (debt in high) == (owed and debt.rate >= limit))
    c.check('low', (debt in low) == (owed and debt.rate < limit))
    c.check('no others', all([x is debt for x in list(low) + list(high)]))


def by_interest(t):
    """High-interest debts come before shares of the rest."""
    c = t.c
    debts = owing(t, 2)
    account = t.slot(First)
    limit = c.real('threshold', lo=0, hi=1)
    run = TransactionStrategy(
        'Weighted', {'First': 2, 'Debt': 1},
        high_interest_threshold=limit)
    high = [debt for debt in debts
            if debt.slot.balance < 0 and debt.slot.rate >= limit]
    low = [debt for debt in debts
           if not any([debt is one for one in high])]
    rest = [(Debts(low, 'Avalanche'), 1)] if low else []
    accounts = t.mixed()
    return (lambda available: run(available, accounts), Sequence([
        Debts(high, 'Avalanche'), Shares([(account, 2)] + rest)]))


strategy('strategy_debts_weighted', by_interest, ways=('in',))
strategy('strategy_debts_minimums', by_debts('Avalanche', True, 2),
         least=True, ways=('in',))
strategy('strategy_three_debts', by_debts('Snowball', True, 3),
         ways=('in',))


@contract('P18', kinds=('bounded',), note='bounded: one structure')
def listed_again(c):
    """An account that is listed again after a group with a limit."""
    sign = c.choice('sign', [1, -1])
    t = Tree(c, sign)
    x, y, z = t.slot(), t.slot(), t.slot()
    group = t.limited(t.ordered(x, y))
    total = c.integer('total', lo=1)
    t.allocate(t.ordered(group, z, x), total)
    a, b, d = x.slot, y.slot, z.slot
    for one in t.slots:
        c.le('limits', one.got, one.most)
    c.le('no more than what is available', a.got + b.got + d.got, total)
    c.check('all is placed', c.any_of(
        c.most(total, a.got + b.got + d.got + SLACK), c.all_of(
            x.full(c), z.full(c),
            c.any_of(y.full(c), c.most(group.limit, a.got + b.got + SLACK)))))
    c.check('the group before the next', c.any_of(
        c.most(d.got, SLACK), c.most(group.limit, a.got + b.got + SLACK),
        c.all_of(x.full(c), y.full(c))))
    c.check('the next before what is listed again', c.any_of(
        z.full(c), c.most(a.got + b.got, group.limit + SLACK)))


@contract('P18', kinds=('bounded',), note='bounded: one structure')
def minimums_not_assigned(c):
    """Required minimums are ignored when asked to."""
    sign = c.choice('sign', [1, -1])
    t = Tree(c, sign, True)
    node = t.ordered(t.slot(), t.slot())
    total = c.integer('total', lo=1)
    for x in t.slots:
        c.assume(x.least <= x.most)
    t.record(lambda available: TransactionTraversal(node.priority)(
        available, assign_min=False), total)
    t.minimums = False
    for x in t.slots:
        x.least = 0
    t.fair(node, total)


@contract('P18', kinds=('bounded',), note='bounded: one structure')
def less_than_available(c):
    """A total that is given counts instead of the sum available."""
    sign = c.choice('sign', [1, -1])
    t = Tree(c, sign)
    node = t.ordered(t.slot(), t.slot())
    total = c.integer('total', lo=1)
    other = c.real('available', lo=-1000, hi=1000)
    t.record(lambda available: TransactionTraversal(node.priority)(
        {WHEN: other}, total=sum(available.values())), total)
    t.fair(node, total)


class Given(object):
    """A leaf without any of an account's methods."""
    group = None

    def __init__(self, sign, least, most):
        self.sign, self.least, self.most = sign, least, most
        self.number = 0

    __hash__, __eq__ = Slot.__hash__, Slot.__eq__

    def take_least(self, timing, transaction_limit=None):
        return Slot.min_inflows(self, timing, transaction_limit)

    def take_most(self, timing, transaction_limit=None):
        return Slot.max_inflows(self, timing, transaction_limit)


@contract('P18', kinds=('bounded',), note='bounded: one structure')
def methods_given(c):
    """Leaves of any type, with methods that say what they take and which
    of them share limits."""
    sign = c.choice('sign', [1, -1])
    t = Tree(c, sign, True)
    x, y, z = [t.slot(Given) for _ in range(3)]
    t.sharing(x, y)
    node = t.ordered(x, z, y)
    total = c.integer('total', lo=1)
    if sign > 0:
        c.assume(sum([one.least for one in t.slots]) <= total)
    least, most = lambda one: one.take_least, lambda one: one.take_most
    linked = lambda one: one.group and set(one.group)
    alone = lambda one: None
    t.record(lambda available: TransactionTraversal(
        node.priority,
        transaction_methods=LimitTuple(least, most, least, most),
        group_methods=LimitTuple(alone, linked, alone, linked))(
            available), total)
    t.fair(node, total)


@contract('P18')
def nothing_to_allocate(c):
    """No transactions when nothing is available."""
    t = Tree(c, 1)
    node = t.ordered(t.slot(), t.slot())
    limit = TransactionTraversal(node.priority).precision
    amount = c.real('amount', lo=-limit, hi=limit)
    c.assume(c.all_of(c.most(-limit, amount), c.most(amount, limit)))
    c.check('none', not TransactionTraversal(node.priority)({WHEN: amount}))


class Limited(Account):
    """A real account with any limits on what goes in and out."""
    sign = number = least = most = 0
    group = None
    max_inflow_limit = property(lambda self: self.most)
    min_inflow_limit = property(lambda self: self.least)
    max_outflow_limit = property(lambda self: -self.most)
    min_outflow_limit = property(lambda self: -self.least)


class RealTree(Tree):
    """Any structure over real accounts (evaluated on random ones)."""

    def __init__(self, c, sign, minimums):
        Tree.__init__(self, c, sign, minimums)
        self.owner = Person(2000, 'Owner', '1 January 1970',
                            retirement_date='31 December 2040')

    def slot(self, kind=None, **attributes):
        i, c = len(self.slots), self.c
        x = Limited(self.owner, balance=10 ** 7, rate=0)
        x.most = c.choice('most%s' % i, [0, 10, 50, 100, 200, 10 ** 6])
        x.least = min(x.most, c.choice('least%s' % i, [
            0, 0, 10, 30, 120])) if self.minimums else 0
        self.slots.append(x)
        return Leaf(x)

    n = 0

    def any(self, depth):
        c = self.c
        self.n += 1
        n = self.n
        if not depth or c.choice('leaf%s' % n, [False, False, True]):
            return self.slot()
        kids = [self.any(depth - 1)
                for _ in range(c.choice('kids%s' % n, [1, 2, 2, 3]))]
        if c.flag('ordered%s' % n):
            node = self.ordered(*kids)
        else:
            node = self.weighted(*[
                (kid, c.choice('weight%s.%s' % (n, i), [1, 1, 2, 3, 0.5]))
                for i, kid in enumerate(kids)])
        if not self.minimums and c.choice(
                'limited%s' % n, [True, False, False, False]):
            # (whole multiples of the weights don't divide it evenly)
            limit = c.choice('limit%s' % n, [0, 20, 100, 333])
            node.limit = limit
            node.priority = TransactionNode(
                node.priority, limits=LimitTuple(
                    max_inflow=limit, max_outflow=-limit))
        return node

    def record(self, allocate, total):
        result = allocate({
            0: self.sign * total / 4, 0.5: self.sign * total * 3 / 4})
        for x in self.slots:
            x.got = self.sign * sum(result[x].values()) \
                if x in result else 0
            self.c.check('flows are in one direction', all([
                self.sign * v >= 0 for v in result[x].values()])
                         if x in result else True)


@contract('P18', kinds=('random',), trials=400,
          note='evaluated on random structures of real accounts')
def random_structures(c):
    t = RealTree(c, c.choice('sign', [1, -1]), c.flag('minimums'))
    node = t.ordered(t.any(c.choice('depth', [1, 2, 3])))
    total = c.choice('total', [1, 40, 100, 250, 1000, 10 ** 5])
    if t.sign > 0 and sum([x.least for x in t.slots]) > total:
        c.assume(False)
    t.allocate(node, total)
    t.fair(node, total)


@contract('P18', kinds=('bounded',), note='bounded: no accounts')
def no_accounts(c):
    """Strategies make no transactions where there are no accounts, or none
    that they have a weight for, whatever is available."""
    t = Tree(c, c.choice('way', [1, -1]))
    run = TransactionStrategy(c.choice('strategy', ['Ordered', 'Weighted']),
                              c.choice('weights', [{}, {'First': 1}]))
    accounts = set()
    if c.flag('no weight'):
        t.slot(Unnamed)
        accounts = set(t.slots)
    with Flows(c):
        got = run({WHEN: t.sign * c.integer('total', lo=0)}, accounts)
    c.eq('nothing moves', sum([sum(x.values()) for x in got.values()]), 0)
