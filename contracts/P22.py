"""Building and running a forecast does not alter what it is given."""
import collections
from pyvc.ctx import contract
from forecaster.accounts import Account, Debt, LinkedLimitAccount
from forecaster.canada.forecaster import ForecasterCanada
from forecaster.canada.settings import SettingsCanada
from forecaster.forecaster import Forecaster, Parameter
from forecaster.person import Person
from forecaster.scenario import Scenario
from forecaster.settings import Settings
from forecaster.strategy import (
    AllocationStrategy, LivingExpensesStrategy, TransactionStrategy)
from forecaster.tax import Tax
from contracts.common import Y
from contracts.P17 import Given, GivenTax

ASSUMPTIONS = [
    'the strategies that decide contributions and withdrawals are given '
    '(see P18 for real ones)']

LEAF = (str, bytes, type(None), type, type(lambda: 0), type(len))


def is_node(x):
    """Whether x has parts of its own."""
    if isinstance(x, LEAF):
        return False
    if isinstance(x, (dict, list, tuple, set, frozenset)):
        return True
    return type(x).__module__.startswith(('forecaster', 'contracts')) and \
        hasattr(x, '__dict__')


def parts(x):
    """The parts of x, by name."""
    if isinstance(x, dict):
        return dict(x.items())
    if isinstance(x, (list, tuple)):
        return dict(enumerate(x))
    if isinstance(x, (set, frozenset)):
        return {id(y): y for y in x}
    return dict(vars(x))


class State:
    """Everything that can be reached from some objects, as it is now."""

    def __init__(self, *roots):
        self.all = {}
        todo = list(roots)
        while todo:
            x = todo.pop()
            if not is_node(x) or id(x) in self.all:
                continue
            inside = parts(x)
            self.all[id(x)] = x, inside
            todo.extend(inside.values())
            if isinstance(x, dict):
                todo.extend(inside.keys())

    def unchanged(self, c, name):
        """Nothing has changed since."""
        for x, before in self.all.values():
            now = parts(x)
            for k in before:
                c.check('%s: nothing removed' % name, k in now)
                old, new = before[k], now[k]
                if old is new:
                    continue
                c.check('%s: nothing replaced' % name,
                        not is_node(old) and not is_node(new))
                c.check('%s: values' % name, old == new)
            for k in now:
                if k not in before:
                    # Reading from a defaultdict adds its default value.
                    c.check('%s: nothing added' % name,
                            isinstance(x, collections.defaultdict) and
                            not is_node(now[k]) and
                            now[k] == x.default_factory())


class World:
    """People, accounts and debts that refer to each other."""

    def __init__(self, c, years=2):
        self.c, self.amounts = c, {}
        self.scenario = Scenario(
            Y, years, inflation=c.real('inflation', lo=0, hi=0.1),
            stock_return=[c.real('stock return %d' % i, lo=0, hi=0.1)
                          for i in range(years)], bond_return=0)
        self.tax = GivenTax(c.real('withholding rate', lo=0.1, hi=0.2),
                            c.real('tax rate', lo=0.3, hi=0.4))
        self.p = Person(Y, 'A', '1970', '2100', tax_treatment=self.tax,
                        gross_income=c.real('income of A', lo=5e4, hi=9e4), raise_rate=0)
        self.q = Person(Y, 'B', '1960', '2100', tax_treatment=self.tax,
                        gross_income=c.real('income of B', lo=4e4, hi=5e4),
                        raise_rate={Y + i: 0 for i in range(9)},
                        spouse=self.p)
        self.strategy = AllocationStrategy(
            'n-age', target=100, adjust_for_retirement_plan=False)
        rate = self.strategy.rate_function(self.p, self.scenario)
        self.a = Account(self.p, balance=c.real('balance', lo=1e3, hi=2e3), rate=rate)
        self.b, self.l = [LinkedLimitAccount(
            owner, balance=c.real('balance %d' % i, lo=1e3, hi=2e3), rate=0,
            max_inflow_link=(self.p, 'room'),
            max_inflow_limit=c.real('room %d' % i, lo=1e3, hi=2e3))
            for i, owner in enumerate([self.p, self.q])]
        self.d = Debt(self.q, balance=c.real('debt', lo=100, hi=200), rate=0,
                      minimum_payment=c.real('minimum payment', lo=1, hi=5))
        self.people = {self.p, self.q}
        self.accounts = {self.a, self.b, self.l}
        self.debts = {self.d}
        for i, x in enumerate([self.p, self.q, self.a, self.b, self.l,
                               self.d]):
            x.label = i     # so that copies can be told apart
        self.spending = Given(self.spend)
        self.saving, self.taking = Given(self.save), Given(self.take)

    def amount(self, name):
        # Such amounts that every one of them can be afforded.
        if name not in self.amounts:
            self.amounts[name] = self.c.real(name, lo=10, hi=20)
        return self.amounts[name]

    def spend(self, available, accounts, year):
        return self.amount('spent in %d' % year)

    def save(self, available, accounts, year):
        return {x: {0.5: self.amount('into %d in %d' % (
            x.label, x.this_year))} for x in accounts}

    def take(self, available, accounts, year):
        return {x: {0.5: -self.amount('from %d in %d' % (
            x.label, x.this_year))} for x in accounts if x.label == 4}

    def forecaster(self, own=False, **kwargs):
        settings = Settings()
        settings.initial_year, settings.num_years = Y, 2
        if own:     # what there is no need to be given
            settings.living_expenses_strategy = 'Constant living expenses'
            settings.living_expenses_base_amount = self.amount('base')
            settings.tax_brackets = {
                Y: {0: self.c.real('first bracket', lo=0.1, hi=0.2),
                    30000: self.c.real('second bracket', lo=0.3, hi=0.4)}}
            kwargs = dict(scenario=None, living_expenses_strategy=None,
                          tax_treatment=None)
        return Forecaster(**dict(dict(
            settings=settings, scenario=self.scenario,
            living_expenses_strategy=self.spending,
            saving_strategy=self.saving, withdrawal_strategy=self.taking,
            tax_treatment=self.tax), **kwargs))

    def run(self, forecaster):
        return forecaster.run_forecast(self.people, self.accounts, self.debts)


@contract('P22', kinds=('bounded',), max_paths=20000, budget=400)
def inputs_left_alone(c):
    """Nothing that is given, and nothing that can be reached from it, is
    changed by running a forecast."""
    w = World(c)
    f = w.forecaster(own=c.flag('own'))
    before = State(f, w.people, w.accounts, w.debts)
    w.run(f)
    before.unchanged(c, 'after one run')
    w.run(f)
    before.unchanged(c, 'after another')


def by_label(xs):
    return {x.label: x for x in xs}


@contract('P22', kinds=('bounded',), max_paths=20000, budget=400)
def the_same_again(c):
    """Another run gives the same results."""
    w = World(c)
    f = w.forecaster(own=c.flag('own'))
    one, two = w.run(f), w.run(f)
    for place in (lambda x: x, lambda x: x.income_forecast,
                  lambda x: x.living_expenses_forecast,
                  lambda x: x.saving_forecast,
                  lambda x: x.withdrawal_forecast, lambda x: x.tax_forecast,
                  lambda x: by_label(x.people)[0],
                  lambda x: by_label(x.people)[1],
                  lambda x: by_label(x.assets)[2],
                  lambda x: by_label(x.assets)[3],
                  lambda x: by_label(x.assets)[4],
                  lambda x: by_label(x.debts)[5]):
        x, y = place(one), place(two)
        c.check('another object', x is not y)
        c.check('last year', x.this_year == y.this_year == Y + 1)
        for name in sorted(n for n in dir(type(x))
                           if n.endswith('_history')):
            h, k = getattr(x, name), getattr(y, name)
            c.check('years of %s' % name, list(h) == list(k))
            for year in h:
                same(c, name, h[year], k[year])
    # and both did what was to be done:
    for f in (one, two):
        a, b = by_label(f.assets)[2], by_label(f.assets)[4]
        c.eq('money in', a.transactions_history[Y][0.5],
             w.amounts['into 2 in %d' % Y])
        c.eq('money in and out', sum(b.transactions.values()),
             w.amounts['into 4 in %d' % (Y + 1)]
             - w.amounts['from 4 in %d' % (Y + 1)])


def same(c, name, x, y):
    """Two results are the same."""
    if isinstance(x, dict):
        for k in x:
            if hasattr(k, 'label'):
                k2 = [z for z in y if getattr(z, 'label', None) == k.label]
                c.check(name + ': entries', len(k2) == 1)
                same(c, name, x[k], y[k2[0]])
            elif not hasattr(k, '__dict__') and not isinstance(k, dict):
                c.check(name + ': entries', k in y)
                same(c, name, x[k], y[k])
    elif isinstance(x, (set, frozenset, list, tuple)):
        c.check(name + ': size', len(x) == len(y))
    elif not isinstance(x, LEAF) and not hasattr(x, 'this_year') \
            and not hasattr(x, '__dict__'):
        c.eq(name, x, y)


@contract('P22', kinds=('bounded',), max_paths=20000, budget=400)
def copies_agree(c):
    """Every part of a forecast works with the same copies, which refer to
    each other as the originals do."""
    w = World(c)
    f = w.run(w.forecaster())
    people, accounts = by_label(f.people), by_label(f.assets)
    debts = by_label(f.debts)
    c.check('everyone and everything', set(people) == {0, 1} and
            set(accounts) == {2, 3, 4} and set(debts) == {5})
    new = list(people.values()) + list(accounts.values()) + \
        list(debts.values())
    old = [w.p, w.q, w.a, w.b, w.l, w.d]
    c.check('copies', not any(x is y for x in new for y in old))
    p, q = people[0], people[1]
    c.check('spouses', p.spouse is q and q.spouse is p)
    c.check('owners', all(x.owner is o for x, o in [
        (accounts[2], p), (accounts[3], p), (accounts[4], q),
        (debts[5], q)]))
    c.check('accounts of people', p.accounts == {accounts[2], accounts[3]}
            and q.accounts == {accounts[4], debts[5]})
    c.check('linked accounts',
            accounts[3].max_inflow_link.group == {accounts[3], accounts[4]}
            and accounts[3].max_inflow_link.owner is p
            and accounts[4].max_inflow_link.owner is p
            and p.data['room'].group == {accounts[3], accounts[4]})
    c.check('rates depend on the copy',
            accounts[2].rate_callable.person is p)
    for part in (f.income_forecast, f.living_expenses_forecast,
                 f.withdrawal_forecast, f.tax_forecast):
        c.check('people of each part', part.people == {p, q})
    c.check('accounts of each part',
            f.saving_forecast.retirement_accounts == set(accounts.values())
            and f.saving_forecast.debt_accounts == {debts[5]}
            and f.withdrawal_forecast.accounts == set(accounts.values()))
    c.check('all in the same year',
            all(x.this_year == Y + 1 for x in new))


@contract('P22', kinds=('bounded',), max_paths=20000, budget=400)
def given_parameters(c):
    """A forecast uses the parameters given; others are built from the
    settings, for that forecast only."""
    w = World(c)
    names = ['scenario', 'living_expenses_strategy', 'saving_strategy',
             'withdrawal_strategy', 'tax_treatment']
    given = [w.scenario, w.spending, w.saving, w.taking, w.tax]
    how = c.choice('given by', ['argument', 'attribute'])
    if how == 'argument':
        f = w.forecaster()
    else:
        f = Forecaster(settings=Settings())
        for name, x in zip(names, given):
            setattr(f, name, x)
    for name, x in zip(names, given):
        c.check('given parameters', f.get_param(name) is x and
                f.get_param(Parameter(name)) is x)
    result = w.run(f)
    used = [result.scenario,
            result.living_expenses_forecast.living_expenses_strategy,
            result.saving_forecast.transaction_strategy,
            result.withdrawal_forecast.transaction_strategy,
            result.tax_forecast.tax_treatment]
    for name, x, y in zip(names, given, used):
        c.check('given %s used' % name, x is y)
        c.check('given %s kept' % name, getattr(f, name) is x)


# ------------------------------------------------ building from settings
def settings(c):
    """Settings of every kind of parameter."""
    s = Settings()
    vals = {}
    for name, v in [
            ('initial_year', Y), ('num_years', 3),
            ('inflation', c.real('inflation', lo=0, hi=0.1)),
            ('stock_return', c.real('stock return', lo=0, hi=0.1)),
            ('bond_return', c.real('bond return', lo=0, hi=0.1)),
            ('other_return', c.real('other return', lo=0, hi=0.1)),
            ('management_fees', c.real('fees', lo=0, hi=0.1)),
            ('living_expenses_strategy', 'Percentage of net income'),
            ('living_expenses_base_amount', c.nonneg('base amount')),
            ('living_expenses_rate', c.real('rate', lo=0, hi=1)),
            ('living_expenses_inflation_adjust', c.flag('adjust')),
            ('saving_strategy', 'Weighted'),
            ('saving_weights', {'Account': c.pos('saving weight')}),
            ('withdrawal_strategy', 'Ordered'),
            ('withdrawal_weights', {'Account': c.pos('withdrawal weight')}),
            ('allocation_strategy', 'Transition to constant'),
            ('allocation_min_equity', c.real('min equity', lo=0, hi=0.4)),
            ('allocation_max_equity', c.real('max equity', lo=0.5, hi=1)),
            ('allocation_target', c.real('target', lo=0.1, hi=0.9)),
            ('allocation_std_retirement_age', 61),
            ('allocation_risk_trans_period', 13),
            ('allocation_adjust_retirement', c.flag('adjust retirement')),
            ('tax_brackets', {Y: {0: c.real('tax', lo=0, hi=1)}}),
            ('tax_personal_deduction', {Y: c.nonneg('deduction')}),
            ('tax_credit_rate', {Y: c.real('credit', lo=0, hi=1)}),
            ('tax_payment_timing', c.choice('payment', [0, 'end']))]:
        setattr(s, name, v)
        vals[name] = v
    return s, vals


# For each parameter: its type, and for each of its arguments the setting it
# comes from, another value, and how the value is found in the result.
ARGUMENTS = {
    'scenario': (Scenario, [
        ('initial_year', 'initial_year', Y + 7, lambda x: x.initial_year),
        ('num_years', 'num_years', 7, lambda x: x.num_years),
        ('inflation', 'inflation', 0.25, lambda x: x.inflation[Y + 8]),
        ('stock_return', 'stock_return', 0.25,
         lambda x: x.stock_return[Y + 8]),
        ('bond_return', 'bond_return', 0.25, lambda x: x.bond_return[Y + 8]),
        ('other_return', 'other_return', 0.25,
         lambda x: x.other_return[Y + 8]),
        ('management_fees', 'management_fees', 0.25,
         lambda x: x.management_fees[Y + 8])]),
    'living_expenses_strategy': (LivingExpensesStrategy, [
        ('strategy', 'living_expenses_strategy', 'Constant contribution',
         lambda x: x.strategy),
        ('base_amount', 'living_expenses_base_amount', 77,
         lambda x: x.base_amount),
        ('rate', 'living_expenses_rate', 0.75, lambda x: x.rate)]),
    'saving_strategy': (TransactionStrategy, [
        ('strategy', 'saving_strategy', 'Ordered', lambda x: x.strategy),
        ('weights', 'saving_weights', {'Account': 17},
         lambda x: x.weights)]),
    'withdrawal_strategy': (TransactionStrategy, [
        ('strategy', 'withdrawal_strategy', 'Weighted',
         lambda x: x.strategy),
        ('weights', 'withdrawal_weights', {'Account': 17},
         lambda x: x.weights)]),
    'allocation_strategy': (AllocationStrategy, [
        ('strategy', 'allocation_strategy', 'n-age', lambda x: x.strategy),
        ('target', 'allocation_target', 0.6, lambda x: x.target),
        ('min_equity', 'allocation_min_equity', 0.45,
         lambda x: x.min_equity),
        ('max_equity', 'allocation_max_equity', 0.48,
         lambda x: x.max_equity),
        ('standard_retirement_age', 'allocation_std_retirement_age', 71,
         lambda x: x.standard_retirement_age),
        ('risk_transition_period', 'allocation_risk_trans_period', 17,
         lambda x: x.risk_transition_period)]),
    'tax_treatment': (Tax, [
        ('tax_brackets', 'tax_brackets', {Y: {0: 0.75}},
         lambda x: x.tax_brackets(Y)),
        ('personal_deduction', 'tax_personal_deduction', {Y: 77},
         lambda x: x.personal_deduction(Y)),
        ('credit_rate', 'tax_credit_rate', {Y: 0.75},
         lambda x: x.credit_rate(Y)),
        ('payment_timing', 'tax_payment_timing', 0.25,
         lambda x: list(x.payment_timing))])}
TIMED = {0: [0], 'end': [1], 0.25: [0.25]}


def meaning(name, value):
    """What is to be found in the object built."""
    if name == 'tax_payment_timing':
        return TIMED[value]
    if isinstance(value, dict) and Y in value:
        return value[Y]
    return value


def agree(c, name, got, want):
    if isinstance(want, dict):
        c.check(name + ': keys', list(got) == list(want))
        for k in want:
            c.eq(name, got[k], want[k])
    elif isinstance(want, (str, list)):
        c.check(name, got == want)
    else:
        c.eq(name, got, want)


@contract('P22', max_paths=20000)
def built_from_settings(c):
    """Parameters that are not given, and arguments that are not given of
    those that are built, are those of the settings (as they are then); the
    others are those given, by position or name."""
    s, vals = settings(c)
    f = Forecaster(settings=s)
    name = c.choice('parameter', sorted(ARGUMENTS))
    kind, args = ARGUMENTS[name]
    n = c.choice('given', ['none', 'later', 'all by position'] +
                 [a[0] for a in args])
    key = Parameter(name) if c.flag('by enum member') else name
    before = State(f)
    given = {}
    if n == 'none':
        x = f.get_param(key)
    elif n == 'all by position':
        given = {a[0]: a[2] for a in args if a[0] != 'payment_timing'}
        if name == 'scenario':
            given = {'initial_year': given['initial_year'],
                     'num_years': given['num_years']}
        if name == 'tax_treatment':
            given = {'tax_brackets': given['tax_brackets']}
        x = f.build_param(key, *given.values())
    elif n == 'later':
        for a in args:
            setattr(s, a[1], a[2])
            vals[a[1]] = a[2]
        before = State(f)
        x = f.get_param(key)
    else:
        given = {a[0]: a[2] for a in args if a[0] == n}
        x = f.build_param(key, **given)
    c.check('type', type(x) is kind)
    for arg, setting, other, found in args:
        want = given[arg] if arg in given else vals[setting]
        agree(c, arg, found(x), meaning(setting, want))
    before.unchanged(c, 'the forecaster and its settings')
    if name == 'allocation_strategy':
        c.check('retirement plan', x.adjust_for_retirement_plan ==
                vals['allocation_adjust_retirement'])
        y = f.build_allocation_strategy(**given)
        for arg, setting, other, found in args:
            want = given[arg] if arg in given else vals[setting]
            agree(c, arg, found(y), meaning(setting, want))
    y = f.get_param(key)
    c.check('built again', y is not x and getattr(f, name) is None)
    f.set_param(key, **given)
    z = getattr(f, name)
    c.check('set', type(z) is kind and f.get_param(key) is z)


@contract('P22', max_paths=20000)
def built_on_others(c):
    """What is built from the settings depends on the other parameters that
    are given, and otherwise on those built for the same forecast."""
    s, vals = settings(c)
    given = c.flag('scenario given')
    rate = c.real('other inflation', lo=0, hi=0.1)
    scenario = Scenario(Y, 3, inflation=rate) if given else None
    f = Forecaster(settings=s, scenario=scenario)
    if not given:
        rate = vals['inflation']
    memo = {}
    if c.flag('after the scenario'):
        used = f.get_param('scenario', memo=memo)
    else:
        used = None
    name = c.choice('parameter', ['living_expenses_strategy',
                                  'tax_treatment'])
    x = f.get_param(name, memo=memo)
    y = Y + 2
    if name == 'tax_treatment':
        c.eq('deduction', x.personal_deduction(y),
             vals['tax_personal_deduction'][Y] * (1 + rate) ** 2)
    else:
        adjusted = vals['living_expenses_inflation_adjust']
        c.eq('inflation adjustment', x.inflation_adjust(y, Y),
             (1 + rate) ** 2 if adjusted else 1)
        own = f.build_param(name, inflation_adjust=lambda *args: 17)
        c.eq('given inflation adjustment', own.inflation_adjust(y, Y), 17)
        if not adjusted:
            return
    if used is None:
        used = scenario if given else memo['scenario']
    c.check('the scenario of the forecast', x.inflation_adjust.scenario
            is used and f.get_param('scenario', memo=memo) is used)


@contract('P22', kinds=('bounded',))
def other_forecasters(c):
    """Forecasters do not affect each other, nor do kinds of forecasters."""
    f = ForecasterCanada()
    f.settings.tax_province = 'NL'
    f.settings.num_years = c.integer('years', lo=1, hi=9)
    f.set_param('scenario', initial_year=Y)
    f.set_param('saving_strategy', weights={'RRSP': c.pos('weight')})
    g, h = Forecaster(), ForecasterCanada()
    c.check('nothing set', all(
        getattr(x, str(name)) is None for x in (g, h) for name in Parameter))
    c.check('other settings', h.settings.tax_province == 'BC' and
            h.settings.num_years == g.settings.num_years == 100 and
            type(g.settings) is Settings and
            type(h.settings) is SettingsCanada)
    c.check('kinds of tax', type(g.get_param('tax_treatment')) is Tax and
            h.get_param('tax_treatment').province == 'BC')
    c.check('weights', h.get_param('saving_strategy').weights ==
            {'RRSP': 2, 'TFSA': 1, 'TaxableAccount': 3} and
            'RRSP' not in g.get_param('saving_strategy').weights)


TEXTS = [('7', 7), ('-3', -3), ('7.0', 7), ('1e3', 1000), (' 12 ', 12),
         ('0.5', 0.5), ('-0.125', -0.125), ('1e-3', 0.001), ('0.1', 0.1),
         ('inf', float('inf')), ('-Infinity', float('-inf')),
         ('Ordered', 'Ordered'), ('', ''), ('7 %', '7 %'), ('1,5', '1,5')]


class Exact:
    """A number of high precision, which takes fractions as text only."""

    def __init__(self, text):
        if not isinstance(text, str):
            raise TypeError(text)
        self.text = text


@contract('P22', kinds=('bounded',))
def numbers_as_text(c):
    """A parameter given as text is the number that the text stands for,
    whole if it is and with the digits given where numbers have a high
    precision, and as given if it stands for none."""
    text, number = c.choice('text', TEXTS)
    high = c.flag('high precision')
    f = Forecaster(settings=Settings(), high_precision=Exact if high else None)
    name = c.choice('parameter', [str(x) for x in Parameter])
    setattr(f, name, text)
    got = f.get_param(Parameter(name) if c.flag('by enum member') else name)
    if high and isinstance(number, float):
        c.check('every digit', isinstance(got, Exact) and got.text == text)
    else:
        c.check('what the text stands for', got == number and
                type(got) is type(number))
    c.check('as given', getattr(f, name) is text)


@contract('P22', kinds=('bounded',))
def kinds_of_parameters(c):
    """A parameter is built as the kind that is asked for, and is on record
    for others that are built for the same forecast."""
    s, vals = settings(c)
    f = Forecaster(settings=s)
    name = c.choice('parameter', sorted(ARGUMENTS))
    kind = type('Own', (ARGUMENTS[name][0],), {})
    memo = {}
    if c.flag('set'):
        f.set_param(name, param_type=kind, memo=memo)
        x = getattr(f, name)
    else:
        x = f.build_param(name, param_type=kind, memo=memo)
        c.check('not set', getattr(f, name) is None)
    c.check('the kind asked for', type(x) is kind)
    c.check('on record', memo[name] is x and f.get_param(name, memo=memo) is x)


@contract('P22', kinds=('bounded',))
def one_scenario(c):
    """Every part of a forecast that depends on the scenario depends on the
    same one, given or built from the settings."""
    s = Settings()
    s.initial_year, s.num_years = Y, c.choice('years', [1, 2])
    s.inflation = c.real('inflation', lo=0, hi=0.1)
    f = Forecaster(settings=s)
    given = c.flag('given')
    if given:
        f.scenario = Scenario(Y, 1, inflation=s.inflation)
    x = f.run_forecast({Person(Y, 'a', '1950', '2100')}, set(), set())
    c.check('the one given', not given or x.scenario is f.scenario)
    for user in (x.tax_forecast.tax_treatment,
                 x.living_expenses_forecast.living_expenses_strategy):
        c.check('of all parts', user.inflation_adjust.scenario is x.scenario)
