"""Tax of persons and of groups of people."""
from pyvc.ctx import contract
from pyvc.invariant import Induction
from forecaster.accounts import Account
from forecaster.ledger import recorded_property
from forecaster.person import Person
from forecaster.tax import Tax
from contracts.common import Y


class Source(Account):
    """An account with given tax attributes."""
    parts = (0, 0, 0)

    @recorded_property
    def taxable_income(self):
        return self.parts[0]

    @recorded_property
    def tax_deduction(self):
        return self.parts[1]

    @recorded_property
    def tax_credit(self):
        return self.parts[2]


def source(g):
    a = Source(initial_year=Y, balance=0, rate=0)
    a.parts = (g.real('income'), g.nonneg('deduction'), g.nonneg('credit'))
    return a


def a_person(c, name, own=False, accounts=True):
    """A person with any income and any number of accounts.  Returns the
    person and their total income, deductions and credits."""
    gross = c.nonneg('gross ' + name)
    inputs = None
    if own:
        inputs = {'tax_deduction': {Y: c.nonneg('own deduction ' + name)},
                  'tax_credit': {Y: c.nonneg('own credit ' + name)}}
    p = Person(Y, name, '1950', '2100', gross_income=gross, inputs=inputs)
    income, ded, cred = gross, 0, 0
    if accounts:
        p.accounts = c.objects('accounts ' + name, source)
        for a in p.accounts:
            income += a.parts[0]
            ded += a.parts[1]
            cred += a.parts[2]
    if own:
        ded = inputs['tax_deduction'][Y]
        cred = inputs['tax_credit'][Y]
    return p, income, ded, cred


def a_tax(c, name='', cls=Tax, flat=False):
    """A tax with two brackets, a personal deduction and a credit rate.
    Returns the tax and the personal deduction."""
    ded = c.nonneg('personal deduction' + name)
    brackets = {0: c.real('rate 1' + name, lo=0, hi=1)}
    if not flat:
        brackets[c.pos('threshold' + name)] = c.real('rate 2' + name,
                                                     lo=0, hi=1)
    rate = c.real('credit rate' + name, lo=0, hi=1)
    make = lambda k: k({Y: brackets}, personal_deduction={Y: ded},
                       credit_rate={Y: rate})
    if cls is not Tax:
        return make(cls), make(Tax)
    return make(Tax), ded


def extra(c, name):
    """Explicit deductions and credits of a person: arguments and values."""
    kw = {}
    if c.flag('extra deduction ' + name):
        kw['deduction'] = c.nonneg('extra deduction of ' + name)
    if c.flag('extra credit ' + name):
        kw['credit'] = c.nonneg('extra credit of ' + name)
    return kw


@contract('P08')
def person_taxed_once(c):
    """Tax of a person with any number of accounts: income from all sources,
    less every deduction once; credits once."""
    tax, personal = a_tax(c)
    p, income, ded, cred = a_person(c, 'p', own=c.flag('own'))
    kw = extra(c, 'p')
    want = tax.tax_money(income, Y,
                         personal + ded + kw.get('deduction', 0),
                         cred + kw.get('credit', 0))
    c.eq('tax of a person', tax.tax_person(p, Y, **kw), want)
    c.eq('tax of a person by calling', tax(p, Y, **kw), want)
    c.eq('deductions of a person', tax.deduction(p, Y), personal + ded)
    c.eq('credits of a person', tax.credit(p, Y), cred)
    c.eq('a group of one', tax([p], Y), tax.tax_person(p, Y))
    c.eq('taxable income is unchanged', p.taxable_income, income)


@contract('P08')
def past_years(c):
    """Tax for a past year uses what was recorded for that year."""
    tax, personal = a_tax(c)
    p, income, ded, cred = a_person(c, 'p')
    p.next_year()
    for a in p.accounts:
        a.next_year()
        a.parts = (1, 2, 3)
    c.eq('tax of a past year', tax.tax_person(p, Y),
         tax.tax_money(income, Y, personal + ded, cred))


LINKS = [(), ((0, 1),), ((0, 2),), ((1, 2),)]


def group(c, n, accounts):
    people = [a_person(c, 'abc'[i], accounts=accounts)[0] for i in range(n)]
    for i, j in c.choice('couples', [l for l in LINKS
                                     if all(max(x) < n for x in l)]):
        people[i].spouse = people[j]
    return people


def listings(c, people):
    """The people listed in some order, in some kind of collection."""
    n = len(people)
    orders = {0: [()], 1: [(0,)], 2: [(0, 1), (1, 0)],
              3: [(0, 1, 2), (2, 1, 0), (1, 2, 0)]}[n]
    listed = [people[i] for i in c.choice('order', orders)]
    kind = c.choice('collection', ['list', 'set', 'iterator'])
    return {'list': list, 'set': set, 'iterator': iter}[kind](listed)


@contract('P08', kinds=('bounded',), max_paths=30000)
def group_is_the_sum(c):
    """Tax of up to three people, married or not, listed in any way: the sum
    of their taxes, each with their own explicit deductions and credits."""
    tax, _ = a_tax(c, flat=True)
    n = c.size('people', 0, 3)
    people = group(c, n, accounts=False)
    kws = [extra(c, 'abc'[i]) if i < 1 else {} for i in range(n)]
    want = sum([tax.tax_person(p, Y, **kw) for p, kw in zip(people, kws)])
    args = {}
    for k in ('deduction', 'credit'):
        d = {p: kw[k] for p, kw in zip(people, kws) if k in kw}
        if d:
            args[k] = d
    listed = listings(c, people)
    c.eq('tax of a group', tax(listed, Y, **args), want)


class Member(Person):
    """A person who owes given amounts, alone or with a spouse."""
    alone = shared = used = 0


class Each(Tax):
    """Tax of people and of couples, which may be anything: `alone` by
    oneself and `shared` as one's part when married in the group."""

    def tax_person(self, person, year, deduction=0, credit=0):
        return person.alone - 2 * deduction - 3 * credit

    def tax_spouses(self, people, year, deduction=None, credit=None):
        people = list(people)
        if len(people) != 2 or people[0].spouse is not people[1] or \
                people[1].spouse is not people[0]:
            raise ValueError('not a couple')
        return sum(p.shared - 2 * (deduction or {}).get(p, 0)
                   - 3 * (credit or {}).get(p, 0) for p in people)


def a_member(g, name='member'):
    p = Member(Y, name, '1950', '2100')
    p.alone, p.shared = g.real('tax of ' + name), g.real('with spouse ' + name)
    p.ded, p.cred = g.nonneg('deduction of ' + name), g.nonneg(
        'credit of ' + name)
    return p


@contract('P08')
def any_number_of_people(c):
    """Tax of any number of people, by induction on their number: whoever is
    taken first is taxed once, with their spouse if they are listed too, and
    those left are taxed as a group, with what is given for them."""
    tax = Each({Y: {0: 0}}, personal_deduction={Y: 0}, credit_rate={Y: 0})
    p, q = a_member(c, 'p'), a_member(c, 'q')
    state = c.choice('state', ['single', 'spouse elsewhere', 'couple'])
    if state != 'single':
        p.spouse = q
    others = c.objects('others', a_member)
    people = [p] + others
    if state == 'couple':
        people = [p, q] + others
    given = c.flag('given')
    args = ()
    if given:
        args = ({x: x.ded for x in people}, {x: x.cred for x in people})

    def owed(people, year, deduction, credit):
        # (of those listed, others are taken to be as they are in the whole
        # group: a spouse who is taken away is p or q)
        deduction, credit = deduction or {}, credit or {}
        total = 0
        for x in people:
            total += x.shared if x is not p and x is not q or \
                x.spouse in people else x.alone
            total -= 2 * deduction.get(x, 0) + 3 * credit.get(x, 0)
        return total

    def smaller(people, year, deduction, credit):
        c.check('fewer are left', p not in people)
        c.eq('the year is the same', year, Y)

    if c.unbounded:
        Induction(c, tax, 'tax_people', smaller, owed)
        got = tax.tax_people(c.as_set(people), Y, *args)
    else:
        for x in others:
            x.alone = x.shared
        got = tax(set(people), Y, *args)
    c.eq('tax of a group', got, owed(people, Y, *(args or (None, None))))


class Joint(Tax):
    """Couples pay a fixed amount each time they are assessed."""
    fee = 0
    couples = 0
    others = 0

    def tax_spouses(self, people, year, deduction=None, credit=None):
        people = list(people)
        if people[0].spouse is people[1] and people[1].spouse is people[0] \
                and len(people) == 2:
            self.couples += 1
        return self.fee

    def tax_person(self, person, year, deduction=0, credit=0):
        self.others += 1
        return super().tax_person(person, year, deduction, credit)


@contract('P08', kinds=('bounded',))
def couples_taxed_as_couples_once(c):
    """Couples who are both in the group are taxed together exactly once;
    everyone else by themselves exactly once."""
    tax, plain = a_tax(c, cls=Joint, flat=True)
    tax.fee = c.real('fee')
    everyone = group(c, 3, accounts=False)
    people = everyone[:c.size('listed', 0, 3)]
    alone = [p for p in people if p.spouse not in people]
    pairs = (len(people) - len(alone)) / 2
    c.eq('tax of a group with couples', tax(listings(c, people), Y),
         pairs * tax.fee + sum([plain.tax_person(p, Y) for p in alone]))
    c.eq('each couple once', tax.couples, pairs)
    c.eq('everyone else once', tax.others, len(alone))


@contract('P08', kinds=('bounded',))
def couples_under_a_plain_tax(c):
    """Without special treatment a couple's tax is the sum of their taxes."""
    tax, _ = a_tax(c)
    a, b = group(c, 2, accounts=False)
    kw = extra(c, 'a')
    args = {k: {a: v} for k, v in kw.items()}
    c.eq('tax of a couple', tax.tax_spouses({a, b}, Y, **args),
         tax.tax_person(a, Y, **kw) + tax.tax_person(b, Y))
    c.eq('nobody', tax.tax_people([], Y), 0)
