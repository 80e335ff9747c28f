"""Taxes of several jurisdictions."""
from pyvc.ctx import contract
from forecaster.accounts import Account
from forecaster.canada.accounts import RRSP
from forecaster.canada.constants import ConstantsCanada
from forecaster.canada.tax import TaxCanada, TaxCanadaJurisdiction
from forecaster.person import Person
from forecaster.tax import Tax, TaxMulti
from forecaster.utility import Timing
from contracts.common import Y
from contracts.P08 import Source, a_person, a_tax, extra, listings, source


def two_taxes(c, flat=True):
    return [a_tax(c, ' of %d' % i, flat=flat)[0] for i in range(2)]


def by_tax(c, taxes, name):
    """Explicit amounts for none, one or both jurisdictions."""
    which = c.choice(name + ' for', [(), (0,), (1,), (0, 1)])
    return {taxes[i]: c.nonneg('%s for %d' % (name, i)) for i in which}


@contract('P09', kinds=('bounded',))
def amounts(c):
    """Tax on an amount: the sum over jurisdictions, each with its own
    deductions and credits."""
    taxes = two_taxes(c)
    multi = TaxMulti(taxes)
    x = c.nonneg('income')
    ded, cred = by_tax(c, taxes, 'deduction'), by_tax(c, taxes, 'credit')
    want = sum([t.tax_money(x, Y, ded.get(t, 0), cred.get(t, 0))
                for t in taxes])
    c.eq('tax on an amount', multi.tax_money(x, Y, ded, cred), want)
    c.eq('tax by calling', multi(x, Y, ded, cred), want)
    c.eq('without deductions', multi.tax_money(x, Y),
         sum([t.tax_money(x, Y) for t in taxes]))
    c.eq('by calling without deductions', multi(x, Y),
         sum([t.tax_money(x, Y) for t in taxes]))


class Levy(object):
    """The tax of a jurisdiction, which may depend on anything."""

    def __init__(self, c, where=''):
        self.own = [c.real(name + where) for name in (
            'levy', 'of income', 'of deductions', 'of credits', 'of people')]
        self.a = c.nonneg('a deduction' + where)
        self.b = c.nonneg('a credit' + where)
        self.rate = c.real('rate' + where)

    def of(self, x, deduction, credit, how):
        a, b, d, e, f = self.own
        return a + b * x - d * (deduction or 0) - e * (credit or 0) + f * how

    def tax_money(self, taxable_income, year, deduction=0, credit=0):
        return self.of(taxable_income, deduction, credit, 1)

    def tax_person(self, person, year, deduction=0, credit=0):
        return self.of(person.taxable_income, deduction, credit, 2)

    def tax_people(self, people, year, deduction=None, credit=None):
        return self.of(sum(p.taxable_income for p in people), deduction,
                       credit, 3)

    def tax_spouses(self, people, year, deduction=None, credit=None):
        return self.of(sum(p.taxable_income for p in people), deduction,
                       credit, 4)

    def __call__(self, income, year, deduction=None, credit=None):
        return self.of(income if not hasattr(income, '__iter__') else sum(
            p.taxable_income for p in income), deduction, credit, 5)

    def marginal_rate(self, taxable_income, year):
        return self.rate * taxable_income

    def deduction(self, person, year):
        return self.a * (year - 2000)

    def credit(self, person, year, deduction=None):
        return self.of(person.taxable_income, deduction, year - 2000, 6)

    def personal_deduction(self, year):
        return self.b * (year - 2000)

    def credit_rate(self, year):
        return self.rate * (year - 2000)


@contract('P09')
def any_number_of_jurisdictions(c):
    """With any number of jurisdictions, whatever the tax of each: the sum
    of their taxes, each with what is given for it and nothing otherwise."""
    taxes = c.objects('tax', Levy, most=3)
    multi = TaxMulti(taxes)
    x = c.nonneg('income')
    p, q = [Person(Y, n, '1980', '2045', gross_income=c.nonneg('of ' + n))
            for n in 'pq']
    people = [p, q][:c.choice('people', [1, 2])]
    all_of_them = sum([who.taxable_income for who in people])
    given = c.flag('given')
    for how, args, base in ((1, x, x), (2, p, p.taxable_income),
                            (3, people, all_of_them),
                            (4, set(people), all_of_them),
                            (5, x, x), (5, people, all_of_them)):
        f = [None, multi.tax_money, multi.tax_person, multi.tax_people,
             multi.tax_spouses, multi][how]
        if given:
            got = f(args, Y, {t: t.a for t in taxes},
                    {t: t.b for t in taxes})
            c.eq('tax with what is given', got, sum(
                t.of(base, t.a, t.b, how) for t in taxes))
        else:
            c.eq('tax with nothing given', f(args, Y), sum(
                t.of(base, 0, 0, how) for t in taxes))
    c.eq('marginal rate', multi.marginal_rate(x, Y),
         sum(t.rate * x for t in taxes))


@contract('P09')
def credits_with_deductions(c):
    """The deductions and credits of a person, the personal deduction and
    the credit rate are those of the first jurisdiction, whatever they
    depend on: for credits, that is also what is deducted there."""
    taxes = [Levy(c), Levy(c, ' elsewhere')]
    if c.flag('the other way round'):
        taxes = taxes[::-1]
    first, second = taxes
    multi = TaxMulti(taxes)
    p = Person(Y, 'p', '1980', '2045', gross_income=c.nonneg('of p'))
    year = Y + c.choice('year', [0, 1])
    d, e = c.nonneg('deducted'), c.nonneg('deducted elsewhere')
    c.eq('credits', multi.credit(p, year), first.credit(p, year))
    c.eq('credits with a deduction', multi.credit(p, year, {first: d}),
         first.credit(p, year, d))
    c.eq('credits with a deduction elsewhere',
         multi.credit(p, year, {second: e}), first.credit(p, year))
    c.eq('credits with both', multi.credit(p, year, {second: e, first: d}),
         first.credit(p, year, d))
    c.eq('deductions', multi.deduction(p, year), first.deduction(p, year))
    c.eq('personal deduction', multi.personal_deduction(year),
         first.personal_deduction(year))
    c.eq('credit rate', multi.credit_rate(year), first.credit_rate(year))


@contract('P09', kinds=('bounded',))
def marginal_rates(c):
    """The marginal rate is the sum of the marginal rates, and the combined
    brackets give it at every income."""
    taxes = two_taxes(c, flat=False)
    if c.flag('third'):
        taxes.append(a_tax(c, ' of 2', flat=True)[0])
    multi = TaxMulti(taxes)
    x = c.pos('income')
    want = sum([t.marginal_rate(x, Y) for t in taxes])
    c.eq('marginal rate', multi.marginal_rate(x, Y), want)
    combined = multi.tax_brackets(Y)
    below = [b for b in combined if b < x]
    c.eq('rate of the combined bracket', combined[max(below)], want)
    c.eq('combined marginal bracket', multi.marginal_bracket(x, Y),
         max(below))
    b = max(below)
    c.eq('rate of one combined bracket', multi.tax_brackets(Y, b), want)
    totals = multi.accum(Y)
    c.check('totals for the same brackets', set(totals) == set(combined))
    c.eq('tax on income up to the bracket', totals[b],
         sum([t.tax_money(b, Y) for t in taxes]))
    c.eq('the same for one bracket', multi.accum(Y, b), totals[b])
    c.eq('tax is that of lower brackets and that of the marginal one',
         multi.tax_money(x, Y), totals[b] + (x - b) * want)


@contract('P09')
def persons(c):
    """Tax on a person: the sum over jurisdictions."""
    taxes = two_taxes(c)
    multi = TaxMulti(taxes)
    p = a_person(c, 'p')[0]
    c.eq('tax on a person', multi.tax_person(p, Y),
         sum([t.tax_person(p, Y) for t in taxes]))
    c.eq('by calling', multi(p, Y), sum([t(p, Y) for t in taxes]))
    for i, t in enumerate(taxes):
        d, k = c.nonneg('deduction'), c.nonneg('credit')
        c.eq('deduction in one jurisdiction',
             multi.tax_person(p, Y, {t: d}, {t: k}),
             t.tax_person(p, Y, d, k) + taxes[1 - i].tax_person(p, Y))
    c.eq('deduction', multi.deduction(p, Y), taxes[0].deduction(p, Y))
    c.eq('credit', multi.credit(p, Y), taxes[0].credit(p, Y))
    c.eq('personal deduction', multi.personal_deduction(Y),
         taxes[0].personal_deduction(Y))


@contract('P09', kinds=('bounded',), max_paths=20000)
def groups(c):
    """Tax on a group listed in any way: the sum over jurisdictions, each
    with the amounts given for each person."""
    taxes = two_taxes(c)
    multi = TaxMulti(taxes)
    people = [a_person(c, n, accounts=False)[0] for n in 'ab']
    if c.flag('married'):
        people[0].spouse = people[1]
    a = people[0]
    ded = {}
    for i in c.choice('deduction for', [(), (0,), (1,), (0, 1)]):
        ded[taxes[i]] = {a: c.nonneg('deduction for %d' % i)}
    want = sum([t.tax_people(set(people), Y, ded.get(t)) for t in taxes])
    how = c.choice('how', ['tax_people', 'call', 'tax_spouses'])
    if how == 'tax_people':
        got = multi.tax_people(listings(c, people), Y, ded)
    elif how == 'call':
        got = multi(listings(c, people), Y, ded)
    else:
        got = multi.tax_spouses(set(people), Y, ded)
    c.eq('tax on a group', got, want)


class Law(object):
    """Constants of a Canadian system (any)."""

    def __init__(self, c, flat=True):
        self.TAX_BRACKETS, self.TAX_PERSONAL_DEDUCTION = {}, {}
        self.TAX_CREDIT_RATE, self.TAX_PENSION_CREDIT = {}, {}
        self.TAX_SPOUSAL_AMOUNT = {}
        self.TAX_REFUND_TIMING = self.TAX_PAYMENT_TIMING = 0.3
        for j in ('Federal', 'BC', 'ON'):
            self.TAX_BRACKETS[j] = {Y: {0: c.real('rate ' + j, lo=0, hi=1)}}
            self.TAX_PERSONAL_DEDUCTION[j] = {Y: c.nonneg('basic ' + j)}
            self.TAX_CREDIT_RATE[j] = {
                Y: c.real('credit rate ' + j, lo=0, hi=1)}
            self.TAX_PENSION_CREDIT[j] = {Y: c.nonneg('pension max ' + j)}
            self.TAX_SPOUSAL_AMOUNT[j] = {Y: c.nonneg('spousal max ' + j)}


@contract('P09', kinds=('bounded',))
def canada(c):
    """Canadian tax: federal plus provincial, for amounts, persons and
    couples, under any rates and amounts; the explicit deductions and
    credits go to the jurisdiction they are for."""
    law = Law(c)
    prov = c.choice('province', ['BC', 'ON'])
    tax = TaxCanada(None, prov, constants=law)
    fed = TaxCanadaJurisdiction(None, constants=law)
    pro = TaxCanadaJurisdiction(None, prov, constants=law)
    what = c.choice('what', ['amount', 'person', 'group'])
    if what == 'amount':
        x = c.nonneg('income')
    else:
        x = a_person(c, 'p', accounts=False)[0]
    wrap = lambda v: v
    who = x
    if what == 'group':
        who = {x}
        wrap = lambda v: {x: v}
    names = ['federal_deduction', 'federal_credit', 'provincial_deduction',
             'provincial_credit']
    kw = {}
    for n in c.choice('given', [[], names[:1], names[1:2], names[2:3],
                                names[3:], names]):
        kw[n] = wrap(c.nonneg(n))
    own = c.choice('own dictionary', [None, 'deductions', 'credits_'])
    by = {'deductions': {}, 'credits_': {}}
    if own:
        amount = wrap(c.nonneg('by jurisdiction'))
        jurisdictions = (tax.federal_tax, tax.provincial_tax)
        shared = {j: amount for j in jurisdictions}
        by[own] = dict(shared)
        kw[own] = shared
    # (What is given by name stands for what is given by jurisdiction.)
    want = 0
    for name, one, j in [('federal', fed, tax.federal_tax),
                         ('provincial', pro, tax.provincial_tax)]:
        want += one(who, Y, deduction=kw.get(
            name + '_deduction', by['deductions'].get(j)), credit=kw.get(
                name + '_credit', by['credits_'].get(j)))
    c.eq('federal plus provincial', tax(who, Y, **kw), want)
    if own:
        c.check('arguments are unchanged', tuple(shared) == jurisdictions and
                all([shared[j] is amount for j in jurisdictions]))


SHORT = [[], [0.5], [0, 0.5]]


@contract('P09')
def pension_credit(c):
    """The credits of a person are those of their accounts and the pension
    income credit: what was withdrawn from their retirement savings accounts,
    up to the maximum."""
    law = Law(c)
    t = TaxCanadaJurisdiction(None, c.choice('where', ['Federal', 'BC']),
                              constants=law)
    p = Person(Y, 'p', '1950', '2100', gross_income=c.nonneg('gross'))
    withdrawn = 0
    for i in range(c.size('rrsps', 0, 2)):
        m = c.time_map('transactions %d' % i, ends=False, times=SHORT)
        RRSP(initial_year=Y, owner=p, balance=c.nonneg('balance'),
             rate=0, contribution_room=0, inputs={'transactions': {Y: m}})
        withdrawn += -sum(v for v in m.values() if v < 0)
    Account(initial_year=Y, owner=p, balance=0, rate=0, inputs={
        'transactions': {Y: c.time_map('other', ends=False)}})
    other = Source(initial_year=Y, owner=p, balance=0, rate=0)
    other.parts = (c.real('other income'), c.nonneg('other deduction'),
                   c.nonneg('other credit'))
    most = law.TAX_PENSION_CREDIT[t.jurisdiction][Y]
    credit = withdrawn if withdrawn < most else most
    c.eq('credits of a person', t.credit(p, Y), credit + other.parts[2])
    plain = Tax(law.TAX_BRACKETS[t.jurisdiction],
                law.TAX_PERSONAL_DEDUCTION[t.jurisdiction],
                law.TAX_CREDIT_RATE[t.jurisdiction])
    c.eq('tax is lower by the credit at the credit rate', t.tax_person(p, Y),
         plain.tax_person(p, Y, credit=credit))


@contract('P09', kinds=('bounded',), max_paths=10000)
def spousal_credit(c):
    """A couple gets the spousal amount once, reduced by the net income of
    the spouse who earns less; it never raises their tax."""
    law = Law(c)
    t = TaxCanadaJurisdiction(None, constants=law)
    people = [a_person(c, n, own=c.flag('own'), accounts=False)[0]
              for n in 'ab']
    net = [p.taxable_income - t.deduction(p, Y) for p in people]
    single = [t.tax_person(p, Y) for p in people]
    before = [t.credit(p, Y) for p in people]
    people[0].spouse = people[1]
    after = [t.credit(p, Y) for p in people]
    low = net[1] if net[1] < net[0] else net[0]
    most = law.TAX_SPOUSAL_AMOUNT['Federal'][Y]
    worth = most - low if low > 0 else most
    if worth < 0:
        worth = 0
    gain = [x - y for x, y in zip(after, before)]
    c.eq('the spousal amount is credited once', gain[0] + gain[1], worth)
    c.check('to the one who earns more',
            gain[1] == 0 if net[0] > net[1] else
            gain[0] == 0 if net[1] > net[0] else
            c.any_of(c.same(gain[0], 0), c.same(gain[1], 0)))
    together = t.tax_people(people, Y)
    c.le('being a couple never costs tax', together, single[0] + single[1])
    c.eq('tax of a couple', together,
         t.tax_person(people[0], Y) + t.tax_person(people[1], Y))


@contract('P09', kinds=('bounded',))
def published_law(c):
    """The published brackets of every province: tax is federal plus
    provincial at every income, in the years given and later."""
    k = ConstantsCanada()
    provinces = [j for j in k.TAX_BRACKETS if j != 'Federal']
    prov = c.choice('province', provinces)
    price = c.pos('price') if c.flag('inflation') else 1
    adjust = lambda a, b=None: price if a > 2017 else 1
    year = c.choice('year', [2017, 2020])
    tax = TaxCanada(adjust, prov)
    x = c.nonneg('income')
    want = 0
    ratio = adjust(year)
    for j in ('Federal', prov):
        table = k.TAX_BRACKETS[j][2017]
        steps = sorted(table)
        for i, low in enumerate(steps):
            if x <= low * ratio:
                break
            top = x
            if i + 1 < len(steps) and steps[i + 1] * ratio < x:
                top = steps[i + 1] * ratio
            want += (top - low * ratio) * table[low]
    c.eq('tax on an amount', tax(x, year), want)


@contract('P09', kinds=('bounded',))
def past_years_of_couples(c):
    """Credits for a past year do not depend on what happens later."""
    law = Law(c)
    law.TAX_PERSONAL_DEDUCTION['Federal'] = {Y: 100}
    law.TAX_PENSION_CREDIT['Federal'] = {Y: 2000}
    t = TaxCanadaJurisdiction(None, constants=law)
    rates = [0.5, 0.1]
    people = [Person(Y, n, '1950', '2100', gross_income=c.nonneg('gross ' + n),
                     raise_rate={Y: 0, Y + 1: rates.pop()})
              for n in 'ab']
    people[0].spouse = people[1]
    rrsp = RRSP(initial_year=Y, owner=people[0], balance=1000, rate=0,
                contribution_room=0)
    rrsp.add_transaction(-c.nonneg('pension'), 0.5)
    credits = [t.credit(p, Y) for p in people]
    for x in people + [rrsp]:
        while x.this_year == Y:
            x.next_year()
    if c.flag('withdraw'):
        rrsp.add_transaction(-c.nonneg('next pension'), 0.5)
    for i, p in enumerate(people):
        c.eq('credits of a past year', t.credit(p, Y), credits[i])


@contract('P09', kinds=('bounded',))
def settings_of_the_first(c):
    """The times of refunds and payments, the personal deduction, and the
    deductions, credits and credit rate of a combined tax are those of its
    first jurisdiction; setting the times there leaves the others."""
    taxes = [Tax({Y: {0: c.real('rate %d' % i, lo=0, hi=1)}},
                 personal_deduction={Y: c.nonneg('personal %d' % i)},
                 credit_rate={Y: c.real('credit rate %d' % i, lo=0, hi=1)},
                 refund_timing=i / 4, payment_timing=(i + 1) / 4)
             for i in range(c.choice('n', [1, 2, 3]))]
    multi = TaxMulti(taxes)
    first = taxes[0]
    p = a_person(c, 'p')[0]
    c.eq('personal deduction', multi.personal_deduction(Y),
         first.personal_deduction(Y))
    c.eq('deductions', multi.deduction(p, Y), first.deduction(p, Y))
    c.eq('credits', multi.credit(p, Y), first.credit(p, Y))
    c.eq('credit rate', multi.credit_rate(Y), first.credit_rate(Y))
    times = [[x.refund_timing, x.payment_timing] for x in taxes]
    c.check('times', [multi.refund_timing, multi.payment_timing] == times[0])
    c.check('times given', times == [
        [Timing(i / 4), Timing((i + 1) / 4)] for i in range(len(taxes))])
    which = c.choice('set', ['refund', 'payment'])
    if which == 'refund':
        multi.refund_timing = 0.9
        times[0][0] = Timing(0.9)
    else:
        multi.payment_timing = 0.9
        times[0][1] = Timing(0.9)
    c.check('times that are set',
            [multi.refund_timing, multi.payment_timing] == times[0])
    c.check('of the first', [
        [x.refund_timing, x.payment_timing] for x in taxes] == times)


@contract('P09', kinds=('bounded',))
def canadian_times(c):
    """Refunds and payments of Canadian taxes are at the times of the law,
    for each of the jurisdictions."""
    law = ConstantsCanada()
    law.TAX_REFUND_TIMING = Timing(c.choice('refund', [0, 0.25]))
    law.TAX_PAYMENT_TIMING = Timing(c.choice('payment', [0, 0.25]))
    tax = TaxCanada(None, c.choice('province', ['BC']), constants=law)
    for x in (tax, tax.federal_tax, tax.provincial_tax):
        c.check('refunds', x.refund_timing == law.TAX_REFUND_TIMING)
        c.check('payments', x.payment_timing == law.TAX_PAYMENT_TIMING)
    c.check('where', tax.province == 'BC' and tax.federal_tax.jurisdiction ==
            'Federal' and tax.provincial_tax.jurisdiction == 'BC')
