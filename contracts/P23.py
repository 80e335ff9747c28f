"""People, their spouses, accounts and incomes."""
from datetime import datetime
from pyvc.ctx import contract
from forecaster.accounts import Account, Debt
from forecaster.ledger import TaxSource
from forecaster.canada.accounts import RRSP, TFSA
from forecaster.person import Person
from contracts.common import Y

ASSUMPTIONS = [
    'people are advanced to a year no later than their accounts']


def person(name, **kw):
    return Person(Y, name, '1970-05-05', '2040', **kw)


def couples(c, people):
    """Spouses refer to each other, and no one is their own."""
    for p in people:
        if p.spouse is not None:
            c.check('mutual', p.spouse.spouse is p)
            c.check('someone else', p.spouse is not p)


@contract('P23')
def marriage(c):
    """One change, whatever the state of the people concerned: the person,
    the new spouse, and the spouse of each.  (Others are out of reach, so
    this covers any history of marriages of any number of people.)"""
    a, b, ex_a, ex_b, x, y = people = [person(n) for n in 'abcdef']
    x.spouse = y                            # bystanders
    state = c.choice('state', ['single', 'a', 'b', 'both', 'couple'])
    if state in ('a', 'both'):
        if c.flag('which of them'):
            a.spouse = ex_a
        else:
            ex_a.spouse = a
    if state in ('b', 'both'):
        b.spouse = ex_b
    if state == 'couple':
        b.spouse = a
    couples(c, people)
    was = [p.spouse for p in people]
    what = c.choice('what', ['marry', 'separate', 'neither', 'at birth'])
    if what == 'marry':
        a.spouse = b
        c.check('married', a.spouse is b and b.spouse is a)
        for p in (ex_a, ex_b):
            c.check('no longer married', p.spouse is None)
    elif what == 'separate':
        a.spouse = None
        c.check('single', a.spouse is None)
        if was[0] is not None:
            c.check('both are single', was[0].spouse is None)
        if was[0] is not b:
            c.check('others stay married', b.spouse is was[1])
    elif what == 'neither':
        for wrong in ('someone', 5, object()):
            def marry():
                a.spouse = wrong
            c.raises('only people marry', marry, TypeError)
        c.check('as they were', [p.spouse for p in people] == was)
    else:
        a = person('new', spouse=b)
        people.append(a)
        c.check('married', a.spouse is b and b.spouse is a)
        if was[1] is not None:
            c.check('no longer married', was[1].spouse is None)
    couples(c, people)
    c.check('bystanders', x.spouse is y and y.spouse is x)


class Thing(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Alike(Account):
    """An account that nothing but its identity tells apart."""


@contract('P23')
def ownership(c):
    """An account that changes hands is listed by its new owner only,
    whatever other accounts there are."""
    p, q, r = [person(n) for n in 'pqr']
    others = {}
    for x in (p, q, r):
        others[x] = c.objects('accounts of ' + x.name,
                              lambda g: Thing(v=g.real('v')))
        x.accounts = c.as_set(others[x])
    first = c.choice('owner', [p, None])
    cls = c.choice('kind', [Account, Debt])
    a = cls(first, balance=c.real('balance'), rate=0, initial_year=Y)
    then = c.choice('then', ['q', 'p', 'none', 'wrong', 'q, p'])
    if then == 'wrong':
        for wrong in ('someone', 5, a):
            def give():
                a.owner = wrong
            c.raises('only people own', give, TypeError)
        owner = first
    else:
        for name in then.split(', '):
            owner = {'p': p, 'q': q, 'none': None}[name]
            a.owner = owner
    c.check('owner', a.owner is owner)
    for x in (p, q, r):
        c.eq('listed once, by the owner',
             c.count(x.accounts), c.count(others[x]) + (x is owner))
        c.check('it is listed', any(y is a for y in [
            z for z in x.accounts if isinstance(z, Account)])
            == (x is owner))
        c.eq('the others stay', total(z.v for z in x.accounts
                                      if not isinstance(z, Account)),
             total(z.v for z in others[x]))


def total(xs):
    t = 0
    for x in xs:
        t += x
    return t


@contract('P23', kinds=('bounded',))
def registered(c):
    """Registered accounts are listed by their owner, not by whoever else
    contributes to them, and share the room of the contributor."""
    p = person('p', gross_income=c.nonneg('income'))
    q = person('q', spouse=p)
    cls = c.choice('kind', [RRSP, TFSA])
    a = cls(p, contributor=q, contribution_room=c.nonneg('room'))
    b = cls(q, contributor=q)
    for x in (a, b):
        c.check('contributor', x.contributor is q)
        c.eq('room', x.contribution_room, a.contribution_room)
    c.check('listed', p.accounts == {a} and q.accounts == {b})
    a.owner = q
    c.check('passed on', p.accounts == set() and q.accounts == {a, b})
    c.check('contributor stays', a.contributor is q)
    a.contributor = p
    c.check('new contributor', a.contributor is p)
    c.check('owner stays', a.owner is q and q.accounts == {a, b})


class Law(object):
    """Withholds a share of income."""
    def __init__(self, share):
        self.share, self.years = share, []

    def __call__(self, income, year):
        self.years.append(year)
        return income * self.share


@contract('P23')
def sums(c):
    """Taxable income, deductions, credits and after-tax income are the sums
    of their parts, for any number of accounts."""
    gross = c.nonneg('gross')
    law = Law(c.real('share', lo=0, hi=1)) if c.flag('taxed') else None
    p = person('p', gross_income=gross, tax_treatment=law)
    accounts = c.objects('accounts', lambda g: Thing(
        taxable_income=g.real('income'), tax_deduction=g.real('deduction'),
        tax_credit=g.real('credit'), tax_withheld=g.real('withheld')))
    p.accounts = c.as_set(accounts)
    c.eq('taxable income', p.taxable_income,
         gross + total(a.taxable_income for a in accounts))
    c.eq('deductions', p.tax_deduction,
         total(a.tax_deduction for a in accounts))
    c.eq('credits', p.tax_credit, total(a.tax_credit for a in accounts))
    withheld = gross * law.share if law else 0
    c.eq('withheld', p.tax_withheld, withheld)
    c.eq('after-tax income', p.net_income, gross - withheld)
    if law:
        c.check('of the year', all(y == Y for y in law.years))


@contract('P23')
def initial_income(c):
    """An income that is set after all is the one that counts."""
    law = Law(c.real('share', lo=0, hi=1))
    p = person('p', gross_income=c.nonneg('first'), tax_treatment=law)
    p.gross_income = income = c.nonneg('income')
    c.eq('gross', p.gross_income, income)
    c.eq('net', p.net_income, income - income * law.share)
    c.eq('taxable', p.taxable_income, income)


@contract('P23', kinds=('bounded',))
def raises(c):
    """Income grows by the raise of the year until the year of retirement,
    and stops after it; after-tax income follows."""
    retires = c.choice('retires', [Y, Y + 1, Y + 2, Y + 9])
    gross = c.nonneg('gross')
    rates = {Y + i: c.real('raise %d' % i, nice=[0, 0.02, 0.1, -0.5])
             for i in range(4)}
    how = c.choice('how', ['dict', 'callable', 'constant', 'none', 'unset'])
    given = {'dict': rates, 'callable': rates.__getitem__,
             'constant': rates[Y], 'none': None, 'unset': None}[how]
    law = Law(c.real('share', lo=0, hi=1))
    kw = {} if how == 'unset' else {'raise_rate': given}
    p = Person(Y, 'p', '1970-05-05', '%d-%s' % (
        retires, c.choice('day', ['01-01', '12-31'])), gross_income=gross,
        tax_treatment=law, **kw)
    if how == 'none':
        p.raise_rate_callable = None
    want = {Y: gross}
    for i in range(4):
        y = Y + i
        if i:
            p.next_year()
            rate = {'dict': rates[y], 'callable': rates[y],
                    'constant': rates[Y]}.get(how, 0)
            want[y] = 0 if y > retires else want[y - 1] * (1 + rate)
            if c.flag('look at the rate %d' % i):
                c.eq('raise', p.raise_rate, rate)
        c.eq('gross income', p.gross_income, want[y])
        c.eq('net income', p.net_income, want[y] * (1 - law.share))
        c.eq('taxable income', p.taxable_income, want[y])
    for y in want:
        c.eq('gross income on record', p.gross_income_history[y], want[y])
        c.eq('net income on record', p.net_income_history[y],
             want[y] * (1 - law.share))


@contract('P23')
def any_year(c):
    """One more year: the step that `raises` takes three times."""
    last = c.real('last', lo=0)
    rate = c.real('raise', nice=[0, 0.1])
    retired = c.flag('retired')
    p = Person(Y - 1, 'p', '1970', str(Y - 1 if retired else Y),
               gross_income=last, raise_rate={Y: rate, Y - 1: 0})
    p.next_year()
    c.eq('gross income', p.gross_income, 0 if retired else last * (1 + rate))
    c.eq('net income', p.net_income, p.gross_income)


@contract('P23', kinds=('bounded',))
def ages(c):
    """The age in a year is the one reached on that year's birthday; on a
    date, on the last birthday."""
    born = c.choice('born', ['1960-01-01', '1975-06-15', '1980-12-31',
                             '2000-02-29', '1996-02-29', '1999-02-28',
                             '2000-03-01'])
    year = c.choice('year', [1990, 1999, 2000, 2001, 2004, 2023, 2100])
    p = Person(Y, 'p', born, '2090')
    age = year - int(born[:4])
    c.eq('in the year', p.age(year), age)
    for month, day in ((1, 1), (2, 27), (2, 28), (3, 1), (6, 14), (6, 15),
                       (12, 30), (12, 31)):
        date = '%d-%02d-%02d' % (year, month, day)
        on = date[5:] >= born[5:]
        if born[5:] == '02-29' and date[5:] == '02-28':
            on = not (year % 4 == 0 and (year % 100 or year % 400 == 0))
        c.eq('on a date', p.age(date), age - (0 if on else 1))
    c.eq('retirement', p.retirement_age, 2090 - int(born[:4]))
    n = c.choice('retires at', [0, 40, 65])
    p.retirement_age = n
    c.eq('set', p.retirement_age, n)
    c.eq('date', p.retirement_date.year, int(born[:4]) + n)


@contract('P23', kinds=('bounded',))
def dates(c):
    """A birth date may leave out the day or the month, which are then the
    first ones; a retirement date that does falls on the birthday. Dates are
    kept if they are given as such, and nobody retires before being born."""
    month, day = c.choice('month', [1, 6, 12]), c.choice('day', [1, 15, 31])
    day = min(day, 30) if month == 6 else day
    form = c.choice('form', ['year', 'month', 'day', 'date', 'int'])
    born = {'year': '1980', 'month': '1980-%02d' % month,
            'day': '1980-%02d-%02d' % (month, day), 'int': 1980,
            'date': datetime(1980, month, day)}[form]
    if form in ('year', 'int'):
        month = 1
    if form in ('year', 'int', 'month'):
        day = 1
    late = c.choice('retires', [2030, '2030', '2030-03', '2030-03-17', 'date',
                                'age'])
    p = Person(Y, 'p', born, 2055 if late == 'age' else
               datetime(2030, 3, 17) if late == 'date' else late)
    if late == 'age':
        p.retirement_age = 50
    c.check('birth date', p.birth_date == datetime(1980, month, day))
    c.check('retirement date', p.retirement_date == {
        '2030-03': lambda: datetime(2030, 3, min(day, 31)),
        '2030-03-17': lambda: datetime(2030, 3, 17),
        'date': lambda: datetime(2030, 3, 17)}.get(
            late, lambda: datetime(2030, month, day))())
    was = p.retirement_date
    def early():
        p.retirement_date = datetime(1979, 12, 31)
    c.raises('not before birth', early, ValueError)
    c.check('kept', p.retirement_date == was)
    p.birth_date = '1981-02'
    c.check('set', p.birth_date == datetime(1981, 2, 1))
    def never():
        p.retirement_date = None
    c.raises('some date', never, NotImplementedError)
