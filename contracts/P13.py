"""Retirement accounts."""
from pyvc.ctx import contract
from forecaster.canada.accounts import RRSP
from forecaster.canada.constants import ConstantsCanada
from contracts.common import Y, compounding, flows_to, grow
from contracts.P12 import Rules, a_person, adjust, flows, inflows, TIMES


def rules(c, brackets=1, known=Y):
    law = Rules(c)
    rates = {0: c.real('withheld 0', lo=0, hi=1)}
    low = 0
    for i in range(1, brackets):
        low = low + c.pos('width %d' % i)
        rates[low] = c.real('withheld %d' % i, lo=0, hi=1)
    law.RRSP_WITHHOLDING_TAX_RATE = {known: rates}
    law.RRSP_RRIF_WITHDRAWAL_MIN = {
        71: c.real('minimum at 71', lo=0, hi=1),
        72: c.real('minimum at 72', lo=0, hi=1)}
    return law, rates


def withheld(rates, amount, price=1):
    """The rate of the bracket of the whole amount, for all of it."""
    lows = [low for low in rates if low * price < amount]
    return amount * rates[max(lows)] if lows else amount * rates[0]


AGES = [50, 60, 70, 71, 72, 73, 95]


def converted(c, age):
    """Conversion years: by law, or earlier (or long ago)."""
    by_law = Y + 71 - age
    return c.choice('conversion', [None] + [
        y for y in (Y - 2, Y - 1, Y, Y + 1) if y <= by_law]), by_law


def minimum(law, age, balance, conversion):
    if conversion >= Y:
        return 0
    table = law.RRSP_RRIF_WITHDRAWAL_MIN
    if age in table:
        return balance * table[age]
    if age > 72:
        top = table[72] if table[72] > table[71] else table[71]
        return balance * top
    return balance / (90 - age)


@contract('P13')
def taxed_on_the_way_out(c):
    """Taxable income is what was withdrawn and the deduction what was
    contributed, whatever the balance, growth and flows; also on record and
    in the income of the owner."""
    law, rates = rules(c)
    p = a_person(c, gross=c.nonneg('income'), age=c.choice('age', [40, 75]))
    rate, nper = c.real('rate', lo=-1, lo_open=True), c.choice(
        'compounding', [1, 12])
    m = c.time_map('transactions')
    a = RRSP(p, initial_year=Y, balance=c.real('balance'), rate=rate,
             nper=nper, constants=law, contribution_room=0,
             inputs={'transactions': {Y: m}})
    ins = inflows(m)
    outs = ins - flows(m)
    if c.flag('linked'):
        b = RRSP(p, initial_year=Y, balance=0, rate=0, constants=law)
        c.eq('nothing moved', b.taxable_income, 0)
        c.eq('nothing contributed', b.tax_deduction, 0)
    c.eq('taxable income', a.taxable_income, outs)
    c.eq('deduction', a.tax_deduction, ins)
    c.eq('taxable income of the owner', p.taxable_income,
         p.gross_income + outs)
    c.eq('deduction of the owner', p.tax_deduction, ins)
    a.next_year()
    c.eq('taxable income on record', a.taxable_income_history[Y], outs)
    c.eq('deduction on record', a.tax_deduction_history[Y], ins)
    c.eq('growth is not taxed', a.taxable_income, 0)


@contract('P13', max_paths=20000)
def withdrawals_after_conversion(c):
    """The year after conversion and later, at least the fraction of the
    opening balance for the age must be withdrawn; none before."""
    law, rates = rules(c)
    age = c.choice('age', AGES)
    conversion, by_law = converted(c, age)
    p = a_person(c, age=age)
    balance = c.nonneg('balance')
    m = c.time_map('transactions', ends=False, times=TIMES)
    a = RRSP(p, initial_year=Y, balance=balance, rate=0, constants=law,
             contribution_room=c.nonneg('room'),
             inputs={'transactions': {Y: m}},
             rrif_conversion_year=conversion)
    year = by_law if conversion is None else conversion
    c.eq('conversion year', a.rrif_conversion_year, year)
    want = minimum(law, age, balance, year)
    c.eq('minimum distribution', a.minimum_distribution(), want)
    c.eq('minimum withdrawal', a.min_outflow_limit, -want)
    w = {0.5: 1}
    got = a.min_outflows(w)
    outs = inflows(m) - flows(m)
    left = want - outs if want > outs else 0
    c.eq('what must still be withdrawn', sum(got.values()), -left)
    accepted = sum(a.max_inflows(w).values())
    if year < Y:
        c.eq('no contribution after conversion', accepted, 0)
        c.eq('no contribution whatever limits are asked for',
             sum(a.max_inflows(w, 100).values()), 0)
    else:
        room = a.contribution_room - inflows(m)
        c.eq('contributions before conversion', accepted,
             room if room > 0 else 0)


@contract('P13', max_paths=20000)
def tax_withheld(c):
    """Tax is withheld at the rate of the bracket of the whole withdrawal
    (beyond the minimum after conversion), in money of the year."""
    law, rates = rules(c, brackets=3, known=c.choice('known', [Y, Y - 1,
                                                              Y + 1]))
    age = c.choice('age', [50, 72])
    p = a_person(c, age=age)
    balance = c.nonneg('balance')
    m = c.time_map('transactions', ends=False, times=TIMES)
    known = list(law.RRSP_WITHHOLDING_TAX_RATE)[0]
    price = c.pos('price')
    level = lambda y: 1 if y == known else price
    a = RRSP(p, initial_year=Y, balance=balance, rate=0, constants=law,
             contribution_room=0, inputs={'transactions': {Y: m}},
             inflation_adjust=lambda t, b: level(t) / level(b))
    outs = inflows(m) - flows(m)
    least = minimum(law, age, balance, a.rrif_conversion_year)
    over = outs - least if outs > least else 0
    got = a.tax_withheld
    c.eq('tax withheld', got, withheld(rates, over, level(Y)))
    c.le('never less than nothing', 0, got)
    c.le('never more than withdrawn', got, outs)


@contract('P13', kinds=('bounded',))
def conversion(c):
    """Conversion happens when asked, and no later than the law requires."""
    age = c.choice('age', AGES)
    p = a_person(c, age=age)
    by_law = Y + 71 - age
    a = RRSP(p, initial_year=Y, balance=0, rate=0, contribution_room=0)
    c.eq('by law', a.rrif_conversion_year, by_law)
    for y in (by_law + 1, by_law + 5):
        def late():
            a.rrif_conversion_year = y
        c.raises('too late', late, ValueError)
    c.eq('unchanged', a.rrif_conversion_year, by_law)
    if by_law >= Y:
        a.convert_to_rrif()
        c.eq('now', a.rrif_conversion_year, Y)
        a.convert_to_rrif(by_law)
        c.eq('in a given year', a.rrif_conversion_year, by_law)
    a.rrif_conversion_year = by_law - 3
    c.eq('set', a.rrif_conversion_year, by_law - 3)
    a.rrif_conversion_year = str(by_law - 2)
    c.eq('set as text', a.rrif_conversion_year, by_law - 2)
    a.rrif_conversion_year = by_law - 1.0
    c.eq('set as a number', a.rrif_conversion_year, by_law - 1)
    a.rrif_conversion_year = None
    c.eq('unset', a.rrif_conversion_year, by_law)


@contract('P13', kinds=('bounded',))
def published_law(c):
    """The published minimums and withholding rates."""
    k = ConstantsCanada()
    age = c.choice('age', [50, 66, 70, 71, 72, 80, 94, 95, 96, 105])
    p = a_person(c, age=age)
    balance = c.nonneg('balance')
    early = c.flag('early')
    a = RRSP(p, initial_year=Y, balance=balance, rate=0,
             contribution_room=0)
    if early:
        a.rrif_conversion_year = min(Y - 1, Y + 71 - age)
    if age < 71:
        share = 1 / (90 - age) if early else 0
    elif age == 71 and not early:
        share = 0
    else:
        share = k.RRSP_RRIF_WITHDRAWAL_MIN[min(age, 95)]
    c.eq('minimum', a.minimum_distribution(), balance * share)
    out = c.nonneg('withdrawal')
    a.add_transaction(-out, 0.5)
    over = out - balance * share
    if over < 0:
        over = 0
    rate = 0.3 if over > 15000 else 0.2 if over > 5000 else 0.1
    c.eq('tax withheld', a.tax_withheld, over * rate)


@contract('P13', kinds=('bounded',))
def through_conversion(c):
    """Over the years around conversion: minimums follow the opening balance
    of each year, and once they start contributions stop."""
    age = c.choice('age', [69, 70])
    p = a_person(c, age=age)
    law, rates = rules(c)
    at = Y + c.choice('conversion', list(range(0, 72 - age)))
    rate = c.real('rate', lo=0, hi=1)
    a = RRSP(p, initial_year=Y, balance=c.nonneg('balance'), rate=rate,
             constants=law, contribution_room=c.nonneg('room'),
             rrif_conversion_year=at)
    for i in range(3):
        y = Y + i
        share = 0
        if y > at:
            share = law.RRSP_RRIF_WITHDRAWAL_MIN.get(p.age(y), 0)
            if p.age(y) < 71:
                share = 1 / (90 - p.age(y))
        opening = a.balance
        c.eq('minimum of the year', a.min_outflow_limit, -opening * share)
        if y > at:
            c.eq('no contributions', sum(a.max_inflows().values()), 0)
        out = opening * c.real('withdrawal %d' % i, lo=0, hi=1)
        a.add_transaction(-out, 0)
        c.eq('minimum after a withdrawal', a.min_outflow_limit,
             -opening * share)
        c.eq('taxable income', a.taxable_income, out)
        over = out - opening * share
        c.eq('tax withheld', a.tax_withheld,
             over * rates[0] if over > 0 else 0)
        a.next_year()
