NOT_CLAIMED = {}
claim('P01', 'proof', PROOF)
claim('P02', 'proof', PROOF)
claim('P03', 'proof', PROOF)
claim('P04', 'proof', PROOF + 'Loops whose order matters are decided by stated invariants (entry, one arbitrary step of the real body, finish). ')
claim('P05', 'proof', PROOF + 'The default schedule of each kind of account is checked as well, for each kind (bounded). ')
claim('P06', 'proof', PROOF)
claim('P07', 'proof', PROOF + 'Any number of brackets and of years; loops whose order matters are decided by stated invariants (entry, one arbitrary step of the real body, finish). ')
claim('P08', 'other', 'Proved: any incomes, deductions and credits, any number of accounts per person, and any number of people by induction on their number. Bounded: the tax of a person is for a tax with two brackets (see P07 for any brackets), and the kinds and orders of listing are for up to three people (all marriages). ')
claim('P09', 'other', 'Proved: tax of any number of jurisdictions, whatever the tax of each; any incomes, rates and amounts of law; any number of accounts and withdrawals. Bounded to two or three jurisdictions of one or two brackets for combined brackets, groups of two people for spousal amounts, two jurisdictions for credits together with deductions, and the published law. ')
claim('P10', 'other', 'Proved for any number of known years and for any length of a scenario: the value taken for a year, the price-level adjustment, and that price levels rise by the year\'s inflation (loops by stated invariants). Scenarios given as lists and the tables of adjustments are bounded to four years, any rates. ')
claim('P11', 'other', 'The yearly step is proved for any history; sequences of three operations and two to four years of every kind of account and of people are bounded, any amounts. ')
claim('P12', 'other', 'The yearly step of contribution room is proved for any flows, incomes, accruals and number of linked accounts; shared room proved for up to three linked accounts with any flows; initial room and two-year sequences bounded, any amounts. ')
claim('P13', 'other', 'Taxable income, deductions, withholding, minimum withdrawals and contributions of one year are proved for any flows, balances, incomes and rates, by cases of age and conversion year; sequences of years and the published law bounded, any amounts. ')
claim('P14', 'proof', PROOF + 'Covers a year of any flows at any number of times, any growth and compounding (loop by a stated invariant; withdrawals from a positive balance); that gains over a life add up to money out less money in follows year by year from the cost base. Flows as they come over two years, whole lives of three years and withdrawals in part are checked as well (bounded, any amounts). ')
claim('P15', 'other', 'The limit left by any flows of any number of linked accounts is proved, by kind of limit; hypothetical flows are proved; sequences of flows and links of up to three accounts bounded, any amounts. ')
claim('P16', 'other', 'A transfer at a given time, and undoing it, are proved for any amounts and any flows of pools and accounts; transfers at several times, delayed transfers (made as soon as there is money) and sequences bounded, any amounts; money made by growth is evaluated only. ')
claim('P17', 'other', 'Tax of the year proved for up to four people; one and two years of a forecast with any incomes, rates and decisions of its strategies bounded to one account of each kind. The strategies that decide flows are given, not executed (see P18 for those). ')
claim('P19', 'proof', PROOF + 'Covers both strategies, the bounds and the weighted return, for any age, retirement age, target, bounds, period and returns; the rate of a real account from dates of birth and retirement is checked as well, for four cases of dates (bounded). ')
claim('P20', 'proof', PROOF + 'Covers every strategy for any number of people and accounts, the schedule and its minimum for any strategies; the retirement year of a forecast is checked over three years for one and two people (bounded). ')
claim('P21', 'other', 'Proved for mappings and lists of any size, for any numbers and, by induction, for nestings of any depth (at high precision: within the nestings listed in the contracts), given assumed contracts of the json library and of the file system (what is dumped is loaded, keys as text, non-integers through parse_float); text other than numbers, and types the user adds, are sampled. The same contracts are evaluated on the real library and files. ')
claim('P23', 'other', 'Proved: one change of spouse or owner in every state of those concerned (hence any history), sums over any number of accounts, one year of income. Bounded: four years of income, registered accounts, ages on sampled dates, and dates of birth and retirement given as text or years. ')
claim('P22', 'other', 'What is built from settings, given arguments and other parameters is proved for any values, for each parameter and argument; that running leaves the inputs (everything reachable from them) as they were, gives the same again, and works with copies that agree is bounded to two runs over two years of one group of two people, three accounts (two of them linked) and a debt, any amounts. The strategies that decide flows are given there. ')
claim('P24', 'other', 'Numbers of a high-precision type are modelled as exact and as an error to mix with floats (as Decimal), so equality up to rounding is equality. Proved: conversion of properties of two objects after any change, growth over time, timings. Bounded: two years of each kind of account, taxes, people, strategies and a forecast with given strategies, any amounts. The same contracts are evaluated with decimal.Decimal. ')
claim('P18', 'other', 'For the priority structures listed in the contracts (ordered, weighted, nested, with limits of groups, shared limits, listed twice, with and without required minimums, in both directions, and those of the strategies and debt strategies) every postcondition is discharged for any whole amounts, limits, minimums, balances and rates, given an assumed contract of networkx\'s minimum-cost flow; bounded in shape. Other structures are evaluated on random real accounts with the real networkx. ')
