"""What DESIGN.md says about each property besides its contracts."""
NOTES = {
'P01': ('The oracle is the closed form: opening balance and each flow grown from its own time. It is written in `contracts/common.py` (grow, flows_to) with its own powers and exponentials, not by the functions under test.',
        'Flows are a map with any number of times (0 and 1 are named cases), any amounts; rates above -100%, at most 1000%; compounding n times a year (any n) or continuous.'),
'P02': ('Algebraic laws (composition, inverse, neutral element, monotonicity) and the formula itself. The time needed to grow is decided as the inverse of growth.',
        'Powers with symbolic exponents are atoms with the laws of powers in the normal form.'),
'P03': ('Times are (i + w)/n; weights 1/n; flows are the weight times the amount over the total weight.', 'Regular schedules of any n up to 400, and any schedule given as a map.'),
'P04': ('Three invariants (`Contributions`, `Running`, `Withdrawals`) state the state of the two functions at each time by what came in, what was put in or taken out for it, and the least running total from there on; they determine the result uniquely.',
        'Flows of any number of times and any order; the bounded contract compares with an independent fold.'),
'P05': ('What a suggestion must achieve: after making it (with `balance_at_time` of P01) the account is at the limit asked for, or at the smaller amount that a caller\'s limit leaves.', 'Limits, balances, schedules and existing flows are arbitrary.'),
'P06': ('As P05 for debts: between the smaller of minimum payment and what is owed, and the minimum plus what is available.', 'Payment schedules and existing payments are arbitrary.'),
'P07': ('The oracle is the integral of marginal rates: the invariant of `add_brackets` states that each bracket\'s accumulated tax is the tax on income up to it, the recurrence of the integral; monotonicity and continuity are contracts of their own.', 'Any number of brackets and of years for which they are known.'),
'P08': ('The sum over people of the tax on the sum of their parts. Groups are decided by induction on `tax_people`, with taxes of persons and couples arbitrary numbers.', 'Persons are taxed by a tax of two brackets (any brackets: P07).'),
'P09': ('The sum over jurisdictions, each an arbitrary function of what it is handed (`Levy`). Combined brackets are compared with the sum of marginal rates at an arbitrary income. Spousal amounts and pension credits are compared with the text of the law as documented in the code.', 'The published law (constants) is walked through for every year and province that the repository has.'),
'P10': ('Ratios of price levels; the group laws of a change of units. Invariants: the nearest known year, and the product of a scenario\'s inflation.', 'Scenarios given as lists, and the tables of adjustments, for up to four years.'),
'P11': ('A ghost history: what each property was when its year ended. Every operation of the interface (looking, setting, advancing, recording, inputs) is one step from an arbitrary history.', 'Sequences of operations on real accounts and people are bounded; the step is for any history.'),
'P12': ('The recurrence of room as a ghost variable per owner and kind; net contributions are sums over any number of linked accounts.', 'Accrual by year of law, income and age; two-year sequences bounded.'),
'P13': ('Taxable income, deduction and withholding as sums over flows; minimum withdrawal fractions by a table written in the contract from the published one.', 'Ages and conversion years by cases.'),
'P14': ('The recurrence of average cost as the step of an invariant on `_realize_gains`, and conservation (what came in, less what is left in the cost base, is the gain) as its invariant part.', 'Withdrawals from a positive balance; whole lives over three years bounded.'),
'P15': ('One ghost limit per group: the limit left is the limit less the flows of all accounts.', 'Any number of linked accounts with any flows; sequences bounded.'),
'P16': ('Two-place conservation at each time, and inversion by undo.', 'Transfers at one named time for any existing flows; several times and delays bounded.'),
'P17': ('Income statement identities of a forecast year, written from the description of the forecast in `forecaster/forecast/base.py`.', 'Strategies are given: they return any flows at the times of the contract. P18 decides the real ones.'),
'P18': ('For each structure the allocation is characterised by its defining conditions (feasible, as much as possible, in order, in proportion by water-filling), not by another algorithm. Maximum flows are taken by contract: their optimality conditions by dual prices.', 'Structures of up to four accounts; the contract of networkx; whole amounts (multiples of the precision).'),
'P19': ('The formulas of the strategies\' documentation, clamped, and the weighted mean of returns.', 'Real dates of birth and retirement in four cases.'),
'P20': ('The formulas of the strategies\' documentation over any number of people and accounts.', 'The retirement year within a forecast over three years.'),
'P21': ('Structural equality after a round trip, numbers by value.', 'Nestings listed in the contracts; json and files by contract, the real ones in the evaluations.'),
'P22': ('Everything reachable from the inputs is compared before and after by a deep comparison that follows references (`State`).', 'Two runs over two years of one group of two people, three accounts and a debt; strategies given.'),
'P23': ('Consistency relations as invariants of each change of spouse or owner from any consistent state.', 'Four years of income; ages on sampled dates; people are advanced no later than their accounts.'),
'P24': ('Relational: the same operation with ordinary and with high-precision numbers, one of them a type that refuses floats.', 'Two years of each kind of account, and a forecast with given strategies.'),
}
