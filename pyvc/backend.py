"""Discharging obligations: normalisation first, then z3, then cvc5."""
import itertools
import time
from fractions import Fraction

import z3

from pyvc import algebra as A
from pyvc.algebra import Poly, Unsupported
from pyvc.core import SymBool, neg, conj, compare


def quick_sign(p):
    """+1/-1 when p is obviously positive/negative, else 0."""
    s = 0
    for m, c in p.t.items():
        for a, e in m:
            if not A.by_id(a).pos and not (isinstance(e, int) and e % 2 == 0):
                return 0
            if not A.by_id(a).pos:
                return 0
        t = 1 if c > 0 else -1
        if s and s != t:
            return 0
        s = t
    return s


def linear1(p):
    """(atom, coefficient, constant) when p = coefficient*atom + constant"""
    if not 1 <= len(p.t) <= 2:
        return None
    a = k = None
    d = Fraction(0)
    for m, c in p.t.items():
        if m == ():
            d = c
        elif len(m) == 1 and m[0][1] == 1 and a is None:
            a, k = m[0][0], c
        else:
            return None
    return None if a is None else (a, k, d)


def literal_polys(b):
    if b.op in ('and', 'or'):
        for a in b.args:
            yield from literal_polys(a)
    else:
        yield b


def leaf_links(atoms):
    """Marks that tie the sums and the size of one collection case."""
    out = set()
    for i in atoms:
        if isinstance(i, int):
            at = A.by_id(i)
            if at.kind == 'sum':
                out.add('leaf ' + at.data[0])
            elif at.kind == 'count':
                out.add('leaf ' + at.name[1:])
    return out


def expand_def(atoms):
    """Atoms that the definitions of the given atoms mention."""
    out = set()
    for i in atoms:
        if not isinstance(i, int):
            continue
        at = A.by_id(i)
        if at.kind in ('inv', 'base', 'floor', 'log'):
            out |= at.data.atoms()
        elif at.kind == 'pow':
            out |= at.data[0].atoms() | {a for a, _ in at.data[1]}
    return out


def extended(h):
    """Atoms of a literal, of their definitions, and their links."""
    if h._ext is None:
        ext = set(h.atoms())
        ext |= expand_def(ext)
        ext |= leaf_links(ext)
        h._ext = frozenset(ext)
    return h._ext


class Backend(object):
    def __init__(self, timeout_ms=10000, feas_ms=2000, use_cvc5=True):
        self.timeout_ms = timeout_ms
        self.feas_ms = feas_ms
        self.use_cvc5 = use_cvc5
        self.cache = {}
        self.rels = {}
        self.vars = {}
        self.linear = False
        self.stats = {'z3_calls': 0, 'z3_s': 0.0, 'cvc5_calls': 0,
                      'cvc5_s': 0.0, 'cache_hits': 0}
        self.engine = None
        self.depth = 0

    # ---------------------------------------------------------- translation
    def clear(self, lit, known):
        """lit equivalent to (poly, op) without negative powers."""
        p, op = lit.p, lit.op
        strict_ineq = op in ('<', '<=')
        p, factors = A.without_inverses(p)
        if strict_ineq:
            for a, k in factors.items():
                if k % 2:
                    d = A.by_id(a).data
                    s = quick_sign(d) or known.get(d.key, 0)
                    if s < 0:
                        p = p.neg()
                    elif s == 0:
                        p = p.mul(d)
        low = {}
        for m in p.t:
            for a, e in m:
                if e < 0 and e < low.get(a, 0):
                    low[a] = e
        if low:
            mul = []
            for a, e in low.items():
                k = -e
                if not A.by_id(a).pos and strict_ineq and k % 2:
                    k += 1
                mul.append((a, k))
            p = p.mul(Poly({tuple(sorted(mul)): Fraction(1)}))
        return p, op

    def known_signs(self, hyps):
        known = {}
        for h in hyps:
            if h.op == '<':
                n, c = A.monic(h.p)
                known[n.key] = -1 if c > 0 else 1
        return known

    def relevant(self, hyps, seed):
        atoms = set(seed)
        atoms |= expand_def(atoms)
        atoms |= leaf_links(atoms)
        left = [(h, extended(h)) for h in hyps if isinstance(h, SymBool)]
        picked = []
        changed = True
        while changed:
            changed = False
            rest = []
            for x in left:
                ext = x[1]
                if atoms.isdisjoint(ext):
                    rest.append(x)
                else:
                    picked.append(x[0])
                    if not ext <= atoms:
                        new = ext - atoms
                        atoms |= new
                        atoms |= expand_def(new)
                        changed = True
            left = rest
        return picked, atoms

    PLAIN = ('var', 'count', 'floor', 'sum')

    def plain(self, b, level):
        """(formula, linear) of a term over plain variables; else None."""
        ints = level >= 2
        if b.cached is not None and b.cached[0] == ints:
            return b.cached[1]
        if b.op in ('and', 'or'):
            r, linear = [], True
            for a in b.args:
                f = self.plain(a, level)
                if f is None:
                    r = None
                    break
                r.append(f[0])
                linear = linear and f[1]
            if r is not None:
                r = (z3.And(r) if b.op == 'and' else z3.Or(r)), linear
        else:
            r = self.plain_rel(b.p, b.op, ints)
        b.cached = (ints, r)
        return r

    def plain_rel(self, p, op, ints):
        k = (p.key, op, ints)
        if k in self.rels:
            return self.rels[k]
        linear, r = True, None
        sides = [], []
        for m, c in p.t.items():
            fs = []
            if abs(c) != 1 or not m:
                fs.append(z3.RealVal(str(abs(c))))
            degree = 0
            for a, e in m:
                if e != int(e) or e < 0 or e > 8 or \
                        A.by_id(a).kind not in self.PLAIN:
                    self.rels[k] = None
                    return None
                degree += int(e)
                fs.extend([self.plain_var(a, ints)] * int(e))
            linear = linear and degree <= 1
            sides[c < 0].append(fs[0] if len(fs) == 1 else z3.Product(fs))
        lhs, rhs = [z3.RealVal(0) if not x else
                    x[0] if len(x) == 1 else z3.Sum(x) for x in sides]
        r = {'<': lhs < rhs, '<=': lhs <= rhs, '==': lhs == rhs,
             '!=': lhs != rhs}[op], linear
        self.rels[k] = r
        return r

    def plain_var(self, a, ints):
        at = A.by_id(a)
        k = (a, ints and at.integer and at.kind != 'count')
        if k not in self.vars:
            self.vars[k] = z3.ToReal(z3.Int('a%d' % a)) if k[1] \
                else z3.Real('a%d' % a)
        return self.vars[k]

    def translate_plain(self, lits, level):
        out, atoms = [], set()
        linear = True
        for b in lits:
            f = self.plain(b, level)
            if f is None:
                return None
            out.append(f[0])
            linear = linear and f[1]
            atoms |= b.atoms()
        ints = level >= 2
        done, todo = set(), atoms
        while todo:
            a = todo.pop()
            done.add(a)
            at = A.by_id(a)
            x = Poly.atom(at)
            new = []
            if at.pos:
                new.append(SymBool('<', x.neg()))
            if at.kind == 'floor':
                new.append(SymBool('<=', x.sub(at.data)))
                new.append(SymBool('<', at.data.sub(x).sub(Poly.const(1))))
            elif at.kind == 'count':
                new.append(SymBool('<=', x.neg()))
                new.append(SymBool('or', args=[
                    SymBool('==', x), SymBool('<=', Poly.const(1).sub(x))]))
            for b in new:
                f = self.plain(b, level)
                if f is None:
                    return None
                out.append(f[0])
                linear = linear and f[1]
                todo |= b.atoms() - done
        self.linear = linear
        return out, {a: self.plain_var(a, ints) for a in done}

    def translate(self, lits, level):
        """z3 formula list for the conjunction of boolean terms."""
        r = self.translate_plain(lits, level)
        if r is not None:
            return r
        return self.translate_all(lits, level)

    def translate_all(self, lits, level):
        known = self.known_signs([l for l in lits if l.op == '<'])
        self.linear = False
        cleared = {}
        atoms = set()

        def prep(b):
            if b.op in ('and', 'or'):
                for a in b.args:
                    prep(a)
            else:
                r = self.clear(b, known)
                cleared[id(b)] = r
                atoms.update(r[0].atoms())
        for l in lits:
            prep(l)
        extra = []          # (poly, op) side facts, or ('imp', ...) tuples
        done = set()
        todo = set(atoms)
        while todo:
            a = todo.pop()
            if a in done:
                continue
            done.add(a)
            at = A.by_id(a)
            new = []
            if at.pos:
                extra.append((Poly.atom(at).neg(), '<'))
            if at.kind == 'floor':
                f = Poly.atom(at)
                for lit in (SymBool('<=', f.sub(at.data)),
                            SymBool('<', at.data.sub(f).sub(Poly.const(1)))):
                    new.append(self.clear(lit, known))
            elif at.kind == 'base' and level >= 1 and not at.data.is_const():
                p, op = self.clear(
                    SymBool('==', Poly.atom(at).sub(at.data)), known)
                new.append((p, op))
            elif at.kind == 'base' and at.data.is_const():
                new.append((Poly.atom(at).sub(at.data), '=='))
            elif at.kind == 'count':
                extra.append((Poly.atom(at).neg(), '<='))
                one = Poly.const(1)
                extra.append(('or', (Poly.atom(at), '=='),
                              (one.sub(Poly.atom(at)), '<=')))
            elif at.kind == 'pow' and level >= 1:
                base, m = at.data
                mp = Poly({m: Fraction(1)})
                P = Poly.atom(at)
                one = Poly.const(1)
                for bs, ms, rel in (
                        ((one.sub(base), '<='), (mp.neg(), '<='),
                         (one.sub(P), '<=')),
                        ((one.sub(base), '<='), (mp, '<='),
                         (P.sub(one), '<=')),
                        ((base.sub(one), '<='), (mp.neg(), '<='),
                         (P.sub(one), '<=')),
                        ((base.sub(one), '<='), (mp, '<='),
                         (one.sub(P), '<='))):
                    bs = self.clear(SymBool(bs[1], bs[0]), known) \
                        if not bs[0].is_const() else bs
                    ms = self.clear(SymBool(ms[1], ms[0]), known)
                    for x in (bs, ms):
                        todo |= x[0].atoms() - done
                    extra.append(('imp', bs, ms, rel))
            elif at.kind == 'log' and at.data is not None:
                # the sign of a logarithm
                L, one = Poly.atom(at), Poly.const(1)
                for cond, then in (
                        (SymBool('<', one.sub(at.data)), (L.neg(), '<')),
                        (SymBool('<', at.data.sub(one)), (L, '<')),
                        (SymBool('==', at.data.sub(one)), (L, '=='))):
                    x = self.clear(cond, known)
                    todo |= x[0].atoms() - done
                    extra.append(('imp', x, x, then))
            for n in new:
                extra.append(n)
                todo |= n[0].atoms() - done
        atoms = done
        # common denominators of exponents
        dens = {}

        def scan(p):
            for m in p.t:
                for a, e in m:
                    if isinstance(e, Fraction):
                        d = dens.get(a, 1)
                        k = e.denominator
                        from math import gcd
                        dens[a] = d * k // gcd(d, k)
        for r in cleared.values():
            scan(r[0])
        for x in extra:
            if x[0] == 'or' or x[0] == 'imp':
                for y in x[1:]:
                    scan(y[0])
            else:
                scan(x[0])
        var = {}

        def v(a):
            if a not in var:
                at = A.by_id(a)
                if at.integer and level >= 2 and at.kind != 'count':
                    var[a] = z3.ToReal(z3.Int('a%d' % a))
                else:
                    var[a] = z3.Real('a%d' % a)
            return var[a]

        def tr(p):
            terms = []
            for m, c in p.t.items():
                fs = []
                if c != 1 or not m:
                    fs.append(z3.RealVal(str(c)))
                for a, e in m:
                    n = e * dens.get(a, 1)
                    n = int(n)
                    x = v(a)
                    if n == 1:
                        fs.append(x)
                    elif n <= 4:
                        fs.extend([x] * n)
                    else:
                        fs.append(x ** n)
                terms.append(fs[0] if len(fs) == 1 else z3.Product(fs))
            if not terms:
                return z3.RealVal(0)
            return terms[0] if len(terms) == 1 else z3.Sum(terms)

        def rel(r):
            p, op = r
            if p.is_const():
                return z3.BoolVal(compare(p, op))
            neg_terms = {m: -c for m, c in p.t.items() if c < 0}
            pos_terms = {m: c for m, c in p.t.items() if c > 0}
            lhs, rhs = tr(Poly(pos_terms)), tr(Poly(neg_terms))
            return {'<': lhs < rhs, '<=': lhs <= rhs, '==': lhs == rhs,
                    '!=': lhs != rhs}[op]

        def form(b):
            if b.op == 'and':
                return z3.And([form(a) for a in b.args])
            if b.op == 'or':
                return z3.Or([form(a) for a in b.args])
            return rel(cleared[id(b)])
        out = [form(l) for l in lits]
        for x in extra:
            if x[0] == 'or':
                out.append(z3.Or([rel(y) for y in x[1:]]))
            elif x[0] == 'imp':
                out.append(z3.Implies(z3.And(rel(x[1]), rel(x[2])),
                                      rel(x[3])))
            else:
                out.append(rel(x))
        for a, x in var.items():        # positive roots of positive bases
            if dens.get(a, 1) > 1 and A.by_id(a).pos:
                out.append(x > 0)
        return out, var

    # --------------------------------------------------------------- solving
    def solve(self, forms, ms, logic='QF_NRA'):
        t = time.time()
        if self.linear and logic:
            logic = 'QF_LRA'
        s = z3.SolverFor(logic) if logic else z3.Solver()
        s.set('timeout', ms)
        ctx = s.ctx.ref()
        for f in forms:
            if isinstance(f, z3.BoolRef):   # (less overhead than s.add)
                z3.Z3_solver_assert(ctx, s.solver, f.as_ast())
            else:
                s.add(f)
        r = s.check()
        self.stats['z3_calls'] += 1
        self.stats['z3_s'] += time.time() - t
        return str(r), s

    def cvc5_check(self, forms, ms):
        import cvc5
        t = time.time()
        s = z3.Solver()
        s.add(forms)
        text = s.to_smt2()
        try:
            tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
            slv = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
            slv.setOption('tlimit-per', str(ms))
            slv.setLogic('QF_NIRA')
            parser = cvc5.InputParser(slv)
            parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, 'q')
            sm = parser.getSymbolManager()
            res = 'unknown'
            while True:
                cmd = parser.nextCommand()
                if cmd.isNull():
                    break
                if 'set-logic' in str(cmd):
                    continue
                o = cmd.invoke(slv, sm).strip()
                if o in ('sat', 'unsat', 'unknown'):
                    res = o
        except Exception as e:     # noqa
            res = 'error: %s' % e
        self.stats['cvc5_calls'] += 1
        self.stats['cvc5_s'] += time.time() - t
        return res

    def entails(self, pc, facts, cond):
        """True only if pc and facts imply cond."""
        if cond is True:
            return True
        if cond is False:
            return False
        hyps = list(pc) + list(facts)
        ck = cond.key()
        for h in hyps:
            if h.op == cond.op and h.key() == ck:
                return True
        if cond.op in ('<', '<=', '!='):
            s = quick_sign(cond.p)
            if s and cond.op in ('<', '<='):
                return s < 0
            if s and cond.op == '!=':
                return True
        if cond.op == '==' and quick_sign(cond.p):
            return False
        r = self.interval(hyps, cond)
        if r is not None:
            return r
        picked, atoms = self.relevant(hyps, cond.atoms())
        key = (frozenset(h.key() for h in picked), ck)
        if key in self.cache:
            self.stats['cache_hits'] += 1
            return self.cache[key]
        r = self._decide(picked, cond)
        if r or not self.depth:
            self.cache[key] = r
        return r

    def interval(self, hyps, cond):
        """Decide a condition on a single variable from its bounds."""
        if cond.op in ('and', 'or'):
            return None
        ln = linear1(cond.p)
        if ln is None:
            return None
        a, k, d = ln                    # k * a + d op 0
        lo, hi = None, None             # (value, strict)
        at = A.by_id(a)
        if at.pos:
            lo = (Fraction(0), True)
        elif at.kind == 'count':
            lo = (Fraction(0), False)
        for h in hyps:
            if h.op not in ('<', '<=', '=='):
                continue
            lh = h._lin
            if lh is None:
                lh = h._lin = linear1(h.p) or ()
            if not lh or lh[0] != a:
                continue
            v = -lh[2] / lh[1]
            st = h.op == '<'
            if h.op == '==' or lh[1] > 0:
                if hi is None or v < hi[0] or (v == hi[0] and st):
                    hi = (v, st)
            if h.op == '==' or lh[1] < 0:
                if lo is None or v > lo[0] or (v == lo[0] and st):
                    lo = (v, st)
        if lo and hi and (lo[0] > hi[0] or (
                lo[0] == hi[0] and (lo[1] or hi[1]))):
            return True                 # contradictory hypotheses
        v = -d / k
        below = hi is not None and (hi[0] < v or (hi[0] == v and hi[1]))
        above = lo is not None and (lo[0] > v or (lo[0] == v and lo[1]))
        at_most = hi is not None and hi[0] <= v
        at_least = lo is not None and lo[0] >= v
        if cond.op == '!=':
            return True if below or above else None
        if cond.op == '==':
            return True if at_most and at_least else (
                False if below or above else None)
        if k < 0:
            below, above, at_most, at_least = above, below, at_least, at_most
        if cond.op == '<':
            return True if below else (False if at_least else None)
        return True if at_most else (False if above else None)

    def _decide(self, hyps, cond):
        n = neg(cond)
        lem = self.sum_lemmas(hyps + [n])
        try:
            forms, _ = self.translate(hyps + lem + [n], 1)
        except Unsupported:
            return False
        r, _ = self.solve(forms, self.feas_ms)
        if r == 'unknown':
            r, _ = self.solve(forms, self.feas_ms, None)
        return r == 'unsat'

    # ------------------------------------------------------- lemmas on sums
    def sum_lemmas(self, lits):
        """Facts about the sums that occur in the literals."""
        e = self.engine
        if self.depth > 1:
            return []
        atoms = set()
        for l in lits:
            atoms |= l.atoms()
        atoms |= expand_def(atoms)
        sums = {}
        for a in atoms:
            at = A.by_id(a)
            if at.kind == 'sum':
                sums.setdefault(at.data[0], []).append(at)
        out = []
        if not sums or e is None:
            return out
        for key, ats in sums.items():
            leaf = e.leaves.get(key)
            if leaf is None:
                continue
            n = Poly.atom(leaf.n_atom)
            if self.empty_leaf(leaf):
                out.append(SymBool('==', n))
                for at in ats:
                    out.append(SymBool('==', Poly.atom(at)))
                continue
            for at in ats:
                S = Poly.atom(at)
                m = Poly({at.data[1]: Fraction(1)})
                out.append(SymBool('or', args=[
                    SymBool('!=', n), SymBool('==', S)]))
                sg = self.pointwise_sign(leaf, m)
                if sg is None:
                    continue
                if sg in ('+', '0+'):
                    out.append(SymBool('<=', S.neg()))
                    if sg == '+':
                        out.append(SymBool('or', args=[
                            SymBool('==', n), SymBool('<', S.neg())]))
                elif sg in ('-', '0-'):
                    out.append(SymBool('<=', S))
                    if sg == '-':
                        out.append(SymBool('or', args=[
                            SymBool('==', n), SymBool('<', S)]))
                elif sg == '0':
                    out.append(SymBool('==', S))
            # monomials compared pointwise
            for a1, a2 in itertools.permutations(ats, 2):
                m1 = Poly({a1.data[1]: Fraction(1)})
                m2 = Poly({a2.data[1]: Fraction(1)})
                if self.pointwise(leaf, compare(m1.sub(m2), '<=')):
                    out.append(SymBool(
                        '<=', Poly.atom(a1).sub(Poly.atom(a2))))
            # linear facts about every element, summed
            present = {a.data[1] for a in ats} | {()}
            for f in leaf.facts:
                if f.op not in ('<', '<=', '=='):
                    continue
                try:
                    s = e.sum_over(leaf, f.p)
                except Unsupported:
                    continue
                ok = all(A.by_id(x).kind != 'sum' or
                         A.by_id(x).data[1] in present for x in s.atoms())
                if ok and not s.is_const():
                    out.append(SymBool('==' if f.op == '==' else '<=', s))
        return out

    def empty_leaf(self, leaf):
        """The facts about the elements contradict the path."""
        k = ('empty', len(leaf.facts), len(self.engine.pc))
        if k not in leaf.cache:
            hyps = self.plain_pc() + leaf.facts
            r = False
            for f in leaf.facts:
                if self.interval([h for h in hyps if h is not f], neg(f)):
                    r = True
                    break
            if not r and leaf.facts:
                atoms = set()
                for f in leaf.facts:
                    atoms |= f.atoms()
                picked, _ = self.relevant(hyps, atoms)
                try:
                    forms, _ = self.translate(picked, 1)
                    r = self.solve(forms, self.feas_ms)[0] == 'unsat'
                except Unsupported:
                    r = False
            leaf.cache[k] = r
        return leaf.cache[k]

    def plain_pc(self):
        return [h for h in self.engine.pc if not any(
            A.by_id(a).kind in ('sum', 'count') for a in h.atoms())]

    def pointwise(self, leaf, cond):
        if cond is True or cond is False:
            return cond
        self.depth += 1
        try:
            return self.entails(self.plain_pc(), leaf.facts, cond)
        finally:
            self.depth -= 1

    def pointwise_sign(self, leaf, m):
        k = (m.key, len(leaf.facts), len(self.engine.pc))
        if k in leaf.cache:
            return leaf.cache[k]
        r = None
        if self.pointwise(leaf, SymBool('<', m.neg())):
            r = '+'
        elif self.pointwise(leaf, SymBool('<', m)):
            r = '-'
        elif self.pointwise(leaf, SymBool('==', m)):
            r = '0'
        elif self.pointwise(leaf, SymBool('<=', m.neg())):
            r = '0+'
        elif self.pointwise(leaf, SymBool('<=', m)):
            r = '0-'
        if r or not self.depth:
            leaf.cache[k] = r
        return r

    # ---------------------------------------------------------- obligations
    def prove(self, engine, hyps, cond):
        """('proved'|'refuted'|'unknown', back end, model)."""
        self.engine = engine
        hyps = [h for h in hyps if isinstance(h, SymBool)]
        if cond is False:
            return self._smt(hyps, None, set())
        if cond.op == '==':
            try:
                if self.is_zero(cond.p):
                    return 'proved', 'by normalisation', {}
            except Unsupported:
                pass
        elif cond.op in ('<', '<='):
            s = quick_sign(cond.p)
            if s < 0:
                return 'proved', 'by normalisation', {}
        ck = cond.key()
        if any(h.key() == ck for h in hyps):
            return 'proved', 'by normalisation', {}
        r = self._smt(hyps, cond, cond.atoms())
        if r[0] == 'proved':
            return r
        eq = self.solved_equalities(hyps)
        if eq:
            try:
                r2 = self.prove_substituted(hyps, cond, eq)
            except Unsupported:
                r2 = None
            if r2:
                return r2
        return r

    def solved_equalities(self, hyps):
        out = {}
        for h in hyps:
            if h.op != '==':
                continue
            ln = linear1(h.p)
            if ln and A.by_id(ln[0]).kind == 'var':
                out[ln[0]] = Poly.const(-ln[2] / ln[1])
        return out

    def prove_substituted(self, hyps, cond, eq):
        from pyvc import core

        def lit(b):
            if b is True or b is False:
                return b
            if b.op in ('and', 'or'):
                f = core.conj if b.op == 'and' else core.disj
                return f(*[lit(x) for x in b.args])
            return compare(core.rewrite(b.p, eq), b.op)
        cond = lit(cond)
        if cond is True:
            return 'proved', 'by normalisation', {}
        if cond is False:
            return None
        if cond.op == '==' and self.is_zero(cond.p):
            return 'proved', 'by normalisation', {}
        hyps = [lit(h) for h in hyps if h.op != '==' or
                linear1(h.p) is None]
        if any(h is False for h in hyps):
            return 'proved', 'by normalisation', {}
        r = self._smt([h for h in hyps if h is not True], cond, cond.atoms())
        return r if r[0] == 'proved' else None

    def is_zero(self, p):
        p, _ = A.without_inverses(p)
        if not p.t:
            return True
        bases = {}
        for m in p.t:
            for a, e in m:
                at = A.by_id(a)
                if at.kind == 'base' and not at.data.is_const() or \
                        (at.kind == 'base' and isinstance(e, int)):
                    bases[a] = at.data
        if not bases:
            return False
        res = Poly({})
        for m, c in p.t.items():
            term = Poly({(): c})
            rest = []
            for a, e in m:
                if a in bases:
                    n = int(Fraction(e).__floor__())
                    if abs(n) > 40:
                        return False
                    f = Fraction(e) - n
                    if n > 0:
                        term = term.mul(bases[a].ipow(n))
                    elif n < 0:
                        term = term.mul(A.inverse(bases[a]).ipow(-n))
                    if f:
                        rest.append((a, A._norm_exp(f)))
                else:
                    rest.append((a, e))
            if rest:
                term = term.mul(Poly({tuple(rest): Fraction(1)}))
            res = res.add(term)
        res, _ = A.without_inverses(res)
        return not res.t

    def _smt(self, hyps, cond, atoms):
        if cond is None:
            picked, lits = hyps, []
        else:
            picked, _ = self.relevant(hyps, atoms)
            lits = [neg(cond)]
        lem = self.sum_lemmas(picked + lits)
        # lemmas may bring further hypotheses into play
        if cond is not None and lem:
            more = set(atoms)
            for l in lem:
                more |= l.atoms()
            picked, _ = self.relevant(hyps, more)
        last = 'unknown'
        model = {}
        for level, logic, ms in ((0, 'QF_NRA', self.timeout_ms // 4),
                                 (1, 'QF_NRA', self.timeout_ms),
                                 (1, None, self.timeout_ms),
                                 (2, None, self.timeout_ms)):
            try:
                forms, var = self.translate(picked + lem + lits, level)
            except Unsupported as e:
                return 'unknown', str(e), {}
            if level == 2 and not any(
                    A.by_id(a).integer for a in var):
                continue
            r, s = self.solve(forms, ms, logic)
            if r == 'unsat':
                return 'proved', 'by z3', {}
            if r == 'sat':
                last = 'sat'
                model = self.model(s, var)
                if level >= 1 and not any(A.by_id(a).integer for a in var):
                    break
        if last != 'sat' and self.use_cvc5:
            forms, var = self.translate(picked + lem + lits, 1)
            r = self.cvc5_check(forms, self.timeout_ms)
            if r == 'unsat':
                return 'proved', 'by cvc5', {}
            if r == 'sat':
                last = 'sat'
        if last == 'sat':
            m2, exact = self.refine(hyps, lits)
            model = m2 or model
            if exact:
                model['(exact)'] = '1'
            return 'refuted', 'counterexample from the solver', model
        return 'unknown', 'solver gave no answer', {}

    def refine(self, hyps, lits):
        """A model of the whole path in which every collection case has at
        most one element, so that sums are interpreted."""
        e = self.engine
        if e is None:
            return {}, False
        full = list(hyps) + list(lits)
        have = {h.key() for h in full}
        for leaf in e.leaves.values():
            for f in leaf.facts:
                if f.key() not in have:
                    full.append(f)
        atoms = set()
        for l in full:
            atoms |= l.atoms()
        for _ in range(4):
            atoms |= expand_def(atoms)
        for leaf in e.leaves.values():
            n = Poly.atom(leaf.n_atom)
            zero = [SymBool('==', n)]
            one = [SymBool('==', n.sub(Poly.const(1)))]
            for a in list(atoms):
                at = A.by_id(a)
                if at.kind == 'sum' and at.data[0] == leaf.key:
                    S = Poly.atom(at)
                    m = Poly({at.data[1]: Fraction(1)})
                    zero.append(SymBool('==', S))
                    one.append(SymBool('==', S.sub(m)))
            full.append(SymBool('or', args=[
                SymBool('and', args=zero), SymBool('and', args=one)]))
        for level in (2, 1):
            try:
                forms, var = self.translate(full, level)
            except Unsupported:
                return {}, False
            if level == 2 and not any(
                    A.by_id(a).integer and A.by_id(a).kind != 'count'
                    for a in var):
                continue
            for logic in ('QF_NRA', None):
                if level == 2 and logic:
                    continue
                r, s = self.solve(forms, self.feas_ms * 2, logic)
                if r == 'sat':
                    exact = all(A.by_id(a).kind in (
                        'var', 'count', 'sum', 'floor') for a in var) and (
                        level == 2 or not any(
                            A.by_id(a).integer and
                            A.by_id(a).kind != 'count' for a in var))
                    return self.model(s, var), exact
                if r == 'unsat':
                    break
        return {}, False

    def model(self, s, var):
        out = {}
        try:
            m = s.model()
            for a in var:
                at = A.by_id(a)
                val = m.eval(var[a], model_completion=True)
                if z3.is_rational_value(val):
                    f = Fraction(val.numerator_as_long(),
                                 val.denominator_as_long())
                else:
                    try:
                        f = Fraction(val.approx(20).as_fraction())
                    except Exception:     # noqa
                        continue
                out[at.name] = str(f) if f.denominator < 10**6 \
                    else repr(float(f))
        except z3.Z3Exception:
            pass
        return out
