"""Contexts in which a contract runs.

The same contract text runs symbolically (all inputs at once, on every path)
and concretely (one input at a time, on the unmodified code: counterexample
replay and cross-check of the verifier)."""
import contextlib
import math
import random
from fractions import Fraction

CONTRACTS = {}


def contract(prop, name=None, kinds=('unbounded', 'bounded'), trials=200,
             note='', max_paths=4000, budget=120, timeout_ms=8000):
    """Register a contract of property `prop`.

    kinds: 'unbounded' (no bound on any collection), 'bounded' (collections
    of a stated size), 'concrete' (contract evaluated on generated inputs
    only: outside the verifier's reach)."""
    def deco(fn):
        c = dict(prop=prop, name=name or fn.__name__, fn=fn, kinds=kinds,
                 trials=trials, note=note or (fn.__doc__ or '').strip(),
                 max_paths=max_paths, budget=budget, timeout_ms=timeout_ms)
        CONTRACTS.setdefault(prop, {})[c['name']] = c
        return fn
    return deco


FINDINGS = {}


def finding(prop, id, what):
    """A probe of one recorded defect: fails while the defect is there."""
    def deco(fn):
        FINDINGS.setdefault(prop, {})[id] = dict(id=id, what=what, fn=fn)
        return fn
    return deco


class Reject(Exception):
    """A generated input does not meet the precondition."""


class Failed(Exception):
    def __init__(self, name, detail):
        Exception.__init__(self, '%s: %s' % (name, detail))
        self.name, self.detail = name, detail


class BaseCtx(object):
    unbounded = False       # symbolic, with collections of any size

    def pos(self, name, **k):
        return self.real(name, lo=0, lo_open=True, **k)

    def nonneg(self, name, **k):
        return self.real(name, lo=0, **k)

    def ge(self, name, a, b):
        return self.le(name, b, a)

    def flag(self, name):
        return self.choice(name, [False, True])

    @contextlib.contextmanager
    def scope(self, label):
        yield


class Part(BaseCtx):
    """Source of the values of one object."""

    def __init__(self, c, prefix):
        self.c, self.prefix = c, prefix

    def real(self, name, **k):
        return self.c.real('%s.%s' % (self.prefix, name), **k)

    def assume(self, cond):
        self.c.assume(cond)


class LeafPart(BaseCtx):
    def __init__(self, c, leaf):
        self.c, self.leaf = c, leaf

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False,
             integer=False, nice=None):
        x = self.leaf.fresh(name, pos=lo == 0 and lo_open, integer=integer)
        if lo is not None and not (lo == 0 and lo_open):
            self.leaf.facts.append(x > lo if lo_open else x >= lo)
        if hi is not None:
            self.leaf.facts.append(x < hi if hi_open else x <= hi)
        return x

    def assume(self, cond):
        self.leaf.facts.append(cond)


# ------------------------------------------------------------------ symbolic
class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, engine, kind):
        from pyvc import core, coll, algebra
        self.core, self.coll, self.A = core, coll, algebra
        self.e = engine
        self.kind = kind
        self.bounded = kind == 'bounded'
        self.unbounded = not self.bounded

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False,
             integer=False, nice=None):
        A, core = self.A, self.core
        pos = lo is not None and (lo > 0 or bool(lo == 0 and lo_open))
        a = A.atom(('in', name, pos, integer), name,
                   'var', pos=pos, integer=integer)
        x = core.SymReal(A.Poly.atom(a))
        if lo is not None and not (lo == 0 and lo_open):
            self.assume(x > lo if lo_open else x >= lo)
        if hi is not None:
            self.assume(x < hi if hi_open else x <= hi)
        self.e.inputs[name] = 'real'
        return x

    def integer(self, name, lo=None, hi=None, nice=None):
        return self.real(name, lo=lo, hi=hi, integer=True, nice=nice)

    def choice(self, name, options):
        i = self.e.choose(len(options))
        self.e.notes.append(['choice', name, i])
        return options[i]

    def size(self, name, lo, hi, unbounded=None):
        """A collection size: case-split up to hi."""
        return self.choice(name, list(range(lo, hi + 1)))

    def time_map(self, name, sign=None, ends=True, times=None, lo=0, hi=1,
                 nonempty=False, share=None, open_times=True):
        """An arbitrary finite {time: value} map, times in [0, 1].

        sign: None, '+' (positive), '0+' (nonnegative), '-', '0-'.
        share: a list of other names this map may have times in common
        with."""
        if self.bounded:
            return self._bounded_map(name, sign, times, nonempty)
        d = self.coll.VDict()
        self._ends(d, name, sign, ends)
        self._generic(d, name, sign)
        if nonempty:
            c = d._count()
            if isinstance(c, self.core.SymReal):
                self.assume(c >= 1)
            elif c < 1:
                raise self.core.PathEnd()
        return d

    def _ends(self, d, name, sign, ends):
        if ends:
            for t in (0, 1):
                if self.choice('%s@%s' % (name, t), [False, True]):
                    d[t] = self._val('%s@%s.val' % (name, t), sign)

    def _generic(self, d, name, sign, domain=None):
        dn = domain or name
        if dn in self.e.domains:
            leaves = [l for l in self.e.leaves.values()
                      if l.domain is self.e.domains[dn]]
        else:
            leaves = self.e.domain_leaves(dn)
            self.e.domains[dn].universe = 'time'
        for leaf in leaves:
            k = leaf.fresh('key', pos=True)
            if not leaf.facts:
                leaf.facts.append(k < 1)
            v = leaf.fresh('val:' + name, pos=(sign == '+'))
            if sign == '-':
                leaf.facts.append(v < 0)
            elif sign == '0-':
                leaf.facts.append(v <= 0)
            elif sign == '0+':
                leaf.facts.append(v >= 0)
            d._put_gen(leaf, k, v)
        self.e.inputs[name] = 'time_map'

    def around(self, name, at, lo=None, hi=None, value=None, sign=None):
        """A map with an explicit entry at `at`, any number of entries
        below it (from lo on) and any number above (up to hi), for a proof
        by an invariant."""
        d = self.coll.VDict()
        self.entries(d, name + ' below', lo, at, lo_open=False, sign=sign)
        self.entries(d, name + ' above', at, hi, hi_open=False, sign=sign)
        d[at] = self.real(name + ' at') if value is None else value
        return d

    def entries(self, d, name, lo=None, hi=None, lo_open=True, hi_open=True,
                sign=None, most=None, pos=False, integer=False, make=None):
        """Add any number of entries to the map d, with keys between lo and
        hi and values of a sign and up to `most`."""
        leaves = self.e.domain_leaves(name)
        self.e.domains[name].universe = 'entries'
        for leaf in leaves:
            k = leaf.fresh('key', pos=pos or (
                lo is not None and not isinstance(lo, self.core.SymReal)
                and lo >= 0 and lo_open), integer=integer)
            if lo is not None:
                leaf.facts.append(k > lo if lo_open else k >= lo)
            if hi is not None:
                leaf.facts.append(k < hi if hi_open else k <= hi)
            v = leaf.fresh('val', pos=sign == '+')
            if sign == '0+':
                leaf.facts.append(v >= 0)
            if most is not None:
                leaf.facts.append(v <= most)
            d._put_gen(leaf, k, v if make is None else make(LeafPart(
                self, leaf)))

    def generic(self, k):
        """Whether k is the key of any element of a collection."""
        return self.coll._leaf_of_key(k) is not None

    def like(self, k, name, pos=False):
        """An arbitrary value for the key k (one for each element, if k is
        the generic one)."""
        leaf = self.coll._leaf_of_key(k)
        if leaf is not None:
            return leaf.fresh(name, pos=pos)
        return self.real('%s %s' % (name, k), lo=0 if pos else None,
                         lo_open=pos)

    def year_map(self, name, before, most=2, own=True):
        """A map from any number of years before `before` to values, none
        of them the same as a key of another map."""
        if self.bounded:
            n = self.choice(name + '.size', list(range(most + 1)))
            return self.coll.VDict(
                [(before - 1 - 2 * i, self.real('%s[-%d]' % (name, i)))
                 for i in range(n)])
        d = self.coll.VDict()
        leaves = self.e.domain_leaves(name)
        self.e.domains[name].universe = 'year of ' + name
        for leaf in leaves:
            k = leaf.fresh('key', integer=True)
            if not leaf.facts:
                leaf.facts.append(k < before)
            d._put_gen(leaf, k, leaf.fresh('val'))
        self.e.inputs[name] = 'year_map'
        return d

    def time_maps(self, names, signs=None, ends=True):
        """Several maps with arbitrary overlap of their times: one domain
        of times for each non-empty subset of the maps."""
        signs = signs or {}
        if self.bounded:
            return [self._bounded_map(n, signs.get(n), None, False)
                    for n in names]
        out = [self.coll.VDict() for _ in names]
        for d, n in zip(out, names):
            self._ends(d, n, signs.get(n), ends)
        for mask in range(1, 1 << len(names)):
            dom = 'times[%s]' % ','.join(
                n for i, n in enumerate(names) if mask >> i & 1)
            for i, n in enumerate(names):
                if mask >> i & 1:
                    self._generic(out[i], n, signs.get(n), dom)
        return out

    def objects(self, name, make, most=2):
        """Any number of objects: make(g) builds one from values that it
        draws from g, which has real, pos and nonneg."""
        if self.bounded:
            n = self.choice(name + '.size', list(range(most + 1)))
            return [make(Part(self, '%s%d' % (name, i))) for i in range(n)]
        out = self.coll.SymList()
        for leaf in self.e.domain_leaves(name):
            with self.coll.enter_leaf(leaf):
                x = make(LeafPart(self, leaf))
                if hasattr(x, '__dict__'):
                    x.__dict__['_pyvc_leaf'] = leaf     # (as a key)
                out.append(self.coll.GenItem(leaf, x))
        self.e.inputs[name] = 'objects'
        return out

    def as_set(self, xs):
        """The objects (drawn by `objects`, and others) as a set."""
        if isinstance(xs, self.coll.SymList):
            return self.coll.SymSet(list.__iter__(xs))
        return self.coll.OSet(xs)

    def _val(self, name, sign):
        return self.real(name, lo=0 if sign in ('+', '0+') else None,
                         hi=0 if sign in ('-', '0-') else None,
                         lo_open=sign == '+', hi_open=sign == '-')

    BOUNDED_TIMES = ([], [Fraction(1, 2)], [0, 1],
                     [Fraction(1, 4), Fraction(3, 4)],
                     [0, Fraction(1, 2), 1])

    def _bounded_map(self, name, sign, times, nonempty):
        opts = times or self.BOUNDED_TIMES
        if nonempty:
            opts = [o for o in opts if o]
        ts = self.choice(name + '.times', list(opts))
        d = self.coll.VDict()
        for t in ts:
            d[t] = self._val('%s@%s.val' % (name, t), sign)
        self.e.inputs[name] = 'time_map'
        return d

    def assume(self, cond):
        if isinstance(cond, self.core.SymBool):
            self.e.assume(cond)
        elif not cond:
            raise self.core.PathEnd()

    def check(self, name, cond):
        return self.e.check(name, cond)

    def precise(self, x):
        """Conversion to a high-precision type."""
        from pyvc.precise import precise
        return precise(x)

    def is_precise(self, x):
        return hasattr(x, 'of_its_own_type')

    def eq(self, name, a, b):
        return self.check(name, a == b)

    def le(self, name, a, b):
        return self.check(name, a <= b)

    def raises(self, name, fn, exc=Exception):
        from pyvc.algebra import Unsupported
        try:
            fn()
        except Unsupported:
            raise
        except exc:
            self.check(name, True)
            return
        self.check(name, False)

    def same(self, a, b):
        """a == b, to be combined with any_of and all_of"""
        return a == b

    def most(self, a, b):
        """a <= b, to be combined with any_of and all_of"""
        return a <= b

    def any_of(self, *cs):
        return self.core.disj(*cs)

    def all_of(self, *cs):
        return self.core.conj(*cs)

    def count(self, coll):
        return self.coll.vlen(coll)

    def approx(self, x):
        return x


# ------------------------------------------------------------------ concrete
class ConcreteCtx(BaseCtx):
    symbolic = False
    TOL = 1e-7

    def __init__(self, rng, forced=None, choices=None, kind='concrete'):
        self.rng = rng
        self.forced = forced or {}
        self.choices = choices or {}
        self.inputs = {}
        self.checks = 0
        self.scale = 1.0      # largest input: scale of rounding errors
        self.kind = kind
        self.bounded = False

    NICE = [0, 1, -1, 2, 0.5, -0.5, 10, 50, 100, -100, 1000, -1000, 0.25,
            0.125, 5000, 20000, 100000, 0.75, 1.5, -50, -10]

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False,
             integer=False, nice=None):
        v = None
        if name in self.forced:
            v = float(Fraction(str(self.forced[name]))) \
                if '/' in str(self.forced[name]) \
                else float(self.forced[name])
            if integer:
                v = round(v)
        if v is None:
            v = self._gen(lo, hi, integer, nice)
        ok = (lo is None or v > lo or (v == lo and not lo_open)) and \
            (hi is None or v < hi or (v == hi and not hi_open))
        if not ok:
            if name in self.forced:
                raise Reject(name)
            for _ in range(50):
                v = self._gen(lo, hi, integer, nice)
                if (lo is None or v > lo or (v == lo and not lo_open)) and \
                        (hi is None or v < hi or (v == hi and not hi_open)):
                    break
            else:
                raise Reject(name)
        if v == int(v) and abs(v) < 1e15:
            v = int(v)
        self.inputs[name] = v
        self.scale = max(self.scale, abs(v))
        return v

    def _gen(self, lo, hi, integer, nice):
        r = self.rng
        if nice and r.random() < 0.6:
            return r.choice(nice)
        if r.random() < 0.4:
            c = [x for x in self.NICE if (lo is None or x >= lo) and
                 (hi is None or x <= hi) and (not integer or x == int(x))]
            if c:
                return r.choice(c)
        a = lo if lo is not None else -(10 ** r.choice([0, 2, 4, 5]))
        b = hi if hi is not None else max(a, 0) + 10 ** r.choice([0, 2, 4, 5])
        if integer:
            return r.randint(math.ceil(a), math.floor(b))
        x = r.uniform(float(a), float(b))
        y = round(x * 64) / 64
        return y if a <= y <= b else x

    def integer(self, name, lo=None, hi=None, nice=None):
        return self.real(name, lo=lo, hi=hi, integer=True, nice=nice)

    def choice(self, name, options):
        i = self.choices.get(name)
        if i is None or i >= len(options):
            i = self.rng.randrange(len(options))
        self.inputs['choice:' + name] = i
        return options[i]

    def size(self, name, lo, hi, unbounded=None):
        return self.choice(name, list(range(lo, (unbounded or hi) + 1)))

    TIMES = [0, 1, 0.5, 0.25, 0.75, 0.125, 0.375, 0.0625, 0.9375, 0.625]

    def time_map(self, name, sign=None, ends=True, times=None, lo=0, hi=1,
                 nonempty=False, share=None, open_times=True):
        d = {}
        f = self.forced.get('map:' + name)
        if f is not None:
            d = {float(Fraction(k)): float(Fraction(v)) for k, v in f}
            d = {(int(k) if k == int(k) else k): v for k, v in d.items()}
        else:
            n = self.rng.choice([0, 1, 1, 2, 2, 3, 4, 5])
            if nonempty and n == 0:
                n = 1
            ts = self.rng.sample(self.TIMES, n)
            for t in ts:
                d[t] = self._sval(sign)
        if nonempty and not d:
            raise Reject(name)
        self.scale = max([self.scale] + [abs(v) for v in d.values()])
        self.inputs['map:' + name] = [[str(k), repr(v)] for k, v in d.items()]
        return d

    def objects(self, name, make, most=2):
        n = self.choices.get(name + '.size')
        if n is None:
            n = self.rng.choice([0, 1, 1, 2, 2, 3])
        self.inputs['choice:%s.size' % name] = n
        return [make(Part(self, '%s%d' % (name, i))) for i in range(n)]

    def as_set(self, xs):
        return set(xs)

    def year_map(self, name, before, most=2, own=True):
        n = self.choices.get(name + '.size')
        if n is None:
            n = self.rng.choice([0, 1, 1, 2, 2, 3])
        self.inputs['choice:%s.size' % name] = n
        ys = self.rng.sample(range(before - 6, before), n)
        return {y: self.real('%s[%d]' % (name, i)) for i, y in enumerate(ys)}

    def time_maps(self, names, signs=None, ends=True):
        return [self.time_map(n, (signs or {}).get(n), ends) for n in names]

    def _sval(self, sign):
        r = self.rng
        v = r.choice(self.NICE) if r.random() < 0.5 else round(
            r.uniform(-2000, 2000) * 16) / 16
        if sign in ('+', '0+'):
            v = abs(v)
        if sign in ('-', '0-'):
            v = -abs(v)
        if sign == '+' and v == 0:
            v = 3
        if sign == '-' and v == 0:
            v = -3
        if sign in ('0+', '0-', None) and r.random() < 0.1:
            v = 0
        return v

    def assume(self, cond):
        if not cond:
            raise Reject('assume')

    def check(self, name, cond):
        self.checks += 1
        if not cond:
            raise Failed(name, 'condition is false')
        return True

    def close(self, a, b):
        if a is b or a == b:
            return True
        try:
            if isinstance(a, complex) or isinstance(b, complex):
                return False
            a, b = float(a), float(b)
        except (TypeError, ValueError):
            return False
        if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
            return False
        return abs(a - b) <= self.TOL * max(1.0, abs(a), abs(b)) + \
            self.TOL * 1e-2 * self.scale

    def precise(self, x):
        from decimal import Decimal
        return Decimal(x)

    def is_precise(self, x):
        from decimal import Decimal
        return isinstance(x, Decimal)

    def eq(self, name, a, b):
        self.checks += 1
        if not self.close(a, b):
            raise Failed(name, '%r != %r' % (a, b))
        return True

    def le(self, name, a, b):
        self.checks += 1
        if not (a <= b or self.close(a, b)):
            raise Failed(name, '%r > %r' % (a, b))
        return True

    def raises(self, name, fn, exc=Exception):
        self.checks += 1
        try:
            fn()
        except exc:
            return
        raise Failed(name, 'no error raised')

    def same(self, a, b):
        return self.close(a, b)

    def most(self, a, b):
        return a <= b or self.close(a, b)

    def any_of(self, *cs):
        return any(cs)

    def all_of(self, *cs):
        return all(cs)

    def count(self, coll):
        return len(coll)
