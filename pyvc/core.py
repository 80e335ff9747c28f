"""Symbolic values, path exploration and obligations.

The real functions run under CPython on the values defined here; every branch
on a symbolic condition is decided by the path being explored, and every path
is explored.  See DESIGN.md for the meta-argument.
"""
import math
import numbers
import time as _time
from fractions import Fraction
from decimal import Decimal

from pyvc import algebra as A
from pyvc.algebra import Poly, Unsupported, atom

INF = float('inf')


class Restart(BaseException):
    """The run must be redone (a collection was split into cases)."""


class PathEnd(BaseException):
    """The path is infeasible, or was cut by an assumption."""


class Refuted(Exception):
    pass


ENGINE = None     # the running Engine (set by Engine.run)


def eng():
    if ENGINE is None:
        raise Unsupported('symbolic value used outside the verifier')
    return ENGINE


def is_num(x):
    return isinstance(x, (int, float, Fraction, Decimal)) \
        and not isinstance(x, bool)


def poly_of(x):
    """Poly of a finite number, or None when x is not one."""
    if isinstance(x, SymReal):
        return x.p
    if isinstance(x, (int, Fraction)):
        return Poly.const(x)
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            return None
        return Poly.const(A.to_fraction(x))
    if isinstance(x, Decimal):
        if not x.is_finite():
            return None
        return Poly.const(A.to_fraction(x))
    return None


def _inf(x):
    return isinstance(x, (float, Decimal)) and math.isinf(x)


def mk(p):
    """SymReal for p, or a plain number when p is constant."""
    if p.is_const():
        c = p.const_value()
        return int(c) if c.denominator == 1 else c
    return SymReal(p)


class SymReal(object):
    __slots__ = ('p',)
    imag = 0
    real = property(lambda self: self)

    def __init__(self, p):
        self.p = p

    # numbers
    def __add__(self, o):
        q = poly_of(o)
        if q is None:
            return o if _inf(o) else NotImplemented
        return mk(self.p.add(q))
    __radd__ = __add__

    def __sub__(self, o):
        q = poly_of(o)
        if q is None:
            return -o if _inf(o) else NotImplemented
        return mk(self.p.sub(q))

    def __rsub__(self, o):
        q = poly_of(o)
        if q is None:
            return o if _inf(o) else NotImplemented
        return mk(q.sub(self.p))

    def __mul__(self, o):
        q = poly_of(o)
        if q is None:
            if _inf(o):
                if self > 0:
                    return o
                if self < 0:
                    return -o
                return float('nan')
            return NotImplemented
        return mk(self.p.mul(q))
    __rmul__ = __mul__

    def __truediv__(self, o):
        q = poly_of(o)
        if q is None:
            return 0 if _inf(o) else NotImplemented
        if q.is_const():
            c = q.const_value()
            if c == 0:
                raise ZeroDivisionError('division by zero')
            return mk(self.p.scale(1 / c))
        return mk(self.p.mul(divisor(q)))

    def __rtruediv__(self, o):
        q = poly_of(o)
        if q is None:
            if _inf(o):
                if self > 0:
                    return o
                if self < 0:
                    return -o
                raise ZeroDivisionError('division by zero')
            return NotImplemented
        return mk(q.mul(divisor(self.p)))

    def __pow__(self, o):
        return _power(self, o)

    def __rpow__(self, o):
        return _power(o, self)

    def __neg__(self):
        return SymReal(self.p.neg())

    def __pos__(self):
        return self

    def __abs__(self):
        # (either way will do where it is zero)
        if eng().known(self >= 0):
            return self
        if eng().known(self <= 0):
            return -self
        return -self if self < 0 else self

    def __floordiv__(self, o):
        return floor(self / o)

    def __rfloordiv__(self, o):
        return floor(o / self)

    def __mod__(self, o):
        return self - floor(self / o) * o

    def __rmod__(self, o):
        return o - floor(o / self) * self

    def __divmod__(self, o):
        q = floor(self / o)
        return q, self - q * o

    # comparisons
    def _cmp(self, o, op):
        q = poly_of(o)
        if q is None:
            if _inf(o):
                big = o > 0
                return {'<': big, '<=': big, '==': False, '!=': True}[op]
            if op == '==':
                return False if not isinstance(o, SymBool) else NotImplemented
            if op == '!=':
                return True
            return NotImplemented
        return compare(self.p.sub(q), op)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        q = poly_of(o)
        if q is None:
            if _inf(o):
                return o < 0
            return NotImplemented
        return compare(q.sub(self.p), '<')

    def __ge__(self, o):
        q = poly_of(o)
        if q is None:
            if _inf(o):
                return o < 0
            return NotImplemented
        return compare(q.sub(self.p), '<=')

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    def __bool__(self):
        return bool(compare(self.p, '!='))

    # Symbolic values used as plain-dict keys: one bucket, compared by ==.
    # (Concrete keys of the same dict are required to differ; see coll.py.)
    def __hash__(self):
        return 0x5EED

    # conversions
    def __int__(self):
        raise Unsupported('int() of a symbolic value outside the subset')
    __index__ = __int__

    def __float__(self):
        raise Unsupported('float() of a symbolic value outside the subset')

    def __round__(self, n=None):
        return round_half_even(self, n)

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return -floor(-self)

    def __trunc__(self):
        return trunc(self)

    def is_integer(self):
        return bool(floor(self) == self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return 'Sym<%s>' % A.show(self.p)
    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


numbers.Real.register(SymReal)


KEYS = {}           # numbers for the keys of conditions


class SymBool(object):
    """poly op 0, or a boolean combination."""
    __slots__ = ('op', 'p', 'args', '_atoms', '_key', '_ext', '_lin',
                 'cached')

    def __init__(self, op, p=None, args=None):
        self.op, self.p, self.args = op, p, args
        self._atoms = self._key = self._ext = self.cached = None
        self._lin = None

    def __bool__(self):
        return eng().branch(self)

    def __and__(self, o):
        return conj(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return disj(self, o)
    __ror__ = __or__

    def __invert__(self):
        return neg(self)

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return 1

    def __int__(self):
        return 1 if self else 0
    __index__ = __int__

    def __add__(self, o):
        return int(self) + o
    __radd__ = __add__

    def __mul__(self, o):
        return int(self) * o
    __rmul__ = __mul__

    def __repr__(self):
        if self.op in ('and', 'or'):
            return '(' + (' %s ' % self.op).join(map(repr, self.args)) + ')'
        return '(%s %s 0)' % (A.show(self.p), self.op)

    def atoms(self):
        if self._atoms is None:
            if self.op in ('and', 'or'):
                r = set()
                for a in self.args:
                    r |= a.atoms()
                self._atoms = frozenset(r)
            else:
                self._atoms = frozenset(self.p.atoms())
        return self._atoms

    def key(self):
        if self._key is None:
            if self.op in ('and', 'or'):
                k = (self.op,) + tuple(a.key() for a in self.args)
            else:
                k = (self.op, self.p.key)
            self._key = KEYS.setdefault(k, len(KEYS))
        return self._key


def compare(p, op):
    if p.is_const():
        c = p.const_value()
        return {'<': c < 0, '<=': c <= 0, '==': c == 0, '!=': c != 0}[op]
    return SymBool(op, p)


def neg(b):
    if b is True or b is False:
        return not b
    if b.op == 'and':
        return disj(*[neg(a) for a in b.args])
    if b.op == 'or':
        return conj(*[neg(a) for a in b.args])
    if b.op == '<':
        return SymBool('<=', b.p.neg())
    if b.op == '<=':
        return SymBool('<', b.p.neg())
    return SymBool('!=' if b.op == '==' else '==', b.p)


def conj(*bs):
    out = []
    for b in bs:
        if b is False:
            return False
        if b is True:
            continue
        if not isinstance(b, SymBool):
            if not b:
                return False
            continue
        out.append(b)
    if not out:
        return True
    return out[0] if len(out) == 1 else SymBool('and', args=out)


def disj(*bs):
    out = []
    for b in bs:
        if b is True:
            return True
        if b is False:
            continue
        if not isinstance(b, SymBool):
            if b:
                return True
            continue
        out.append(b)
    if not out:
        return False
    return out[0] if len(out) == 1 else SymBool('or', args=out)


# ---------------------------------------------------------------- operations
def divisor(p):
    """Poly for 1/p; explores the path where p == 0 raises."""
    s = p.single()
    if s is not None and all(A.by_id(a).pos for a, _ in s[0]):
        return A.inverse(p)
    if bool(compare(p, '==')):
        raise ZeroDivisionError('division by zero')
    return A.inverse(p)


def div(a, b):
    """a / b, exact for concrete integers and fractions."""
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        r = Fraction(a) / Fraction(b)
        return int(r) if r.denominator == 1 else r
    if isinstance(a, (int, Fraction, float)) and \
            isinstance(b, (int, Fraction, float)) and \
            not (_inf(a) or _inf(b)):
        return div(A.to_fraction(a), A.to_fraction(b))
    return a / b


def power(b, e):
    if hasattr(b, 'of_its_own_type') or hasattr(e, 'of_its_own_type'):
        return b ** e
    return _power(b, e)


def _power(b, e):
    if isinstance(b, SymReal) or isinstance(e, SymReal):
        pb, pe = poly_of(b), poly_of(e)
        if pb is None or pe is None:
            if isinstance(e, float) and math.isinf(e):
                return _pow_inf(b, e)
            raise Unsupported('power with an infinite operand')
        return mk(poly_pow(pb, pe))
    if isinstance(b, (int, Fraction)) and isinstance(e, (int, Fraction)) \
            and not isinstance(b, bool):
        if e == int(e):
            if b == 0 and e < 0:
                raise ZeroDivisionError('0 to a negative power')
            r = Fraction(b) ** int(e)
            return int(r) if r.denominator == 1 else r
        return mk(poly_pow(Poly.const(b), Poly.const(e)))
    if isinstance(b, float) and isinstance(e, (int, Fraction, float)) \
            and not (_inf(b) or _inf(e)):
        return _power(A.to_fraction(b), A.to_fraction(e))
    if isinstance(e, float) and isinstance(b, (int, Fraction)) \
            and not _inf(e):
        return _power(b, A.to_fraction(e))
    return b ** e


def _pow_inf(b, e):
    if b > 1:
        return INF if e > 0 else 0
    if b == 1:
        return 1
    if b > 0:
        return 0 if e > 0 else INF
    raise Unsupported('power with an infinite exponent')


EXPAND = 3


def base_atom(pb):
    leaf = frozenset().union(*(A.by_id(a).leaf for a in pb.atoms())) \
        if pb.t else frozenset()
    return atom(('base', pb.key), '[%s]' % A.show(pb), 'base', leaf=leaf,
                pos=True, data=pb)


def poly_pow(pb, pe):
    if pe.is_const():
        c = pe.const_value()
        if c.denominator == 1 and abs(c) <= EXPAND:
            n = int(c)
            if n == 0:
                return Poly.const(1)
            if n > 0:
                return pb.ipow(n)
            return divisor_checked(pb).ipow(-n)
    if pb.is_const() and pb.const_value() == 1:
        return Poly.const(1)
    s = pb.single()
    if s is not None and s[1] == 1 and pe.is_const() and \
            all(A.by_id(a).pos for a, _ in s[0]):
        return Poly({A.mono_pow(s[0], pe.const_value()): Fraction(1)})
    # need a positive base
    if pb.is_const():
        if pb.const_value() <= 0:
            if pb.const_value() == 0 and pe.is_const() and \
                    pe.const_value() > 0:
                return Poly({})
            raise Unsupported('power of a non-positive constant')
    else:
        known = s is not None and s[1] > 0 and \
            all(A.by_id(a).pos for a, _ in s[0])
        if not known and not bool(compare(pb.neg(), '<')):
            if pe.is_const() and pe.const_value().denominator == 1:
                return pb.ipow(int(pe.const_value())) if pe.const_value() > 0 \
                    else divisor_checked(pb).ipow(-int(pe.const_value()))
            raise Unsupported('power of a possibly non-positive base')
    b = base_atom(pb)
    res = Poly.const(1)
    logb = A._ATOMS.get(('log', pb.key))
    for m, c in pe.t.items():
        if m == ():
            res = res.mul(Poly({((b.id, A._norm_exp(c)),): Fraction(1)}))
            continue
        # b ** (c * log(x)/log(b)) == x ** c
        if logb is not None:
            d = dict(m)
            if d.get(logb.id) == -1:
                rest = [(a, e) for a, e in m if a != logb.id]
                if len(rest) == 1 and rest[0][1] == 1 and \
                        A.by_id(rest[0][0]).kind == 'log' and \
                        c.denominator == 1:
                    x = A.by_id(rest[0][0]).data
                    n = int(c)
                    res = res.mul(x.ipow(n) if n > 0
                                  else A.inverse(x).ipow(-n))
                    continue
        # e ** (c * log(x)) == x ** c
        if len(m) == 1 and m[0][1] == 1 and c.denominator == 1 and \
                pb.is_const() and pb.const_value() == MATH_E and \
                A.by_id(m[0][0]).kind == 'log':
            x = A.by_id(m[0][0]).data
            n = int(c)
            res = res.mul(x.ipow(n) if n > 0 else A.inverse(x).ipow(-n))
            continue
        leaf = b.leaf.union(*(A.by_id(a).leaf for a, _ in m))
        pw = atom(('pow', pb.key, m), '[%s]^(%s)' % (
            A.show(pb), A.show(Poly({m: Fraction(1)}))), 'pow', leaf=leaf,
            pos=True, data=(pb, m))
        res = res.mul(Poly({((pw.id, A._norm_exp(c)),): Fraction(1)}))
    return res


def divisor_checked(p):
    if p.is_const():
        if p.const_value() == 0:
            raise ZeroDivisionError('0 to a negative power')
        return Poly.const(1 / p.const_value())
    return divisor(p)


def log(x, base=None):
    px = poly_of(x)
    if px is None:
        return math.log(x) if base is None else math.log(x, base)
    if not isinstance(x, SymReal) and not isinstance(base, SymReal):
        if base is None:
            if x <= 0:
                raise ValueError('math domain error')
            if x == 1:
                return 0
        lx = _log_poly(px)
    elif isinstance(x, SymReal) and not (x > 0):
        raise ValueError('math domain error')
    else:
        if not isinstance(x, SymReal) and x <= 0:
            raise ValueError('math domain error')
        lx = _log_poly(px)
    if base is None:
        return mk(lx)
    pb = poly_of(base)
    if isinstance(base, SymReal):
        if not (base > 0):
            raise ValueError('math domain error')
        if base == 1:
            raise ZeroDivisionError('float division by zero')
    lb = _log_poly(pb)
    if lb.is_const():
        return mk(lx.scale(1 / lb.const_value()))
    return mk(lx.mul(A.inverse(lb)))


MATH_E = A.to_fraction(math.e)


def _log_poly(p):
    if p.is_const() and p.const_value() == 1:
        return Poly({})
    if p.is_const() and p.const_value() == MATH_E:
        # (math.e stands for e)
        return Poly.const(1)
    s = p.single()
    if s is not None and s[1] == 1 and all(
            A.by_id(a).kind in ('base', 'pow') for a, _ in s[0]):
        # log(b^x * ...) = x * log(b) + ...
        r = Poly({})
        for a, e in s[0]:
            at = A.by_id(a)
            b, m = (at.data, ()) if at.kind == 'base' else at.data
            r = r.add(_log_poly(b).mul(Poly({m: Fraction(e)})))
        return r
    leaf = frozenset().union(*(A.by_id(a).leaf for a in p.atoms())) \
        if p.t else frozenset()
    return Poly.atom(atom(('log', p.key), 'log(%s)' % A.show(p), 'log',
                          leaf=leaf, data=p))


def floor(x):
    if not isinstance(x, SymReal):
        return math.floor(x)
    if is_integer_poly(x.p):
        return x
    leaf = frozenset().union(*(A.by_id(a).leaf for a in x.p.atoms()))
    return SymReal(Poly.atom(atom(
        ('floor', x.p.key), 'floor(%s)' % A.show(x.p), 'floor', leaf=leaf,
        integer=True, data=x.p)))


def is_integer_poly(p):
    return all(c.denominator == 1 and
               all(isinstance(e, int) and e > 0 and A.by_id(a).integer
                   for a, e in m) for m, c in p.t.items())


def trunc(x):
    if not isinstance(x, SymReal):
        return int(x)
    if hasattr(x, 'of_its_own_type'):
        return trunc(mk(x.p))
    if is_integer_poly(x.p) or eng().known(x - floor(x) <= 0):
        return x
    return floor(x) if x >= 0 else -floor(-x)


def round_half_even(x, n=None):
    if not isinstance(x, SymReal):
        return round(x, n) if n is not None else round(x)
    scale = 10 ** (n or 0)
    y = x * scale
    f = floor(y)
    d = y - f
    half = Fraction(1, 2)
    if d < half:
        r = f
    elif d > half:
        r = f + 1
    else:
        # a tie goes to the even neighbour
        r = f if f - 2 * floor(f / 2) == 0 else f + 1
    return r / scale if n else r


# ------------------------------------------------------------------- leaves
def conjuncts(cond):
    if isinstance(cond, SymBool) and cond.op == 'and':
        return [x for y in cond.args for x in conjuncts(y)]
    return [cond]


class Leaf(object):
    """A non-splittable part of a symbolic collection: one generic element.

    `decisions` are the case distinctions that define it."""

    def __init__(self, domain, path, decisions):
        self.domain = domain
        self.decisions = decisions
        self.pos = 0
        self.key = '%s:%s' % (domain.name,
                              ''.join('TF'[not d] for d in decisions))
        self.facts = []
        self.n_atom = atom(('count', self.key), '#' + self.key, 'count',
                           integer=True)
        self.cache = {}

    def fresh(self, name, pos=False, integer=False):
        return SymReal(Poly.atom(atom(
            ('elem', self.key, name), '%s.%s' % (self.key, name), 'var',
            leaf={self.key}, pos=pos, integer=integer)))

    def __repr__(self):
        return self.key


class Domain(object):
    def __init__(self, name):
        self.name = name
        self.universe = name


class Engine(object):
    """Explores every path of one contract."""

    def __init__(self, backend, max_paths=4000, deadline=None):
        self.backend = backend
        self.max_paths = max_paths
        self.deadline = deadline
        self.stats = {'paths': 0, 'runs': 0, 'obligations': 0,
                      'discharged': 0, 'cut': 0}
        self.by_name = {}
        self.failed = []
        self.unknown = []
        self.covered = set()
        self.inv_stated = set()
        self.inv_reached = set()
        self.invariants = {}
        self.loop_counts = {}

    # -- exploration
    def explore(self, fn):
        """Run fn on every path.  Collections are refined into cases on
        demand; a refinement restarts the exploration."""
        self.trees = {}
        self.splits = 0
        while True:
            try:
                self._explore(fn)
                return
            except Restart:
                self.splits += 1
                for k in ('paths', 'obligations', 'discharged', 'cut'):
                    self.stats[k] = 0
                for k in [k for k in self.stats if k.startswith('by ')]:
                    del self.stats[k]
                self.by_name = {}
                self.failed = []
                self.unknown = []

    def _explore(self, fn):
        global ENGINE
        stack = [((), ())]
        while stack:
            decisions, asked = stack.pop()
            if self.stats['runs'] >= self.max_paths:
                raise Unsupported('more than %d runs' % self.max_paths)
            if self.deadline and _time.time() > self.deadline:
                raise Unsupported('time budget exhausted')
            self.stats['runs'] += 1
            self.pre = list(decisions)
            self.pre_asked = asked
            self.decisions = []
            self.asked = []
            self.ids = {}
            self.pc = []
            self.leaves = {}
            self.domains = {}
            self.pending = []
            self.fresh_n = 0
            self.active = []
            self.loops = []
            self.notes = []
            self.questions = {}
            self.key_query = 0
            self.inputs = {}
            self.invariants = {}
            self.loop_counts = {}
            prev, ENGINE = ENGINE, self
            try:
                fn()
                self.stats['paths'] += 1
            except PathEnd:
                self.stats['cut'] += 1
            finally:
                ENGINE = prev
            stack.extend(self.pending)

    def choose(self, n, label=''):
        """An explicit n-way case distinction."""
        i = self.ask('one of %d' % n)
        if i < len(self.pre):
            d = self.pre[i]
            self.decisions.append(d)
            return d
        for alt in range(1, n):
            self.pending.append((tuple(self.decisions) + (alt,),
                                 tuple(self.asked)))
        self.decisions.append(0)
        return 0

    def ask(self, question):
        """The same decisions must answer the same questions."""
        i = len(self.decisions)
        if i < len(self.pre) and self.pre_asked[i] != question:
            raise Unsupported('execution is not deterministic: %s | %s' % (
                question, self.pre_asked[i]))
        self.asked.append(question)
        return i

    def identity(self, x):
        """id(x): any order between the objects asked about."""
        if not self.ids:
            self.ids[0] = self.choose(2)
        r = self.ids.get(id(x))
        if r is None:
            n = len(self.ids)
            r = self.ids[id(x)] = (x, 1000 + (n if self.ids[0] else -n))
        return r[1]

    def known(self, cond):
        """Whether cond follows from what is known on this path."""
        if not isinstance(cond, SymBool):
            return bool(cond)
        facts = []
        for k in {k for a in cond.atoms() for k in A.by_id(a).leaf}:
            if k in self.leaves:
                facts += self.leaves[k].facts
        return self.backend.entails(self.pc, facts, cond)

    def branch(self, cond):
        leaves = set()
        for a in cond.atoms():
            at = A.by_id(a)
            if at.kind == 'acc':
                raise Unsupported('branch on a loop accumulator')
            leaves |= at.leaf
        if len(leaves) > 1:
            raise Unsupported('branch relating two generic elements')
        if leaves:
            return self.branch_leaf(next(iter(leaves)), cond)
        i = self.ask(self.leaf_text(None, cond))
        if i < len(self.pre):
            d = self.pre[i]
            self.decisions.append(d)
            v = d if isinstance(d, bool) else d[1]
            if isinstance(d, bool):
                self.pc.extend(conjuncts(cond if v else neg(cond)))
            return v
        # forced?
        if self.backend.entails(self.pc, [], cond):
            self.decisions.append(('forced', True))
            return True
        ncond = neg(cond)
        if self.backend.entails(self.pc, [], ncond):
            self.decisions.append(('forced', False))
            return False
        self.pending.append((tuple(self.decisions) + (False,),
                             tuple(self.asked)))
        self.decisions.append(True)
        self.pc.extend(conjuncts(cond))
        return True

    def branch_leaf(self, key, cond):
        leaf = self.leaves.get(key)
        if leaf is None:
            raise Unsupported('stale generic element')
        if key not in self.active and not self.key_query:
            raise Unsupported('generic element used outside its loop')
        ncond = neg(cond)
        if self.key_query and \
                self.backend.entails(self.pc, leaf.facts, ncond):
            return False
        if self.backend.entails(self.pc, leaf.facts, cond):
            return True
        if self.backend.entails(self.pc, leaf.facts, ncond):
            return False
        # cases of one collection must be told apart by the same questions
        k = (leaf.domain.name, tuple(leaf.decisions[:leaf.pos]))
        q = self.leaf_text(leaf, cond)
        if self.questions.setdefault(k, q) != q:
            raise Unsupported('cases of a collection diverge: %s | %s' % (
                q, self.questions[k]))
        if leaf.pos < len(leaf.decisions):
            d = leaf.decisions[leaf.pos]
            leaf.pos += 1
            leaf.facts.append(cond if d else ncond)
            return d
        tree = self.trees[leaf.domain.name]
        tree.remove(leaf.decisions)
        tree.append(leaf.decisions + [True])
        tree.append(leaf.decisions + [False])
        if len(tree) > 40:
            raise Unsupported('too many cases for one collection')
        raise Restart()

    def leaf_text(self, leaf, cond):
        """cond with the identity of the leaf abstracted."""
        if cond.op in ('and', 'or'):
            return '(%s %s)' % (cond.op, ' '.join(
                self.leaf_text(leaf, x) for x in cond.args))
        parts = []
        for m, c in cond.p.t.items():
            parts.append('*'.join([str(c)] + sorted(
                '%s^%s' % (self.at_text(leaf, A.by_id(a)), e)
                for a, e in m)))
        return '%s %s' % (' + '.join(sorted(parts)), cond.op)

    @staticmethod
    def at_text(leaf, at):
        if not at.leaf:
            return at.name
        return at.name.replace(leaf.key + '.', '@.').replace(
            '[' + leaf.key + ']', '[@]')

    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise PathEnd()
        leaves = set()
        for a in cond.atoms():
            leaves |= A.by_id(a).leaf
        if len(leaves) > 1:
            raise Unsupported('assumption relating two generic elements')
        if leaves:
            self.leaves[next(iter(leaves))].facts.append(cond)
            return
        if self.backend.entails(self.pc, [], neg(cond)):
            raise PathEnd()
        self.pc.extend(conjuncts(cond))

    # -- collections
    def domain_leaves(self, name):
        if name in self.domains:
            raise Unsupported('collection %s declared twice' % name)
        dom = self.domains[name] = Domain(name)
        tree = self.trees.setdefault(name, [[]])
        out = []
        for dec in sorted(tree, key=repr):
            leaf = Leaf(dom, None, dec)
            self.leaves[leaf.key] = leaf
            # count >= 0
            self.pc.append(SymBool('<=', Poly.atom(leaf.n_atom).neg()))
            out.append(leaf)
        return out

    def no_element(self, leaf):
        """The path says that this case of the collection is empty."""
        return bool(self.backend.interval(
            self.pc, SymBool('==', Poly.atom(leaf.n_atom))))

    def fresh(self, name, pos=False, integer=False):
        self.fresh_n += 1
        return SymReal(Poly.atom(atom(
            ('fresh', name, self.fresh_n), '%s#%d' % (name, self.fresh_n),
            'var', pos=pos, integer=integer)))

    def new_acc(self, name):
        self.fresh_n += 1
        return SymReal(Poly.atom(atom(
            ('acc', name, self.fresh_n), '%s@%d' % (name, self.fresh_n),
            'acc')))

    def sum_over(self, leaf, p):
        """Poly for the sum of p over the elements of leaf."""
        res = Poly({})
        # a k-dependent inverse or power is part of the k-monomial
        for m, c in p.t.items():
            ins, outs = [], []
            for a, e in m:
                at = A.by_id(a)
                if at.kind == 'acc':
                    raise Unsupported('accumulator inside a sum')
                if leaf.key in at.leaf:
                    if len(at.leaf) > 1:
                        raise Unsupported('sum over a relation')
                    ins.append((a, e))
                elif at.leaf:
                    # generic of an enclosing element: keep outside
                    outs.append((a, e))
                else:
                    outs.append((a, e))
            if not ins:
                s = Poly.atom(leaf.n_atom)
            else:
                s = Poly.atom(self.sum_atom(leaf, tuple(ins)))
            res = res.add(Poly({tuple(outs): c}).mul(s))
        return res

    def sum_atom(self, leaf, m):
        return atom(('sum', leaf.key, m), 'SUM[%s](%s)' % (
            leaf.key, A.show(Poly({m: Fraction(1)}))), 'sum',
            data=(leaf.key, m))

    # -- obligations
    def check(self, name, cond, info=None):
        self.stats['obligations'] += 1
        rec = self.by_name.setdefault(name, [0, 0])
        rec[0] += 1
        self.covered.add(name)
        if not isinstance(cond, SymBool):
            cond = bool(cond)
            res = 'proved' if cond else 'refuted'
            how = 'by normalisation'
            model = {}
            if not cond:
                # confirm that the path itself is feasible
                facts = []
                for k in self.active:
                    facts += self.leaves[k].facts
                    facts.append(SymBool('<=', Poly.const(1).sub(
                        Poly.atom(self.leaves[k].n_atom))))
                res, how, model = self.backend.prove(
                    self, self.pc + facts, False)
        else:
            leaves = set()
            for a in cond.atoms():
                at = A.by_id(a)
                if at.kind == 'acc':
                    raise Unsupported('loop accumulator escaped')
                leaves |= at.leaf
            for k in leaves:
                if k not in self.active:
                    raise Unsupported('generic element escaped its loop')
            facts = [f for k in leaves for f in self.leaves[k].facts]
            for k in self.active:
                # inside the loop there is an element
                facts.append(SymBool('<=', Poly.const(1).sub(
                    Poly.atom(self.leaves[k].n_atom))))
            res, how, model = self.backend.prove(
                self, self.pc + facts, cond)
        if res == 'proved':
            self.stats['discharged'] += 1
            rec[1] += 1
            self.stats[how] = self.stats.get(how, 0) + 1
            return True
        model = dict(model or {})
        entry = {'exact': bool(model.pop('(exact)', '')),
                 'obligation': name, 'condition': repr(cond)[:2000],
                 'path': [repr(c)[:300] for c in self.pc][:60],
                 'result': how, 'model': model, 'info': info,
                 'notes': list(self.notes)}
        (self.failed if res == 'refuted' else self.unknown).append(entry)
        return False


def rewrite(p, eq):
    """p with the atoms in eq (id -> Poly) replaced, inside opaque terms
    too.  Sums are left alone."""
    from pyvc.algebra import by_id
    res = Poly({})
    for m, c in p.t.items():
        term = Poly({(): c})
        for a, e in m:
            term = term.mul(_rw_power(by_id(a), e, eq))
        res = res.add(term)
    return res


def _rw_power(at, e, eq):
    same = Poly({((at.id, e),): Fraction(1)})
    if at.id in eq:
        v = eq[at.id]
        if isinstance(e, int) and e > 0:
            return v.ipow(e)
        if isinstance(e, int) and v.t:
            return A.inverse(v).ipow(-e)
        if v.is_const() and v.const_value() > 0:
            return poly_pow(v, Poly.const(e))
        raise Unsupported('substitution')
    if at.kind == 'inv':
        d = rewrite(at.data, eq)
        if d == at.data:
            return same
        if not d.t:
            raise Unsupported('substitution')
        return A.inverse(d).ipow(e)
    if at.kind == 'base':
        d = rewrite(at.data, eq)
        if d == at.data:
            return same
        return _pos_pow(d, Poly.const(e))
    if at.kind == 'pow':
        b, m = at.data
        b2 = rewrite(b, eq)
        m2 = rewrite(Poly({m: Fraction(1)}), eq)
        if b2 == b and m2 == Poly({m: Fraction(1)}):
            return same
        return _pos_pow(b2, m2.scale(Fraction(e)))
    if at.kind == 'log':
        d = rewrite(at.data, eq)
        if d == at.data:
            return same
        r = _log_poly(d)
        if e == 1:
            return r
        if not r.t:
            raise Unsupported('substitution')
        return r.ipow(e) if e > 0 else A.inverse(r).ipow(-e)
    return same


def _pos_pow(b, e):
    """b ** e for a base known to be positive."""
    if b.is_const():
        if b.const_value() <= 0:
            raise Unsupported('substitution')
        return poly_pow(b, e)
    if e.is_const() and e.const_value().denominator == 1 and \
            abs(e.const_value()) <= EXPAND:
        n = int(e.const_value())
        return b.ipow(n) if n >= 0 else A.inverse(b).ipow(-n)
    at = base_atom(b)
    res = Poly.const(1)
    for m, c in e.t.items():
        if m == ():
            res = res.mul(Poly({((at.id, A._norm_exp(c)),): Fraction(1)}))
            continue
        leaf = at.leaf.union(*(A.by_id(a).leaf for a, _ in m))
        pw = atom(('pow', b.key, m), '[%s]^(%s)' % (
            A.show(b), A.show(Poly({m: Fraction(1)}))), 'pow', leaf=leaf,
            pos=True, data=(b, m))
        res = res.mul(Poly({((pw.id, A._norm_exp(c)),): Fraction(1)}))
    return res
