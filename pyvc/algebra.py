"""Exact arithmetic over symbolic reals.

Values of the verified program that are not concrete numbers are kept in a
canonical form: a finite sum of monomials with rational coefficients over
*atoms*.  An atom is an opaque real-valued term:

  var    an input of the contract (or a fresh symbol)
  acc    the havoced value of a loop accumulator (never escapes its loop)
  base   a positive real b used as the base of a power, b given by `data`
  pow    b ** m for a base b and a non-constant monomial m
  inv    1/p for a polynomial p with several terms
  log    the natural logarithm of a positive value
  floor  an integer part
  sum    the sum of a monomial over all elements of a symbolic collection

Monomial exponents are integers, or rationals for positive atoms, so that the
power laws x**(s+t) = x**s * x**t are decided by normalisation.
"""
from fractions import Fraction


class Unsupported(Exception):
    """The code left the fragment the verifier can execute symbolically."""


class Atom(object):
    __slots__ = ('id', 'key', 'name', 'kind', 'leaf', 'pos', 'integer', 'data')

    def __repr__(self):
        return self.name


_ATOMS = {}
_BY_ID = []


def atom(key, name, kind, leaf=frozenset(), pos=False, integer=False,
         data=None):
    a = _ATOMS.get(key)
    if a is None:
        a = Atom()
        a.id = len(_BY_ID)
        a.key, a.name, a.kind = key, name, kind
        a.leaf = frozenset(leaf)
        a.pos, a.integer, a.data = pos, integer, data
        _ATOMS[key] = a
        _BY_ID.append(a)
    return a


def by_id(i):
    return _BY_ID[i]


def _norm_exp(e):
    if isinstance(e, Fraction) and e.denominator == 1:
        return int(e)
    return e


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n == 0:
            del d[a]
        else:
            d[a] = _norm_exp(n)
    return tuple(sorted(d.items()))


def mono_pow(m, e):
    return tuple((a, _norm_exp(Fraction(x) * e)) for a, x in m)


class Poly(object):
    """Immutable Laurent polynomial with rational coefficients."""
    __slots__ = ('t', '_key')

    def __init__(self, terms):
        self.t = terms
        self._key = None

    # -- construction
    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def atom(a):
        return Poly({((a.id, 1),): Fraction(1)})

    @property
    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.t.items(), key=repr))
        return self._key

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, other):
        return isinstance(other, Poly) and self.t == other.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), Fraction(0))

    def atoms(self):
        return {a for m in self.t for a, _ in m}

    # -- arithmetic
    def add(self, o):
        if not o.t:
            return self
        if not self.t:
            return o
        d = dict(self.t)
        for m, c in o.t.items():
            n = d.get(m, 0) + c
            if n:
                d[m] = n
            else:
                d.pop(m, None)
        return Poly(d)

    def neg(self):
        return Poly({m: -c for m, c in self.t.items()})

    def sub(self, o):
        return self.add(o.neg())

    def scale(self, c):
        if not c:
            return Poly({})
        return Poly({m: k * c for m, k in self.t.items()})

    def mul(self, o):
        if self.is_const():
            return o.scale(self.const_value())
        if o.is_const():
            return self.scale(o.const_value())
        # cancel p * inv(p)
        r = _cancel(self, o)
        if r is None:
            r = _cancel(o, self)
        if r is not None:
            return r
        if len(self.t) * len(o.t) > 60000:
            raise Unsupported('polynomial blow-up')
        d = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                n = d.get(m, 0) + c1 * c2
                if n:
                    d[m] = n
                else:
                    d.pop(m, None)
        return Poly(d)

    def ipow(self, n):
        r = Poly.const(1)
        b = self
        while n:
            if n & 1:
                r = r.mul(b)
            n >>= 1
            if n:
                b = b.mul(b)
        return r

    def single(self):
        """(mono, coef) if this is a single term, else None."""
        if len(self.t) == 1:
            return next(iter(self.t.items()))
        return None

    def __repr__(self):
        return show(self)


def _cancel(p, q):
    """p * q when every term of q carries inv(p/c): strip the factor."""
    if len(p.t) < 2:
        return None
    n, c = monic(p)
    a = _ATOMS.get(('inv', n.key))
    if a is None:
        return None
    out = {}
    for m, k in q.t.items():
        d = dict(m)
        e = d.get(a.id, 0)
        if e < 1:
            return None
        if e == 1:
            del d[a.id]
        else:
            d[a.id] = e - 1
        out[tuple(sorted(d.items()))] = k * c
    return Poly(out)


def monic(p):
    """(p/c, c) with p/c having leading coefficient 1 in a fixed order."""
    m = min(p.t, key=_mono_order)
    c = p.t[m]
    if c == 1:
        return p, Fraction(1)
    return p.scale(1 / c), c


def _mono_order(m):
    return tuple((_BY_ID[a].key if False else a, e) for a, e in m) or ((1 << 60, 0),)


def inv_atom(p):
    """Atom standing for 1/p, p monic with several terms."""
    leaf = frozenset().union(*(_BY_ID[a].leaf for a in p.atoms()))
    return atom(('inv', p.key), '1/(%s)' % show(p), 'inv', leaf=leaf, data=p)


def mono_inverse(m):
    """1/m, with inverses of inverses resolved."""
    rest, extra = [], []
    for a, e in m:
        if _BY_ID[a].kind == 'inv' and isinstance(e, int) and e > 0:
            extra.append(_BY_ID[a].data.ipow(e))
        else:
            rest.append((a, e))
    res = Poly({mono_pow(tuple(rest), -1): Fraction(1)})
    for d in extra:
        res = res.mul(d)
    return res


def inverse(p):
    """1/p; the caller has established p != 0."""
    s = p.single()
    if s is not None:
        m, c = s
        return mono_inverse(m).scale(1 / c)
    # factor out the common monomial
    common = None
    for m in p.t:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(e, d.get(a, 0)) if a in d else 0
                      for a, e in common.items()}
    common = tuple(sorted((a, e) for a, e in (common or {}).items()
                          if e and e > 0))
    if common:
        p = Poly({mono_mul(m, mono_pow(common, -1)): c
                  for m, c in p.t.items()})
    # a single inverse factor common to every term: 1/(q/r) = r * 1/q
    n, c = monic(p)
    invs = {}
    for m in n.t:
        for a, e in m:
            if _BY_ID[a].kind == 'inv' and e > invs.get(a, 0):
                invs[a] = e
    if invs:
        extra = Poly.const(1)
        for a, e in invs.items():
            extra = extra.mul(_BY_ID[a].data.ipow(int(e)))
        q = clear_inverses(n, invs)
        r = inverse(q).mul(extra).scale(1 / c)
    else:
        r = Poly({((inv_atom(n).id, 1),): 1 / c})
    if common:
        r = r.mul(mono_inverse(common))
    return r


def clear_inverses(p, powers):
    """p times data(a)**powers[a] for each inverse atom a (no inverses of a
    remain)."""
    res = Poly({})
    for m, c in p.t.items():
        rest = []
        have = {}
        for a, e in m:
            if a in powers:
                have[a] = e
            else:
                rest.append((a, e))
        term = Poly({tuple(rest): c})
        for a, k in powers.items():
            d = k - have.get(a, 0)
            if d:
                term = term.mul(_BY_ID[a].data.ipow(int(d)))
        res = res.add(term)
    return res


def without_inverses(p, limit=12):
    """Polynomial equivalent to p up to non-zero factors, without 'inv'
    atoms; plus the factors multiplied in, as {atom id: power}."""
    factors = {}
    for _ in range(limit):
        invs = {}
        for m in p.t:
            for a, e in m:
                if _BY_ID[a].kind == 'inv' and e > invs.get(a, 0):
                    invs[a] = e
        if not invs:
            return p, factors
        # outermost first: an inverse whose data holds no other inverse
        # present here can be cleared together with the rest
        p = clear_inverses(p, invs)
        for a, e in invs.items():
            factors[a] = factors.get(a, 0) + e
    raise Unsupported('nested inverses')


def subst(p, mapping):
    """Replace atoms (id -> Poly) with positive-integer or zero powers."""
    res = Poly({})
    for m, c in p.t.items():
        term = Poly({(): c})
        rest = []
        for a, e in m:
            if a in mapping:
                if isinstance(e, int) and e >= 0:
                    term = term.mul(mapping[a].ipow(e))
                elif isinstance(e, int):
                    term = term.mul(inverse(mapping[a]).ipow(-e))
                else:
                    raise Unsupported('fractional power in substitution')
            else:
                rest.append((a, e))
        if rest:
            term = term.mul(Poly({tuple(rest): Fraction(1)}))
        res = res.add(term)
    return res


def show(p, limit=12):
    if not p.t:
        return '0'
    parts = []
    for i, (m, c) in enumerate(sorted(p.t.items(), key=repr)):
        if i == limit:
            parts.append('...(%d terms)' % len(p.t))
            break
        fs = []
        if c != 1 or not m:
            fs.append(str(c))
        for a, e in m:
            n = _BY_ID[a].name
            fs.append(n if e == 1 else '%s^%s' % (n, e))
        parts.append('*'.join(fs))
    return ' + '.join(parts)


def to_fraction(x):
    """Exact rational for a concrete number; decimal literals denote the
    decimal they are written as (mathematical reals, not binary64)."""
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    if isinstance(x, float):
        return Fraction(repr(x))
    return Fraction(str(x))
