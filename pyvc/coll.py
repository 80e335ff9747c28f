"""Symbolic collections, loops over them, and the builtins that consume them.

A symbolic collection yields *generic items*: one per leaf (case) of the
collection, standing for an arbitrary element of that case.  A loop body runs
once per leaf on its generic item; what it adds to an accumulator becomes the
sum of that addition over all elements of the leaf (loop rule, DESIGN.md).
"""
import builtins
import collections
import copy as _copy
import functools
import itertools
import math
import sys
import types
from fractions import Fraction
from decimal import Decimal

from pyvc import algebra as A
from pyvc import core
from pyvc.algebra import Poly, Unsupported
from pyvc.core import SymReal, SymBool, eng, poly_of, mk, compare, conj, disj


def _bad(self, *a, **k):
    raise Unsupported('generic item used by code outside the subset')


class _Opaque(object):
    pass


for _n in ('add radd sub rsub mul rmul truediv rtruediv pow rpow neg lt le gt '
           'ge eq ne bool hash iter getitem setitem call len contains abs '
           'int float index format str').split():
    setattr(_Opaque, '__%s__' % _n, _bad)


class GenItem(_Opaque):
    def __init__(self, leaf, value):
        self.__dict__['leaf'] = leaf
        self.__dict__['value'] = value

    def __repr__(self):
        return 'GenItem(%s)' % self.leaf.key

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('generic item used by code outside the subset')


class Poison(_Opaque):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('loop variable used after a symbolic loop')

    def __repr__(self):
        return 'Poison'


class Unbound(object):
    pass


UNBOUND = Unbound()


class enter_leaf(object):
    def __init__(self, leaf):
        self.leaf = leaf

    def __enter__(self):
        e = eng()
        if self.leaf.key in e.active:
            raise Unsupported('nested iteration over one collection')
        e.active.append(self.leaf.key)

    def __exit__(self, *a):
        e = core.ENGINE
        if e is not None and self.leaf.key in e.active:
            e.active.remove(self.leaf.key)


class SymList(list):
    """A list some of whose entries are generic items."""

    def _count(self):
        n = 0
        for x in list.__iter__(self):
            if isinstance(x, GenItem):
                n = n + SymReal(Poly.atom(x.leaf.n_atom))
            else:
                n = n + 1
        return n

    def __bool__(self):
        c = self._count()
        return bool(c != 0)

    def __len__(self):
        raise Unsupported('len of a symbolic list by foreign code')

    def __getitem__(self, i):
        raise Unsupported('indexing a symbolic list')

    def __contains__(self, x):
        for y in list.__iter__(self):
            if isinstance(y, GenItem):
                if y.value is x:
                    return True
                if x is not None and type(x).__eq__ is not object.__eq__:
                    raise Unsupported('membership in a symbolic list')
            elif y is x or y == x:
                return True
        return False

    def __eq__(self, o):
        raise Unsupported('comparison of symbolic lists')

    def __add__(self, o):
        return SymList(list(list.__iter__(self)) + list(raw(o)))

    def __radd__(self, o):
        return SymList(list(raw(o)) + list(list.__iter__(self)))

    def __copy__(self):
        return SymList(list.__iter__(self))

    def _reorder(self, *a, **k):
        raise Unsupported('reordering a symbolic list')
    reverse = sort = insert = __setitem__ = __delitem__ = _reorder

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def append(self, x):
        self._pyvc_sorted = False
        list.append(self, x)

    def extend(self, xs):
        self._pyvc_sorted = False
        list.extend(self, list(raw(xs)))


class SymSet(SymList):
    """A set some of whose elements are generic objects."""

    def add(self, x):
        if isinstance(x, (GenItem, SymReal)):
            raise Unsupported('adding to a symbolic set')
        if not any(y is x for y in list.__iter__(self)):
            list.append(self, x)

    def _drop(self, xs):
        if any(hasattr(x, '_pyvc_leaf') for x in xs):
            raise Unsupported('removing a generic object from a set')
        return SymSet(y for y in list.__iter__(self)
                      if not any(y is x for x in xs))

    def discard(self, x):
        self[:] = self._drop([x])

    def remove(self, x):
        if not any(y is x for y in list.__iter__(self)):
            raise KeyError(x)
        self.discard(x)

    def __sub__(self, o):
        if isinstance(o, SymList):
            raise Unsupported('difference of symbolic sets')
        return self._drop(list(o))
    difference = __sub__

    def copy(self):
        return SymSet(list.__iter__(self))
    __copy__ = copy

    def __or__(self, o):
        r = self.copy()
        for x in raw(o):
            r.add(x)
        return r
    union = __or__


def raw(x):
    """Iterate without unwrapping generic items."""
    if isinstance(x, SymList):
        return list.__iter__(x)
    it = iter(x)
    if isinstance(it, types.GeneratorType) and it.gi_code is not gen.__code__:
        # (what is suspended in a loop of its own is still in it)
        return iter(builtins.list(it))
    return it


def pack(items):
    """A list, symbolic if it must be."""
    for x in items:
        if isinstance(x, GenItem):
            return SymList(items)
    return items


# ----------------------------------------------------------------- dicts
def _is_gen_key(k):
    return isinstance(k, SymReal) and any(
        A.by_id(a).leaf for a in k.p.atoms())


def _leaf_of_key(k):
    """The leaf whose generic element determines key k, or None."""
    if isinstance(k, SymReal):
        ls = set()
        for a in k.p.atoms():
            ls |= A.by_id(a).leaf
        if not ls:
            return None
        if len(ls) > 1:
            raise Unsupported('key relating two generic elements')
        return eng().leaves[next(iter(ls))]
    lf = getattr(k, '_pyvc_leaf', None)
    return lf


class key_query(object):
    def __enter__(self):
        eng().key_query += 1

    def __exit__(self, *a):
        e = core.ENGINE
        if e is not None:
            e.key_query -= 1


def _same_key(a, b):
    with key_query():
        return bool(a == b)


class MyDict(dict):
    def __init__(self, *args, **kw):
        dict.__init__(self)
        if args:
            o = args[0]
            if isinstance(o, MyDict):
                self._copy_from(o)
            elif isinstance(o, dict):
                for k in o:
                    self[k] = o[k]
            elif hasattr(o, 'keys'):
                for x in raw(o.keys()):
                    if isinstance(x, GenItem):
                        with enter_leaf(x.leaf):
                            self[x.value] = o[x.value]
                    else:
                        self[x] = o[x]
            else:
                for x in raw(o):
                    if isinstance(x, GenItem):
                        with enter_leaf(x.leaf):
                            k, v = x.value
                            self._put_gen(x.leaf, k, v)
                    else:
                        k, v = x
                        self[k] = v
        for k, v in kw.items():
            self[k] = v

    # `parts` and `symk` live in the instance dict only when needed
    @property
    def _parts(self):
        return self.__dict__.get('_pyvc_parts') or {}

    def _copy_from(self, o):
        for k in dict.keys(o):
            dict.__setitem__(self, k, dict.__getitem__(o, k))
        if o._parts:
            self.__dict__['_pyvc_parts'] = {
                k: list(v) for k, v in o._parts.items()}
        if o.__dict__.get('_pyvc_symk'):
            self.__dict__['_pyvc_symk'] = True

    def _pkey(self, leaf, k):
        return (leaf.key, k.p.key if isinstance(k, SymReal) else id(k))

    def _find(self, key):
        """The stored key equal to `key`, or _NONE."""
        if isinstance(key, SymReal) or self.__dict__.get('_pyvc_symk'):
            for k in dict.keys(self):
                if k is key:
                    return k
            if isinstance(key, SymReal) or core.is_num(key):
                for k in dict.keys(self):
                    if (isinstance(k, SymReal) or core.is_num(k)) and \
                            bool(k == key):
                        return k
                return UNBOUND
        return key if dict.__contains__(self, key) else UNBOUND

    def _find_part(self, leaf, key):
        pk = self._pkey(leaf, key)
        if pk in self._parts:
            return pk
        for (lk, _), (lf, k, v) in self._parts.items():
            if lk == leaf.key:
                if isinstance(k, SymReal) and isinstance(key, SymReal):
                    raise Unsupported('two key functions on one collection')
            elif lf.domain.universe != leaf.domain.universe and \
                    isinstance(k, SymReal) and isinstance(key, SymReal):
                raise Unsupported('keys of unrelated collections')
        # against concrete and ordinary symbolic keys
        if isinstance(key, SymReal):
            for k in dict.keys(self):
                if isinstance(k, SymReal) or core.is_num(k):
                    if _same_key(k, key):
                        raise Unsupported(
                            'generic key equal to an ordinary key')
        return None

    def _put_gen(self, leaf, key, value):
        pk = self._find_part(leaf, key)
        parts = self.__dict__.setdefault('_pyvc_parts', {})
        if pk is None:
            _check_injective(leaf, key)
            parts[self._pkey(leaf, key)] = [leaf, key, value]
        else:
            parts[pk][2] = value

    def _ordinary_vs_parts(self, key):
        """An ordinary key: make sure no generic key equals it."""
        if not self._parts or not (
                core.is_num(key) or isinstance(key, SymReal)):
            return
        for (leaf, k, v) in list(self._parts.values()):
            if isinstance(k, SymReal) and _same_key(k, key):
                raise Unsupported('generic key equal to an ordinary key')

    def _guard_write(self, key, exists):
        e = core.ENGINE
        if e is not None and e.active and exists and \
                not isinstance(key, (str, int)):
            # overwriting an ordinary entry once per generic element
            raise Unsupported('ordinary entry updated in a symbolic loop')

    def __getitem__(self, key):
        leaf = _leaf_of_key(key)
        if leaf is not None:
            pk = self._find_part(leaf, key)
            if pk is not None:
                return self._parts[pk][2]
            return self._missing(key)
        self._ordinary_vs_parts(key)
        k = self._find(key)
        if k is UNBOUND:
            return self._missing(key)
        return dict.__getitem__(self, k)

    def _missing(self, key):
        m = getattr(type(self), '__missing__', None)
        if m is not None:
            return m(self, key)
        raise KeyError(key)

    def __setitem__(self, key, value):
        leaf = _leaf_of_key(key)
        if leaf is not None:
            self._put_gen(leaf, key, value)
            return
        self._ordinary_vs_parts(key)
        k = self._find(key)
        if k is UNBOUND:
            if isinstance(key, SymReal):
                self.__dict__['_pyvc_symk'] = True
            dict.__setitem__(self, key, value)
        else:
            e = core.ENGINE
            if e is not None and e.active and \
                    dict.__getitem__(self, k) is not value and \
                    isinstance(value, (SymReal, int, Fraction)):
                raise Unsupported('ordinary entry updated in a symbolic loop')
            dict.__setitem__(self, k, value)

    def __delitem__(self, key):
        leaf = _leaf_of_key(key)
        if leaf is not None:
            pk = self._find_part(leaf, key)
            if pk is None:
                raise KeyError(key)
            del self._parts[pk]
            return
        self._ordinary_vs_parts(key)
        k = self._find(key)
        if k is UNBOUND:
            raise KeyError(key)
        dict.__delitem__(self, k)

    def __contains__(self, key):
        leaf = _leaf_of_key(key)
        if leaf is not None:
            return self._find_part(leaf, key) is not None
        self._ordinary_vs_parts(key)
        return self._find(key) is not UNBOUND

    def get(self, key, default=None):
        return self[key] if key in self else default

    def pop(self, key, *default):
        if key in self:
            v = self[key]
            del self[key]
            return v
        if default:
            return default[0]
        raise KeyError(key)

    def popitem(self):
        if self._parts:
            raise Unsupported('popitem on a symbolic dict')
        return dict.popitem(self)

    def setdefault(self, key, default=None):
        if key not in self:
            self[key] = default
        return self[key]

    def update(self, *args, **kw):
        o = MyDict(*args) if args else {}
        for k in dict.keys(o):
            self[k] = dict.__getitem__(o, k)
        if isinstance(o, MyDict):
            for leaf, k, v in o._parts.values():
                self._put_gen(leaf, k, v)
        for k, v in kw.items():
            self[k] = v

    def clear(self):
        dict.clear(self)
        self.__dict__.pop('_pyvc_parts', None)

    def copy(self):
        return _copy.copy(self)

    def keys(self):
        if not self._parts:
            return dict.keys(self)
        return SymList(list(dict.keys(self)) + [
            GenItem(l, k) for l, k, v in self._parts.values()])

    def values(self):
        if not self._parts:
            return dict.values(self)
        return SymList(list(dict.values(self)) + [
            GenItem(l, v) for l, k, v in self._parts.values()])

    def items(self):
        if not self._parts:
            return dict.items(self)
        return SymList(list(dict.items(self)) + [
            GenItem(l, (k, v)) for l, k, v in self._parts.values()])

    def __iter__(self):
        if not self._parts:
            return dict.__iter__(self)
        return raw(self.keys())

    def __len__(self):
        if self._parts:
            raise Unsupported('len of a symbolic dict by foreign code')
        return dict.__len__(self)

    def __bool__(self):
        if dict.__len__(self):
            return True
        if not self._parts:
            return False
        return bool(self._count() != 0)

    def _count(self):
        n = dict.__len__(self)
        for leaf, k, v in self._parts.values():
            n = n + SymReal(Poly.atom(leaf.n_atom))
        return n

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, dict):
            return False
        if self._parts or getattr(o, '_parts', None):
            for a, b in ((self, o), (o, self)):
                if dict.__len__(a) == 0 and not getattr(a, '_parts', None):
                    n = b._count()
                    return bool(n == 0)
            if not isinstance(o, MyDict):
                raise Unsupported('comparison of a symbolic dict')
            if set(self._parts) != set(o._parts):
                raise Unsupported('comparison of symbolic dicts')
            for pk in self._parts:
                if not bool(self._parts[pk][2] == o._parts[pk][2]):
                    raise Unsupported('comparison of symbolic dicts')
        if dict.__len__(self) != dict.__len__(o):
            return False
        for k in dict.keys(self):
            if k not in o:
                return False
            v, w = dict.__getitem__(self, k), o[k]
            if not (v is w or bool(v == w)):
                return False
        return True

    def __ne__(self, o):
        return not self == o
    __hash__ = None

    def __copy__(self):
        new = type(self).__new__(type(self))
        for k, v in self.__dict__.items():
            if k not in ('_pyvc_parts', '_pyvc_symk'):
                new.__dict__[k] = v
        MyDict._copy_from(new, self)
        return new

    def __deepcopy__(self, memo):
        new = type(self).__new__(type(self))
        memo[id(self)] = new
        for k, v in self.__dict__.items():
            if k not in ('_pyvc_parts', '_pyvc_symk'):
                new.__dict__[k] = _copy.deepcopy(v, memo)
        for k in dict.keys(self):
            dict.__setitem__(new, _copy.deepcopy(k, memo), _copy.deepcopy(
                dict.__getitem__(self, k), memo))
        if self._parts:
            new.__dict__['_pyvc_parts'] = {
                pk: [l, k, _copy.deepcopy(v, memo)]
                for pk, (l, k, v) in self._parts.items()}
        if self.__dict__.get('_pyvc_symk'):
            new.__dict__['_pyvc_symk'] = True
        return new

    def __or__(self, o):
        new = _copy.copy(self)
        new.update(o)
        return new

    def __ior__(self, o):
        self.update(o)
        return self

    @classmethod
    def fromkeys(cls, it, value=None):
        d = cls()
        for x in raw(it):
            if isinstance(x, GenItem):
                d._put_gen(x.leaf, x.value, value)
            else:
                d[x] = value
        return d


class MyDefaultDict(MyDict):
    def __init__(self, default_factory=None, *args, **kw):
        self.__dict__['default_factory'] = default_factory
        MyDict.__init__(self, *args, **kw)

    def __missing__(self, key):
        f = self.__dict__.get('default_factory')
        if f is None:
            raise KeyError(key)
        v = f()
        self[key] = v
        return v


def _check_injective(leaf, key):
    if not isinstance(key, SymReal):
        return
    gens = [a for a in key.p.atoms() if A.by_id(a).leaf]
    ok = len(gens) == 1 and A.by_id(gens[0]).key[2:] == ('key',) and \
        A.by_id(gens[0]).kind == 'var'
    if ok:
        lin = Poly({})
        for m, c in key.p.t.items():
            d = dict(m)
            if gens[0] in d:
                if d.pop(gens[0]) != 1:
                    ok = False
                lin = lin.add(Poly({tuple(sorted(d.items())): c}))
        ok = ok and bool(lin.t) and (
            lin.is_const() or bool(compare(lin, '!=')))
    if not ok:
        raise Unsupported('key function not known to be injective')


# ------------------------------------------------------------------- loops
class Loop(object):
    def __init__(self, it, getters, names):
        self.it = raw(it)
        self.getters = getters
        self.names = names
        self.leaf = None
        self.state = None        # values to assign at begin / end
        self.done = False
        self.used = False

    def __iter__(self):
        return self

    def _vals(self):
        out = []
        for g in self.getters:
            try:
                out.append(g())
            except NameError:
                out.append(UNBOUND)
        return out

    def _finish(self):
        """Leave the symbolic iteration that just ended."""
        leaf, self.leaf = self.leaf, None
        e = eng()
        now = self._vals()
        if leaf.key in e.active:
            e.active.remove(leaf.key)
        res = []
        for name, v0, a0, v1 in zip(self.names, self.init, self.havoc, now):
            if a0 is None:
                res.append(v0 if v1 is v0 else Poison())
                continue
            p1 = poly_of(v1)
            if p1 is None:
                res.append(Poison())
                continue
            delta = p1.sub(a0.p)
            if any(A.by_id(a).kind == 'acc' and a in _acc_ids(a0)
                   for a in delta.atoms()):
                # not of the form acc + f(element)
                if v1 is v0:
                    res.append(v0)
                else:
                    res.append(Poison())
                continue
            if not delta.t:
                res.append(v0)
                continue
            if any(A.by_id(a).kind == 'acc' for a in delta.atoms()):
                res.append(Poison())
                continue
            s = e.sum_over(leaf, delta)
            res.append(v0 + (type(v1)(s) if hasattr(v1, 'of_its_own_type')
                             else mk(s)))
        self.state = res

    def __next__(self):
        if self.leaf is not None:
            self._finish()
        elif self.used:
            self.state = self._vals()
        try:
            x = next(self.it)
            while isinstance(x, GenItem) and eng().no_element(x.leaf):
                x = next(self.it)
        except StopIteration:
            self.done = True
            raise
        if isinstance(x, GenItem):
            e = eng()
            if x.leaf.key in e.active:
                raise Unsupported('nested iteration over one collection')
            if self.state is None:
                self.state = self._vals()
            self.used = True
            self.leaf = x.leaf
            e.active.append(x.leaf.key)
            return x.value
        self.leaf = None
        return x

    def begin(self):
        if not self.used:
            return self._vals()
        vals = self.state if self.state is not None else self._vals()
        self.state = None
        if self.leaf is None:
            return vals
        self.init = vals
        self.havoc = []
        out = []
        for n, v in zip(self.names, vals):
            if isinstance(v, SymReal) or (core.is_num(v)):
                a = eng().new_acc(n)
                self.havoc.append(a)
                out.append(a)
            else:
                self.havoc.append(None)
                out.append(v)
        return out

    def end(self):
        if not self.used:
            return self._vals()
        if not self.done:
            raise Unsupported('break out of a symbolic loop')
        return self.state if self.state is not None else self._vals()

    def tag(self, v):
        if self.leaf is not None:
            return GenItem(self.leaf, v)
        return v

    def attr(self):
        """An attribute is updated in the body."""
        if self.leaf is not None:
            raise Unsupported('attribute updated in a symbolic loop')

    def leave(self):
        """A return statement inside the loop."""
        if self.leaf is not None:
            raise Unsupported('return out of a symbolic loop')


def _acc_ids(a0):
    return a0.p.atoms()


def loop(it, getters=(), names=()):
    e = core.ENGINE
    if e is not None and e.invariants:
        from pyvc import invariant
        frame = sys._getframe(1)
        inv = invariant.find(frame)
        if inv is not None and not (
                isinstance(it, (list, dict)) and not list(raw(it))):
            return invariant.InvLoop(inv, it, getters, names, frame)
    return Loop(it, getters, names)


def ret(value, *loops):
    for l in loops:
        l.leave()
    return value


def gen(it, f):
    """Generator expression over `it`: f(x) lists the results for item x."""
    for x in raw(it):
        if isinstance(x, GenItem):
            if eng().no_element(x.leaf):
                continue
            with enter_leaf(x.leaf):
                ys = f(x.value)
                ys = list(raw(ys))
            for y in ys:
                if isinstance(y, GenItem):
                    raise Unsupported('nested symbolic comprehension')
                yield GenItem(x.leaf, y)
        else:
            for y in raw(f(x)):
                yield y


def listcomp(it, f):
    return pack(list(gen(it, f)))


def setcomp(it, f):
    return vset(gen(it, f))


def dictcomp(it, f):
    d = MyDict()
    for x in gen(it, f):
        if isinstance(x, GenItem):
            k, v = x.value
            if _leaf_of_key(k) is None:
                raise Unsupported('dict comprehension with a constant key')
            with enter_leaf(x.leaf):
                d._put_gen(x.leaf, k, v)
        else:
            d[x[0]] = x[1]
    return d


def mkdict(*entries):
    d = MyDict()
    for e in entries:
        if len(e) == 1:
            d.update(e[0])
        else:
            d[e[0]] = e[1]
    return d


# ---------------------------------------------------------------- builtins
def vsum(it, start=0):
    total = start
    for x in raw(it):
        if isinstance(x, GenItem):
            p = poly_of(x.value)
            if p is None:
                if isinstance(x.value, SymBool):
                    p = Poly.const(1 if x.value else 0)
                elif isinstance(x.value, bool):
                    p = Poly.const(int(x.value))
                else:
                    raise Unsupported('sum of non-numbers')
            s = eng().sum_over(x.leaf, p)
            total = total + (type(x.value)(s) if hasattr(
                x.value, 'of_its_own_type') else mk(s))
        else:
            total = total + x
    return total


def _minmax(args, key, default, less, fits):
    if len(args) == 1:
        items = list(raw(args[0]))
    else:
        items = list(args)
    if any(isinstance(x, GenItem) for x in items):
        items = _extremes(items, key, less, fits)
    if not items:
        if default is UNBOUND:
            raise ValueError('min()/max() arg is an empty sequence')
        return default
    best = items[0]
    bk = key(best) if key else best
    for x in items[1:]:
        xk = key(x) if key else x
        if isinstance(xk, SymReal) or isinstance(bk, SymReal):
            # the first of equal values is as good as another
            if _known(fits(bk, xk)):
                continue
            if key is None and _known(fits(xk, bk)):
                best, bk = x, xk
                continue
        if less(xk, bk):
            best, bk = x, xk
    return best


def _extremes(items, key, less, fits):
    """The items, with the extreme value of the elements of a collection in
    place of them, unless another item is known to be as good."""
    e = eng()
    out = [x for x in items if not isinstance(x, GenItem)]
    cases = []
    for x in items:
        if not isinstance(x, GenItem) or e.no_element(x.leaf):
            continue
        v = key(x.value) if key else x.value
        if any(_known(fits(key(y) if key else y, v)) for y in out):
            continue
        if key is not None:
            raise Unsupported('min/max over a symbolic collection')
        cases.append((compare(Poly.atom(x.leaf.n_atom), '!='),
                      extreme(x.leaf, v, bool(less(0, 1)))))
    if not cases:
        return out
    if not out:
        if not bool(disj(*[c for c, _ in cases])):
            return out
    # one value: no more than (or no less than) any, and one of them
    cases += [(True, x) for x in out]
    for _, x in cases:
        if poly_of(x) is None:
            raise Unsupported('min/max of non-numbers')
    if len(cases) == 1:
        return [cases[0][1]]
    k = tuple(sorted(poly_of(x).key for _, x in cases))
    name = 'MIN' if less(0, 1) else 'MAX'
    best = SymReal(Poly.atom(A.atom(
        ('extreme', name, k), '%s[%s]' % (name, ', '.join(
            A.show(poly_of(x)) for _, x in cases)), 'extreme')))
    if ('extreme', name, k) not in e.questions:
        e.questions['extreme', name, k] = True
        one = []
        for c, x in cases:
            e.assume(fits(best, x) if c is True
                     else disj(core.neg(c), fits(best, x)))
            one.append(best == x if c is True else conj(c, best == x))
        e.assume(disj(*one))
    return [best]


def extreme(leaf, v, least):
    """The least (or greatest) of the values v of the elements of leaf."""
    p = poly_of(v)
    if p is None:
        raise Unsupported('min/max of non-numbers')
    own = {m: c for m, c in p.t.items()
           if any(leaf.key in A.by_id(a).leaf for a, _ in m)}
    if not own:
        return v
    own, rest = Poly(own), Poly({m: c for m, c in p.t.items()
                                 if m not in own})
    if any(A.by_id(a).leaf for a in rest.atoms()) or any(
            A.by_id(a).kind == 'acc' or len(A.by_id(a).leaf) > 1
            for a in p.atoms()):
        raise Unsupported('min/max of a relation')
    name = 'MIN' if least else 'MAX'
    x = SymReal(Poly.atom(A.atom(
        ('extreme', least, leaf.key, own.key),
        '%s[%s](%s)' % (name, leaf.key, A.show(own)), 'extreme')))
    y = mk(own)
    fact = x <= y if least else x >= y
    if not any(repr(f) == repr(fact) for f in leaf.facts):
        leaf.facts.append(fact)
    return x + mk(rest)


def _known(cond):
    return eng().known(cond)


def vmin(*args, key=None, default=UNBOUND):
    return _minmax(args, key, default, lambda a, b: a < b,
                   lambda a, b: a <= b)


def vmax(*args, key=None, default=UNBOUND):
    return _minmax(args, key, default, lambda a, b: a > b,
                   lambda a, b: a >= b)


def vlen(x):
    if isinstance(x, SymList) or isinstance(x, MyDict):
        return x._count()
    f = getattr(type(x), '__len__', None)
    if isinstance(f, types.FunctionType):
        return f(x)         # (which may be symbolic)
    return builtins.len(x)


def vall(it):
    out = []
    for x in raw(it):
        if isinstance(x, GenItem):
            with enter_leaf(x.leaf):
                ok = bool(x.value)
            if not ok:
                out.append(compare(Poly.atom(x.leaf.n_atom), '=='))
        elif not x:
            return False
    r = conj(*out)
    return bool(r)


def vany(it):
    out = []
    for x in raw(it):
        if isinstance(x, GenItem):
            with enter_leaf(x.leaf):
                ok = bool(x.value)
            if ok:
                out.append(compare(Poly.atom(x.leaf.n_atom), '!='))
        elif x:
            return True
    return bool(disj(*out))


def vsorted(it, key=None, reverse=False):
    items = list(raw(it))
    if any(isinstance(x, GenItem) for x in items):
        out = SymList(items)
        if key is None and not reverse:
            out._pyvc_sorted = True
        return out
    k = key or (lambda x: x)
    return builtins.sorted(items, key=functools.cmp_to_key(
        lambda a, b: _cmp(k(a), k(b))), reverse=reverse)


def _cmp(a, b):
    if a < b:
        return -1
    if b < a:
        return 1
    return 0


def vmap(f, *its):
    lists = [list(raw(i)) for i in its]
    if not any(isinstance(x, GenItem) for l in lists for x in l):
        return builtins.map(f, *lists)
    if len(lists) > 1:
        raise Unsupported('map over several collections')
    return gen(SymList(lists[0]), lambda x: [f(x)])


def vfilter(f, it):
    return gen(it, lambda x: [x] if (f(x) if f else x) else [])


def vzip(*its, **kw):
    lists = [list(raw(i)) for i in its]
    if any(isinstance(x, GenItem) for l in lists for x in l):
        raise Unsupported('zip over a symbolic collection')
    return builtins.zip(*lists, **kw)


def venumerate(it, start=0):
    def g():
        i = start
        for x in raw(it):
            if isinstance(x, GenItem):
                raise Unsupported('enumerate over a symbolic collection')
            yield i, x
            i += 1
    return g()


def viter(x, *a):
    if a:
        return builtins.iter(x, *a)
    return raw(x)


def vnext(it, *default):
    x = builtins.next(it, *default)
    if isinstance(x, GenItem):
        raise Unsupported('next() of a symbolic collection')
    return x


def vrange(*args):
    if not any(isinstance(a, SymReal) for a in args):
        return builtins.range(*[int(a) for a in args])
    if len(args) == 1:
        lo, hi = 0, args[0]
    elif len(args) == 2:
        lo, hi = args
    else:
        raise Unsupported('range with a symbolic step')
    e = eng()
    n = hi - lo
    name = 'range%d' % e.fresh_n
    e.fresh_n += 1
    leaves = e.domain_leaves(name)
    e.domains[name].universe = name
    items = []
    total = 0
    for leaf in leaves:
        i = leaf.fresh('key', integer=True)
        leaf.facts.append((lo <= i))
        leaf.facts.append((i <= hi - 1))
        leaf.facts = [f for f in leaf.facts if isinstance(f, SymBool)]
        total = total + SymReal(Poly.atom(leaf.n_atom))
        items.append(GenItem(leaf, i))
    if n >= 0:
        e.pc.append(total == n)
    else:
        e.pc.append(total == 0)
    out = SymList(items)
    out._pyvc_sorted, out._pyvc_range = True, (lo, hi)
    return out


class _Meta(type):
    def __instancecheck__(cls, x):
        return cls._check(x)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._real)


class Numeral(str):
    """Text that spells a (symbolic) number; `whole` if it is spelled as an
    integer."""
    def __new__(cls, n, whole=False):
        x = str.__new__(cls, '<numeral>')
        x.n, x.whole = n, whole
        return x

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, str):
            try:
                builtins.float(o if type(o) is str else 1)
            except ValueError:
                return False
        raise Unsupported('comparison of the text of a number')

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return id(self) >> 4

    def _no(self, *a, **k):
        raise Unsupported('operation on the text of a number')
    __lt__ = __le__ = __gt__ = __ge__ = __len__ = __getitem__ = _no
    __iter__ = __contains__ = __add__ = __mod__ = _no


for _m in dir(str):
    if not _m.startswith('_'):
        setattr(Numeral, _m, Numeral._no)


class VFloat(metaclass=_Meta):
    _real = float

    def __new__(cls, x=0):
        if isinstance(x, Numeral):
            return x.n
        if isinstance(x, SymReal):
            return core.mk(x.p) if hasattr(x, 'of_its_own_type') else x
        if isinstance(x, SymBool):
            return int(x)
        if isinstance(x, (Fraction, builtins.int)):
            return builtins.int(x) if isinstance(x, bool) else x
        f = builtins.float(x)
        if math.isinf(f) or math.isnan(f):
            return f
        if isinstance(x, str):
            fr = Fraction(x.strip().replace('_', '')) \
                if '/' not in x else builtins.float(x)
            return fr
        return A.to_fraction(x)

    @staticmethod
    def _check(x):
        return isinstance(x, (builtins.float, Fraction)) or (
            isinstance(x, SymReal) and not hasattr(x, 'of_its_own_type'))


class VInt(metaclass=_Meta):
    _real = int

    def __new__(cls, x=0, *a):
        if isinstance(x, Numeral):
            if not x.whole:
                raise ValueError('invalid literal for int()')
            x = x.n
        if isinstance(x, SymReal):
            return core.trunc(x)
        return builtins.int(x, *a)

    @staticmethod
    def _check(x):
        return isinstance(x, builtins.int) or (
            isinstance(x, SymReal) and core.is_integer_poly(x.p)
            and not hasattr(x, 'of_its_own_type'))


class VList(list, metaclass=type('M', (type,), {
        '__instancecheck__': lambda c, x: isinstance(x, list),
        '__call__': lambda c, *a: pack(list(raw(a[0])) if a else [])})):
    pass


class VTuple(tuple, metaclass=type('M', (type,), {
        '__instancecheck__': lambda c, x: isinstance(x, tuple) or (
            isinstance(x, SymList)),
        '__call__': lambda c, *a: _vtuple(*a)})):
    pass


def _vtuple(*a):
    if not a:
        return ()
    xs = list(raw(a[0]))
    if any(isinstance(x, GenItem) for x in xs):
        return SymList(xs)
    return tuple(xs)


class VSetMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (set, SymList))

    def __subclasscheck__(cls, c):
        return issubclass(c, set)

    def __call__(cls, *a):
        return vset(*a)

    @property
    def union(cls):
        return _union

    @property
    def intersection(cls):
        return lambda s, *o: OSet(s).intersection(*o)


def star(x):
    """The positional arguments that x stands for."""
    return list(list.__iter__(x)) if isinstance(x, SymList) else x


def _union(*sets):
    """Union of sets, generic parts included: objects of different leaves
    are different objects."""
    if not any(isinstance(s, (SymList, GenItem)) for s in sets):
        return OSet(sets[0]).union(*sets[1:])
    out = SymSet()
    for s in sets:
        if isinstance(s, GenItem):      # any number of sets
            s = s.value
            if not isinstance(s, (set, frozenset)) or s:
                raise Unsupported('union of any number of sets')
        for x in raw(s):
            if isinstance(x, GenItem):
                if not any(isinstance(y, GenItem) and y.value is x.value
                           for y in raw(out)):
                    list.append(out, x)
            else:
                out.add(x)
    return out


class VSet(metaclass=VSetMeta):
    pass


def vset(*a):
    if not a:
        return OSet()
    xs = list(raw(a[0]))
    if any(isinstance(x, GenItem) for x in xs):
        values = [x.value if isinstance(x, GenItem) else x for x in xs]
        if not all(hasattr(v, '__dict__') and not isinstance(v, SymReal)
                   and type(v).__eq__ is object.__eq__ for v in values):
            return SymList(xs)
        out = SymSet()
        for i, x in enumerate(xs):
            if not any(v is values[i] for v in values[:i]):
                list.append(out, x)
        return out
    out = OSet()
    syms = []
    for x in xs:
        if isinstance(x, SymReal):
            syms.append(x)
        else:
            out.add(x)
    for s in syms:
        if not any(core.is_num(y) and bool(y == s) for y in out
                   if not isinstance(y, SymReal)):
            out.add(s)
    return out


def mkset(*xs):
    return vset(xs)


class OSet(set):
    """A set that lists its elements in a reproducible order."""

    def __init__(self, it=()):
        set.__init__(self)
        self.seq = {}
        for x in it:
            self.add(x)

    def add(self, x):
        if isinstance(x, GenItem):
            raise Unsupported('generic item in a set')
        if not set.__contains__(self, x):
            set.add(self, x)
            self.seq[id(x)] = x

    def discard(self, x):
        if set.__contains__(self, x):
            self.remove(x)

    def remove(self, x):
        set.remove(self, x)
        if id(x) in self.seq:
            del self.seq[id(x)]
        else:
            for k, y in list(self.seq.items()):
                if y == x:
                    del self.seq[k]

    def pop(self):
        for x in self.seq.values():
            self.remove(x)
            return x
        raise KeyError('pop from an empty set')

    def clear(self):
        set.clear(self)
        self.seq.clear()

    def __iter__(self):
        return iter(list(self.seq.values()))

    def update(self, *others):
        for o in others:
            for x in o:
                self.add(x)

    def copy(self):
        return OSet(self)
    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        r = OSet()
        memo[id(self)] = r
        for x in self:
            r.add(copy.deepcopy(x, memo))
        return r

    def __reduce__(self):
        return (OSet, (list(self),))

    def union(self, *others):
        r = OSet(self)
        r.update(*others)
        return r

    def intersection(self, *others):
        return OSet(x for x in self if all(x in set(o) for o in others))

    def difference(self, *others):
        return OSet(x for x in self if not any(x in set(o) for o in others))

    def symmetric_difference(self, o):
        return OSet([x for x in self if x not in set(o)] +
                    [x for x in o if x not in self])

    def _checked(f):
        def g(self, o):
            if not isinstance(o, (set, frozenset)) and \
                    not hasattr(o, '__and__'):
                return NotImplemented
            return f(self, o)
        return g
    __or__ = _checked(union)
    __and__ = _checked(intersection)
    __sub__ = _checked(difference)
    __xor__ = _checked(symmetric_difference)

    def __ror__(self, o):
        return OSet(o).union(self)

    def __rand__(self, o):
        return OSet(o).intersection(self)

    def __rsub__(self, o):
        return OSet(o).difference(self)

    def __ior__(self, o):
        self.update(o)
        return self

    def difference_update(self, *others):
        for o in others:
            for x in list(o):
                self.discard(x)

    def intersection_update(self, *others):
        for x in list(self):
            if not all(x in set(o) for o in others):
                self.discard(x)

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self


class VDictMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, dict)

    def __subclasscheck__(cls, c):
        return issubclass(c, dict)


class VDecimal(metaclass=_Meta):
    _real = Decimal

    def __new__(cls, x=0, *a):
        if isinstance(x, SymReal):
            return x
        if isinstance(x, (builtins.float, builtins.int, Fraction)):
            return VFloat(x)
        return Decimal(x, *a)

    @staticmethod
    def _check(x):
        return isinstance(x, (Decimal, SymReal, Fraction))


BUILTINS = dict(vars(builtins))
BUILTINS.update(
    sum=vsum, min=vmin, max=vmax, len=vlen, all=vall, any=vany,
    sorted=vsorted, map=vmap, filter=vfilter, zip=vzip,
    enumerate=venumerate, iter=viter, next=vnext, range=vrange,
    id=lambda x: eng().identity(x) if core.ENGINE is not None else id(x),
    float=VFloat, int=VInt, list=VList, tuple=VTuple, set=VSet,
    pow=lambda a, b, *c: core.power(a, b) if not c else builtins.pow(a, b, *c))


class _DictMeta(type):
    def __instancecheck__(cls, x):
        if cls is VDict:
            return isinstance(x, dict)
        return type.__instancecheck__(cls, x)

    def __subclasscheck__(cls, c):
        if cls is VDict:
            return issubclass(c, dict)
        return type.__subclasscheck__(cls, c)


class VDict(MyDict, metaclass=_DictMeta):
    pass


BUILTINS['dict'] = VDict


class _DDMeta(_DictMeta):
    def __instancecheck__(cls, x):
        if cls is VDefaultDict:
            return isinstance(x, (MyDefaultDict, collections.defaultdict))
        return type.__instancecheck__(cls, x)


class VDefaultDict(MyDefaultDict, VDict, metaclass=_DDMeta):
    pass


def _ns(mod, **over):
    d = {k: v for k, v in vars(mod).items()}
    d.update(over)
    return types.SimpleNamespace(**d)


def _isfinite_wrap(f, sym):
    def g(x):
        if isinstance(x, SymReal):
            return sym
        return f(x)
    return g


def _exp(x):
    if isinstance(x, SymReal):
        return core._power(MATH_E, core.mk(x.p))
    return math.exp(x)


def _isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
    if isinstance(a, SymReal) or isinstance(b, SymReal):
        d = abs(a - b)
        m = vmax(abs(a), abs(b)) * A.to_fraction(rel_tol)
        return bool(d <= vmax(m, A.to_fraction(abs_tol)))
    return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)


MATH_E = A.to_fraction(math.e)
MATH = _ns(math, log=core.log, exp=_exp, e=MATH_E,
           log1p=lambda x: core.log(1 + x),
           pow=lambda b, e: core._power(VFloat(b), VFloat(e)), fsum=vsum,
           isinf=_isfinite_wrap(math.isinf, False),
           isnan=_isfinite_wrap(math.isnan, False),
           isfinite=_isfinite_wrap(math.isfinite, True),
           isclose=_isclose,
           prod=lambda it, start=1: _prod(it, start))


def _prod(it, start=1):
    r = start
    for x in raw(it):
        if isinstance(x, GenItem):
            raise Unsupported('product over a symbolic collection')
        r = r * x
    return r


COLLECTIONS = _ns(collections, defaultdict=VDefaultDict,
                  OrderedDict=VDict)

REPLACE_MODULES = {math: MATH, collections: COLLECTIONS}
REPLACE_VALUES = [(math.log, core.log), (math.exp, _exp), (math.pow, core.power),
                  (math.isclose, _isclose), (math.fsum, vsum),
                  (math.isinf, MATH.isinf), (math.isnan, MATH.isnan),
                  (math.isfinite, MATH.isfinite),
                  (collections.defaultdict, VDefaultDict),
                  (collections.OrderedDict, VDict),
                  (Decimal, VDecimal)]
