"""Loop invariants.

The loop rule of coll.py covers loops whose iterations are independent but
for sums.  A loop whose order matters is given an invariant instead, stated by
the contract as a subclass of Invariant and found by the name of the function
and the position of the loop in it.  The rule is Hoare's:

    entry   the invariant holds when the loop is reached;
    step    from any state in which it holds, one run of the body (the real
            one) for an arbitrary element restores it;
    finish  execution goes on after the loop from any state in which it
            holds with no element left.

A contract makes the collection so that the element of the step is an explicit
entry between any number of earlier and any number of later ones, and runs
once for the step and once for the finish (`phase`).
"""
import inspect
import sys

from pyvc import core, coll
from pyvc.algebra import Unsupported
from pyvc.core import PathEnd, SymReal


class Invariant(object):
    ordered = True          # the loop must go over a sorted collection

    def __init__(self, c, function, nth, phase, element=None):
        """Of loop `nth` executed by `function`; element: of the step."""
        self.c, self.phase, self.element = c, phase, element
        e = core.ENGINE
        e.invariants.setdefault(function, {})[nth] = self
        self.id = (function, nth, phase)
        e.inv_stated.add(self.id)
        self.reached = False

    def over(self, v):
        """What the loop goes over: a dict or a list (of the keys)."""
        raise NotImplementedError

    def entry(self, v):
        """Obligations: the invariant when the loop is reached."""

    def fresh(self, v):
        """Make the state arbitrary but for the invariant: change the
        objects that the body changes, return the variables it assigns."""
        raise NotImplementedError

    def step(self, v):
        """Obligations: the invariant after the body."""

    def fits(self, it, items, v):
        if self.ordered and not getattr(it, '_pyvc_sorted', False):
            return False
        mine = list(coll.raw(self.over(v)))
        return len(mine) == len(items) and all(
            any(_same(x, y) for y in mine) for x in items)


class OverRange(Invariant):
    """Of a loop over range(first, last)."""

    def fits(self, it, items, v):
        first, last = self.over(v)
        a, b = getattr(it, '_pyvc_range', None) or (None, None)
        return a is not None and core.eng().known(a == first) and \
            core.eng().known(b == last)


def _same(x, y):
    if isinstance(x, coll.GenItem):
        return isinstance(y, coll.GenItem) and x.leaf is y.leaf and \
            _same(x.value, y.value)
    if isinstance(x, SymReal):
        return isinstance(y, SymReal) and x.p.key == y.p.key
    return x is y or (type(x) is type(y) and not isinstance(
        y, coll.GenItem) and x == y)


class Induction(object):
    """Of a recursive method of `obj`: the first call runs the real body, in
    which the calls it makes of itself are taken by their postcondition,
    spec(**arguments), after `smaller(**arguments)` states as obligations
    that they are allowed and that they are of something smaller."""

    def __init__(self, c, obj, method, smaller, spec):
        e = core.ENGINE
        real = getattr(obj, method)
        id_ = (method, 'induction')
        e.inv_stated.add(id_)
        names = inspect.signature(real).parameters
        state = {'in': False}

        def call(*args, **kwargs):
            if not state['in']:
                state['in'] = True
                try:
                    return real(*args, **kwargs)
                finally:
                    state['in'] = False
            e.inv_reached.add(id_)
            given = {n: p.default for n, p in names.items()}
            given.update(zip(names, args))
            given.update(kwargs)
            smaller(**given)
            return spec(**given)
        obj.__dict__[method] = call


class InvLoop(object):
    def __init__(self, inv, it, getters, names, frame):
        self.inv, self.getters, self.names = inv, getters, names
        self.frame = frame
        self.done = self.started = False
        items = list(coll.raw(it))
        try:
            ok = inv.fits(it, items, self.values())
        except (KeyError, AttributeError, TypeError):
            ok = False
        if not ok:
            raise Unsupported('not the loop that the invariant is for')

    def values(self):
        v = dict(self.frame.f_locals)
        for n, g in zip(self.names, self.getters):
            try:
                v[n] = g()
            except NameError:
                pass
        return v

    def __iter__(self):
        return self

    def __next__(self):
        inv = self.inv
        if self.started:
            inv.step(self.values())
            raise PathEnd()
        self.started = True
        inv.reached = True
        core.ENGINE.inv_reached.add(inv.id)
        inv.entry(self.values())
        new = inv.fresh(self.values())
        if not set(new) <= set(self.names):
            raise Unsupported('the invariant is about other variables')
        self.state = [new[n] if n in new else coll.Poison()
                      for n in self.names]
        if inv.phase == 'step':
            return inv.element
        self.done = True
        raise StopIteration

    def begin(self):
        return self.state

    def end(self):
        if not self.done:
            raise Unsupported('break out of a loop with an invariant')
        return self.state

    def tag(self, v):
        raise Unsupported('yield in a loop with an invariant')

    def attr(self):
        raise Unsupported('attribute updated in a loop with an invariant')

    def leave(self):
        raise Unsupported('return out of a loop with an invariant')


def find(frame):
    e = core.ENGINE
    invs = e.invariants.get(frame.f_code.co_qualname)
    if invs is None:
        return None
    n = e.loop_counts.get(frame, 0)
    e.loop_counts[frame] = n + 1
    return invs.get(n)
