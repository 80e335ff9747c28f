"""Values written to files and read back.

Symbolically, the JSON library and the file system are used through assumed
contracts (class Json below): what is written is read back, with keys turned
into text and numbers other than integers handed to `parse_float` as text.
Evaluated concretely, the real library and real files are used."""
import contextlib
import json
import os
import tempfile
from decimal import Decimal
import forecaster.value_reader as module
from forecaster.value_reader import (
    HighPrecisionJSONEncoder, ValueReader, ValueReaderAttribute)
from pyvc.ctx import contract
from pyvc.algebra import Unsupported
from pyvc.invariant import Induction

TRUSTED = [
    'assumed contracts of json (what is dumped is loaded, with keys as '
    'text, and numbers that are not integers are passed to parse_float) '
    'and of the file system (what is written is read); the real ones '
    'run in the evaluations']

TEXTS = ['abc', '', 'true', 'None', '12 months', '2000-01-31', '1,000',
         '1.2.3', 'e5', '5%', '\u00e9t\u00e9 "x"\n']


# ------------------------------------------- assumed contracts (symbolic)
class Json(object):
    """The JSON library and the files it works on, by their contracts."""

    def __init__(self, c):
        from pyvc import coll, core
        self.coll, self.core = coll, core
        self.files = {}
        outer = self

        class Object(coll.VDict):
            """A JSON object as the library returns it: keys are text."""
            def items(self):
                return [(outer.key(k), v)
                        for k, v in coll.VDict.items(self)]

            def keys(self):
                return [outer.key(k) for k in coll.VDict.keys(self)]
        self.Object = Object

        from pyvc.precise import Precise, precise
        self.Precise, self.precise = Precise, precise

    def key(self, k):
        if k is None or isinstance(k, bool):
            return {None: 'null', True: 'true', False: 'false'}[k]
        if isinstance(k, self.core.SymReal):
            return self.coll.Numeral(k)
        return k if isinstance(k, str) else repr(k)

    def number(self, x):
        return isinstance(x, (int, float, self.core.SymReal,
                              self.core.Fraction))

    def encode(self, x, encoder):
        if isinstance(x, self.Precise):
            return self.encode(encoder.default(x), encoder)
        if isinstance(x, dict):
            return {self.plain(k): self.encode(v, encoder)
                    for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [self.encode(v, encoder) for v in x]
        if x is None or isinstance(x, (bool, str)) or self.number(x):
            return x
        if isinstance(x, Encoded):
            return x
        return self.encode(encoder.default(x), encoder)

    def plain(self, k):
        if isinstance(k, self.Precise):
            raise TypeError('keys must be str, int, float, bool or None')
        if isinstance(k, self.coll.Numeral):
            return k.n
        if k is None or isinstance(k, (bool, str)) or self.number(k):
            return k
        raise TypeError('keys must be str, int, float, bool or None')

    def decode(self, x, parse_float, parse_constant):
        again = lambda v: self.decode(v, parse_float, parse_constant)
        if isinstance(x, dict):
            return self.Object({k: again(v) for k, v in x.items()})
        if isinstance(x, list):
            return [again(v) for v in x]
        if isinstance(x, (bool, str, type(None))):
            return x
        if isinstance(x, Encoded):
            return Loaded(x.tree)
        if isinstance(x, self.core.SymReal):
            if self.core.is_integer_poly(x.p):
                return x
            return parse_float(self.coll.Numeral(x))
        if x in (float('inf'), -float('inf')):
            return parse_constant('Infinity' if x > 0 else '-Infinity')
        if isinstance(x, int):
            return x
        return parse_float(repr(float(x)))

    # the interface that is used
    def dump(self, obj, fp, cls=None, **kw):
        for k in ('indent', 'sort_keys', 'ensure_ascii', 'allow_nan'):
            kw.pop(k, None)
        fp.content = self.encode(obj, (cls or module.json.JSONEncoder)(**kw))

    def load(self, fp, cls=None, parse_float=None, parse_constant=None, **kw):
        return self.decode(fp.content, parse_float or self.coll.VFloat,
                           parse_constant or self.coll.VFloat)

    @contextlib.contextmanager
    def open(self, path, *a, **k):
        yield self.files.setdefault(path, File())


class File(object):
    content = None


class Disk(object):
    """A scratch folder, or the assumed file system."""

    def __init__(self, c):
        self.c = c

    def __enter__(self):
        if self.c.symbolic:
            self.json = Json(self.c)
            self.was = module.json
            stub = type('json', (), {
                'dump': staticmethod(self.json.dump),
                'load': staticmethod(self.json.load),
                'JSONEncoder': module.json.JSONEncoder})
            module.json, module.open = stub, self.json.open
            self.folder = '/scratch'
            self.precise = self.json.precise
            self.of_type = self.json.Precise
        else:
            self.folder = tempfile.mkdtemp()
            self.precise = self.of_type = Decimal
        return self

    def path(self, name='values.json'):
        return os.path.join(self.folder, name)

    def numeral(self, n, whole=False):
        """Text that spells n."""
        if self.c.symbolic:
            return self.json.coll.Numeral(n, whole)
        return str(int(n)) if whole else repr(float(n))

    def __exit__(self, *a):
        if self.c.symbolic:
            module.json = self.was
            del module.open
        else:
            for f in os.listdir(self.folder):
                os.remove(os.path.join(self.folder, f))
            os.rmdir(self.folder)


class Tree(object):
    """Any nesting of lists, mappings and other values, less deep than the
    one at hand."""


class Encoded(object):
    """A tree as it is prepared to be written (see deeper_values)."""

    def __init__(self, tree):
        self.tree = tree


class Loaded(Encoded):
    """A tree as the JSON library reads it."""


# -------------------------------------------------------------- contracts
def same(c, name, got, want):
    """Equal values of the same kinds (tuples come back as lists)."""
    if isinstance(want, dict):
        c.check(name + ': a mapping', isinstance(got, dict))
        for k in want:
            c.check(name + ': key', k in got)
            same(c, name + '{}', got[k], want[k])
        for k in got:
            c.check(name + ': no other key', k in want)
    elif isinstance(want, (list, tuple)):
        c.check(name + ': a list', isinstance(got, list))
        c.eq(name + ': length', len(got), len(want))
        for g, w in zip(got, want):
            same(c, name + '[]', g, w)
    elif want is None or isinstance(want, (bool, str)):
        c.check(name + ': left alone',
                type(got) == type(want) and got == want)
    elif want in (float('inf'), -float('inf')):
        c.check(name + ': infinite', got == want)
    else:
        c.eq(name, got, want)


def trip(c, disk, values, precise=False, how='values', **kw):
    """Write, read back."""
    hp = disk.precise if precise else None
    writer = ValueReader(high_precision=hp)
    if how == 'values':
        writer.write(disk.path(), values)
    elif how == 'own':
        writer.values = values
        writer.write(disk.path())
    else:
        other = ValueReader()
        other.values = values
        writer.write(disk.path(), other)
    return ValueReader(disk.path(), high_precision=hp, **kw).values


def number(c, name):
    if c.flag(name + ' whole'):
        return c.integer(name, lo=-10**6, hi=10**6)
    return c.real(name)


@contract('P21')
def mappings(c):
    """A mapping of any size from numbers to numbers or texts, within any
    of several nestings, whichever way it is written."""
    with Disk(c) as disk:
        m = c.time_map('map')
        n = number(c, 'number')
        text = c.choice('text', TEXTS[:3])
        wrap = c.choice('within', ['nothing', 'mapping', 'list', 'both'])
        inner = {'m': m, 't': text, 'n': n}
        values = {'nothing': lambda: inner,
                  'mapping': lambda: {'a': inner, 'b': None},
                  'list': lambda: {'a': [inner, True, [text, n]]},
                  'both': lambda: {'a': [{'x': [inner, []]}, False], 'c': {}},
                  }[wrap]()
        same(c, 'values', trip(c, disk, values, how=c.choice(
            'how', ['values', 'own', 'reader'])), values)


@contract('P21')
def lists(c):
    """A list of any number of mappings."""
    with Disk(c) as disk:
        xs = c.objects('items', lambda g: {'v': g.real('v'), 't': 'abc'})
        got = trip(c, disk, {'list': xs})['list']
        c.eq('how many', c.count(got), c.count(xs))
        s = t = 0
        for x in xs:
            s += x['v']
            t += x['v'] * x['v']
        for x in got:
            c.check('text', x['t'] == 'abc')
            s -= x['v']
            t -= x['v'] * x['v']
        c.eq('sum', s, 0)
        c.eq('sum of squares', t, 0)


def any_depth(c, disk):
    """By induction on the depth: values that hold nestings of any depth,
    each of which is taken to be prepared for writing, and converted after
    reading, as it should be, are read back as well."""
    a, b = Tree(), Tree()
    shape = c.choice('shape', ['mapping', 'list', 'tuple', 'entries'])
    key = c.real('key')
    values = {'mapping': {'a': a, key: b, 'n': c.real('n'), 't': 'abc'},
              'list': {'x': [a, c.real('n'), 'abc', b, None]},
              'tuple': {'x': (a, (b, True))},
              'entries': {'x': {'a': c.time_map('map'), 'b': b, 'c': [a]}},
              }[shape]
    done = {}

    def encoded(vals, **kw):
        if isinstance(vals, Tree):
            if id(vals) not in done:
                done[id(vals)] = Encoded(vals)
            return done[id(vals)]
        return ValueReader._encode_keys(writer, vals, **kw)

    def converted(vals, **kw):
        if isinstance(vals, Loaded):
            return vals.tree
        return ValueReader._numeric_convert(reader, vals, **kw)
    writer, reader = ValueReader(), ValueReader()
    if not (hasattr(writer, '_encode_keys') and
            hasattr(reader, '_numeric_convert')):
        raise Unsupported('not the recursion that the induction is for')
    nothing = lambda **kw: None
    Induction(c, writer, '_encode_keys', nothing, encoded)
    Induction(c, reader, '_numeric_convert', nothing, converted)
    writer.write(disk.path(), values)
    reader.read(disk.path())
    same(c, 'values', reader.values, values)


def a_tree(c, depth):
    """A random nesting of up to a depth."""
    kinds = ['number', 'text', 'constant'] + 2 * (
        ['list', 'tuple', 'mapping'] if depth else [])
    a_tree.n += 1
    n = ' %d' % a_tree.n
    kind = c.choice('kind' + n, kinds)
    if kind == 'number':
        return c.choice('number' + n, [0, 1, -3, 0.5, -2.75, 1e30, 10**20,
                                       1e-7, float('inf')])
    if kind == 'text':
        return c.choice('text' + n, TEXTS)
    if kind == 'constant':
        return c.choice('constant' + n, [True, False, None])
    size = c.choice('size' + n, [0, 1, 2, 3])
    parts = [a_tree(c, depth - 1) for i in range(size)]
    if kind == 'mapping':
        keys = [2010, 0.5, 'k', -1, 'other', 'x y', 1.25]
        first = c.choice('keys' + n, [0, 1, 2, 3, 4])
        return dict(zip(keys[first:], parts))
    return parts if kind == 'list' else tuple(parts)


@contract('P21', kinds=('unbounded', 'random'))
def nestings(c):
    """Nestings of any depth."""
    with Disk(c) as disk:
        if c.unbounded:
            return any_depth(c, disk)
        a_tree.n = 0
        depth = c.choice('depth', [2, 3, 4, 5])
        values = {k: a_tree(c, depth) for k in ('a', 'b', 'c')}
        how = c.choice('how', ['values', 'own', 'reader'])
        same(c, 'values', trip(c, disk, values, how=how), values)


@contract('P21')
def texts(c):
    """Text that spells no number is left alone, as key and as value;
    truth values and null as well."""
    with Disk(c) as disk:
        k = c.choice('key', TEXTS)
        v = c.choice('value', TEXTS + [True, False, None, [], {}])
        precise = c.flag('high precision')
        values = {k: v, 'in a list': [v, [v], {k: v}]}
        same(c, 'values', trip(c, disk, values, precise=precise), values)
        same(c, 'without conversion', trip(
            c, disk, values, precise=precise, numeric_convert=False), values)


@contract('P21')
def numerals(c):
    """Text that spells a number is read as the number that it denotes, as
    key and as value, at any depth, and left alone on request."""
    with Disk(c) as disk:
        whole = c.flag('whole')
        n = c.integer('n', lo=-10**6, hi=10**6) if whole else c.real('n')
        k = c.integer('k', lo=-10**6, hi=10**6) if whole else c.real('k')
        precise = c.flag('high precision')
        t = disk.numeral(n, whole)
        values = {'a': t, 'b': [t, {'c': [t]}]}
        got = trip(c, disk, values, precise=precise)
        same(c, 'values', got, {'a': n, 'b': [n, {'c': [n]}]})
        got = trip(c, disk, {'a': {k: n}}, precise=precise)
        same(c, 'keys', got, {'a': {k: n}})
        for x in list(got['a']) + [got['a'][y] for y in got['a']]:
            c.check('type', x == int(x) or isinstance(
                x, disk.of_type if precise else float))


@contract('P21')
def high_precision(c):
    """High-precision numbers, as keys and as values."""
    with Disk(c) as disk:
        n, k = c.real('n'), c.real('k')
        exact = disk.precise(n)
        values = {'a': exact, 'b': [exact, {disk.precise(k): exact, 'x': 1}],
                  't': (exact, ({disk.precise(k): exact},))}
        got = trip(c, disk, values, precise=True)
        same(c, 'values', got, {'a': n, 'b': [n, {k: n, 'x': 1}],
                                't': [n, [{k: n}]]})
        if got['a'] != int(got['a']):
            c.check('type', isinstance(got['a'], disk.of_type))
        if c.symbolic:
            return
        for i, x in enumerate(('0.1', '1E+30', '123456789012345678901234.5',
                               '-0.99999999999999999999999', '1E-400',
                               '100000000000000000000001')):
            got = trip(c, disk, {'x': [Decimal(x)], 'y': {Decimal(x): x}},
                       precise=True)
            c.check('exactly', got == {'x': [Decimal(x)],
                                       'y': {Decimal(x): Decimal(x)}})
            got = trip(c, disk, {'x': x}, precise=False)['x']
            c.check('nearest', float(got) == float(x))
            c.check('exact integers', not x.isdigit() or got == int(x))


@contract('P21')
def infinities(c):
    """Infinite thresholds, in either precision."""
    with Disk(c) as disk:
        inf = float('inf')
        n = c.real('n')
        sign = c.choice('sign', [1, -1])
        precise = c.flag('high precision') and not c.symbolic
        values = {'a': {n: sign * inf, sign * inf: n}, 'b': [sign * inf]}
        got = trip(c, disk, values, precise=precise)
        same(c, 'values', got, values)
        if precise:
            for x in got['b'] + [got['a'][y] for y in got['a'] if y == n]:
                c.check('at high precision', isinstance(x, disk.of_type))
        for t in ('inf', 'Infinity', '+inf'):
            same(c, 'text', trip(c, disk, {'a': t, 'b': {'-' + t.strip('+'):
                                                         [1]}}),
                 {'a': inf, 'b': {-inf: [1]}})


@contract('P21')
def places(c):
    """Bare names are files of the package's data, others stay."""
    data = os.path.join(os.path.dirname(module.__file__), 'data')
    name = c.choice('name', ['a.json', 'b/c.json'])
    c.check('bare', os.path.normpath(module.resolve_path(name))
            == os.path.normpath(os.path.join(data, name)))
    c.check('absolute', module.resolve_path('/x/' + name) == '/x/' + name)


@contract('P21')
def attributes(c):
    """Attributes are the values of a reader, or else their defaults."""
    with Disk(c) as disk:
        default = c.real('default')
        use = c.flag('use defaults')
        class Reader(ValueReader):
            a = ValueReaderAttribute(default)
            b = ValueReaderAttribute()
            missing = ValueReaderAttribute()
        n = c.real('n')
        Reader().write(disk.path(), {'b': n, 'other': [n]})
        r = Reader(disk.path(), use_defaults=use)
        c.eq('read', r.b, n)
        if use:
            c.eq('default', r.a, default)
        else:
            c.raises('no default', lambda: r.a, KeyError)
        c.raises('neither read nor with a default', lambda: r.missing,
                 KeyError)
        m = c.real('m')
        r.a = m
        c.eq('set', r.a, m)
        c.eq('among the values', r.values['a'], m)
        c.eq('others untouched', r.b, n)
        r.write(disk.path())
        again = Reader(disk.path(), use_defaults=use)
        c.eq('written', again.a, m)
        del again.a
        c.check('deleted', 'a' not in again.values)
        Reader().write(disk.path('2'), {'a': default})
        again.read(disk.path('2'))
        c.check('values of the last file only', list(again.values) == ['a'])
        c.eq('read again', again.a, default)


class Amount(object):
    """A number type whose text is not that of a number."""

    def __init__(self, value):
        self.value = value.value if isinstance(value, Amount) else value


@contract('P21')
def left_alone(c):
    """Text that spells a number stays text on request, when the reader is
    made and when a file is read later; numbers stay numbers."""
    with Disk(c) as disk:
        n = c.real('n')
        whole = c.integer('whole', lo=-10**6, hi=10**6)
        texts = c.choice('texts', [['5', '-2.50'], ['1e3', 'inf', 'nan']])
        values = {'a': texts, 'b': {t: t for t in texts}, 'c': [n, whole]}
        if c.flag('later'):
            ValueReader().write(disk.path(), values)
            r = ValueReader()
            r.values['old'] = 1
            r.read(disk.path(), numeric_convert=False)
            got = r.values
        else:
            got = trip(c, disk, values, numeric_convert=False)
        same(c, 'values', got, values)
        same(c, 'text is converted otherwise',
             trip(c, disk, {'5': '7', 'c': ['8']}), {5: 7, 'c': [8]})


@contract('P21', kinds=('random',))
def own_types(c):
    """Numbers of a type of one's own, written as text by a function of
    one's own and read with another, as values and as keys; the encoder
    alone writes them as text, or as the nearest number on request."""
    with Disk(c) as disk:
        n = int(c.integer('n', lo=0, hi=10**6))
        x = Amount(n)
        write = lambda a: '%d.5' % a.value
        read = lambda t: Amount(int(float(t)))
        w = ValueReader(high_precision=read, high_precision_serialize=write)
        w.write(disk.path(), {'a': [x, 'b'], 'k': {x: 1}})
        plain = ValueReader(disk.path()).values
        c.check('text of one\'s own', plain == {
            'a': [n + 0.5, 'b'], 'k': {n + 0.5: 1}})
        r = ValueReader(disk.path(), high_precision=read).values
        c.check('read as one\'s own', isinstance(r['a'][0], Amount) and
                r['a'][0].value == n)
        k, = r['k']
        c.check('keys as well', isinstance(k, Amount) and k.value == n)
        exact = Decimal(n) + Decimal('0.1')
        text = c.flag('text')
        got = json.loads(json.dumps(
            [exact, n], cls=HighPrecisionJSONEncoder, high_precision=Decimal,
            numeric_convert=text))
        c.check('as text or as a number', got == [
            str(exact) if text else float(exact), n])
        c.raises('no other objects', lambda: json.dumps(
            [object()], cls=HighPrecisionJSONEncoder, high_precision=Decimal),
            TypeError)
