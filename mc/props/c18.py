"""The adapter base class: derived operations against a dictionary; key validation; tagging on top."""
import string
import warnings
from mc.sut import *
from mc import backend
from mc.props import c01, c06, c07

ASSUMPTIONS = [
    'the adapter supplies get, set, add, delete and clear of single keys, and None is not a value',
    'the remaining life time after a counter or version change is not specified',
    'versions move by a non-zero delta',
]


class Model(object):
    """{(key, version): value}"""

    def __init__(self, version):
        self.version = version
        self.d = {}

    def v(self, version):
        return self.version if version is None else version

    def get(self, key, version):
        return self.d.get((key, self.v(version)))


MISSING_KEY = 'missing'
VALUES = [0, 1, '', [], False, 'text', {'a': None}]


class Sys(object):
    def __init__(self, ch, options=None):
        rt.fresh()
        self.ch = ch
        self.options = options or {}
        self.c = backend.Adapter('A', {'OPTIONS': self.options})
        self.m = Model(self.options.get('version', 1))
        self.n = 0
        self.keys = ['a', 'b']
        self.versions = [1, 2, 3, 4]

    def value(self):
        self.n += 1
        return self.n * 10

    def check(self, what, got, want):
        if got != want or type(got) is not type(want):
            raise Violation('%s: %r instead of %r' % (what, got, want))

    def fails(self, what, fn):
        try:
            got = fn()
        except ValueError:
            self.ch.note('%s: ValueError' % what)
        else:
            raise Violation('%s of a missing key returned %r' % (what, got))

    def verify(self):
        c, m = self.c, self.m
        for v in [None] + self.versions:
            want = {}
            for k in self.keys:
                e = m.get(k, v)
                self.check('get(%r, version=%r)' % (k, v), c.get(k, 'default', v), 'default' if e is None else e)
                self.check('has_key(%r, version=%r)' % (k, v), c.has_key(k, v), e is not None)
                if v is None:
                    self.check('%r in' % k, k in c, e is not None)
                if e is not None:
                    want[k] = e
            got = c.get_many(iter(self.keys + [MISSING_KEY]), v)
            self.check('get_many(version=%r)' % v, got, want)
            self.check('get_many([])', c.get_many([], v), {})

    def ops(self):
        out = []
        for k, v in (('a', None), ('a', 2), ('b', None)):
            out.append(('set', k, v))
        for v in (None, 2):
            out.append(('incr', 'a', v))
            out.append(('decr', 'a', v))
            out.append(('set_many', None, v))
            out.append(('delete_many', None, v))
            out.append(('incr_version', 'a', v))
            out.append(('decr_version', 'a', v))
        out += [('add', 'a', None), ('delete', 'a', 2), ('clear', None, None), ('incr5', 'b', None), ('up2', 'b', None), ('other', 'a', 1)]
        return out

    def apply(self, op):
        kind, k, v = op
        c, m = self.c, self.m
        ver = m.v(v)
        self.ch.note('%s %s version=%s' % op)
        cur = m.get(k, v)
        if kind == 'set':
            x = self.value()
            c.set(k, x, version=v)
            m.d[k, ver] = x
        elif kind == 'other':
            # another adapter object on the same cache
            x = self.value()
            backend.Adapter('A', {'OPTIONS': self.options}).set_many({'a': x}, version=v)
            m.d[k, ver] = x
        elif kind == 'add':
            self.check('add', c.add(k, 7, version=v), cur is None)
            if cur is None:
                m.d[k, ver] = 7
        elif kind == 'delete':
            c.delete(k, version=v)
            m.d.pop((k, ver), None)
        elif kind == 'clear':
            c.clear()
            m.d.clear()
        elif kind in ('incr', 'decr', 'incr5'):
            delta = {'incr': 1, 'decr': -1, 'incr5': 5}[kind]
            args = (k, 5) if kind == 'incr5' else (k,)
            fn = c.decr if kind == 'decr' else c.incr
            if cur is None:
                self.fails(kind, lambda: fn(*args, version=v))
            else:
                self.check(kind, fn(*args, version=v), cur + delta)
                m.d[k, ver] = cur + delta
        elif kind in ('incr_version', 'decr_version', 'up2'):
            delta = {'incr_version': 1, 'decr_version': -1, 'up2': 2}[kind]
            args = (k, 2) if kind == 'up2' else (k,)
            fn = c.decr_version if kind == 'decr_version' else c.incr_version
            if cur is None:
                self.fails(kind, lambda: fn(*args, version=v))
            else:
                self.check(kind, fn(*args, version=v), ver + delta)
                del m.d[k, ver]
                m.d[k, ver + delta] = cur
                if ver + delta not in self.versions:
                    self.versions = sorted(self.versions + [ver + delta])
        elif kind == 'set_many':
            a, b = self.value(), self.value()
            c.set_many({'a': a, 'b': b}, version=v)
            m.d['a', ver], m.d['b', ver] = a, b
        elif kind == 'delete_many':
            c.delete_many(iter(['b', MISSING_KEY, 'a']), version=v)
            m.d.pop(('a', ver), None)
            m.d.pop(('b', ver), None)


def contents():
    return {k: v[0] for k, v in rt.world.stores.get('A', {}).items()}


def history(depth, options=None):
    def run(ch):
        s = Sys(ch, options)
        menu = s.ops()
        for i in range(depth):
            op = ch.pick(menu)
            before = contents()
            missing = s.m.get(op[1], op[2]) is None
            s.apply(op)
            if ch.fresh():
                if missing and op[0] in ('incr', 'decr', 'incr5', 'incr_version', 'decr_version', 'up2') and contents() != before:
                    raise Violation('%s of a missing key altered the cache' % op[0])
                s.verify()
        return repr(sorted(s.m.d.items()))[:100]
    return run


def values(ch):
    """Every value through every way of storing and reading; deltas."""
    s = Sys(ch, ch.pick([None, {'key_prefix': 'p'}, {'version': 3}, {'key_func': lambda key, prefix, version: '%s|%s|%s' % (version, prefix, key)}]))
    c = s.c
    v = ch.pick([None, 1, 2, 0])
    x = ch.pick(VALUES)
    how = ch.choose(3)
    if how == 0:
        c.set('a', x, version=v)
    elif how == 1:
        c.set_many({'a': x}, version=v)
    else:
        c.add('a', x, version=v)
    ver = s.m.v(v)
    s.m.d['a', ver] = x
    s.versions = sorted({0, 1, 2, 3, 4, 5, ver})
    s.verify()
    act = ch.choose(5)
    if act == 0 and isinstance(x, int) and not isinstance(x, bool):
        d = ch.pick([1, 0, -3, 10])
        s.check('incr', c.incr('a', d, v), x + d)
        s.check('decr', c.decr('a', delta=2, version=v), x + d - 2)
        s.m.d['a', ver] = x + d - 2
    elif act == 1:
        d = ch.pick([1, 2, -1])
        s.check('incr_version', c.incr_version('a', d, v), ver + d)
        s.m.d['a', ver + d] = s.m.d.pop(('a', ver))
    elif act == 2:
        d = ch.pick([1, 2, -1])
        s.check('decr_version', c.decr_version('a', delta=d, version=v), ver - d)
        s.m.d['a', ver - d] = s.m.d.pop(('a', ver))
    elif act == 3:
        c.delete_many(['a'], version=v)
        s.m.d.clear()
    s.versions = sorted(set(s.versions) | {k[1] for k in s.m.d})
    s.verify()
    c.close()
    s.verify()
    return repr(x)


def timeouts(ch):
    """set_many passes the time out on, also one that is over at once."""
    s = Sys(ch)
    if ch.choose(2):
        s.c.set_many({'a': 5, 'c': 6})
        s.c.set_many({'a': 5}, 1000, 2)
    t = ch.pick([None, 0, 10, 1000])
    how = ch.choose(4)
    v = 2 if how == 3 else 1
    if how == 0:
        s.c.set_many({'a': 1, 'b': 2}, t)
    elif how == 1:
        s.c.set_many({'a': 1, 'b': 2}, timeout=t, version=1)
    elif how == 2:
        s.c.set_many(data={'a': 1, 'b': 2}, timeout=t)
    else:
        s.c.set_many({'a': 1, 'b': 2}, t, 2)
    end = 600 if t is None else t
    if end:
        rt.clock.advance(end - 1)
        s.check('before the end', s.c.get_many(['a', 'b'], v), {'a': 1, 'b': 2})
        s.check('before the end', s.c.has_key('a', v), True)
    rt.clock.advance(2)
    s.check('after the end', s.c.get_many(['a', 'b'], v), {})
    s.check('after the end', s.c.has_key('a', v), False)
    s.fails('incr after the end', lambda: s.c.incr('a', version=v))
    return t


def shared(ch):
    """Two adapters with different prefix, version or key function on one store do not see each other's entries."""
    rt.fresh()
    kinds = [{}, {'key_prefix': 'p'}, {'version': 2}, {'key_func': lambda k, p, v: 'f%s' % k}]
    i = ch.choose(len(kinds))
    j = ch.choose(len(kinds))
    if i == j:
        return 'same'
    a = backend.Adapter('A', {'OPTIONS': kinds[i]})
    b = backend.Adapter('A', {'OPTIONS': kinds[j]})
    a.set_many({'k': 1, 'l': 2})
    b.set('k', 10)
    ops = [lambda c: c.incr('k'), lambda c: c.delete_many(['k']), lambda c: c.set_many({'k': 5})]
    want = [{'k': 1, 'l': 2}, {'k': 10}]
    for step in range(2):
        who = ch.choose(2)
        op = ch.choose(3)
        c = (a, b)[who]
        if op == 0 and 'k' in want[who]:
            c.incr('k')
            want[who]['k'] += 1
        elif op == 1:
            c.delete_many(['k'])
            want[who].pop('k', None)
        elif op == 2:
            c.set_many({'k': 5})
            want[who]['k'] = 5
        for c, w in ((a, want[0]), (b, want[1])):
            got = c.get_many(['k', 'l'])
            if got != w:
                raise Violation('%r instead of %r' % (got, w))
    return repr(want)


def validation(ch):
    """Every character class at every position, every length around the limit."""
    rt.fresh()
    c = backend.Adapter('A')
    codes = list(range(0, 161)) + [0x3b1, 0x4e2d, 0xffff]
    length = ch.pick([0, 1, 2, 5, 249, 250, 251, 252, 1000])
    code = ch.pick([None] + codes) if length in (1, 5, 250, 251) else None
    where = ch.choose(3) if code is not None and length > 1 else 0
    key = ['x'] * length
    if code is not None:
        key[(0, length // 2, length - 1)[where]] = chr(code)
    key = ''.join(key)
    bad = length > 250 or code is not None and (code < 33 or code == 127)
    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter('always')
        c.validate_key(key)
    if bool(got) != bad:
        raise Violation('validate_key(%d characters, code %s): %s' % (length, code, 'no warning' if bad else 'a warning: %s' % got[0].message))
    for w in got:
        if 'memcached' not in str(w.message):
            raise Violation('the warning does not say why: %s' % w.message)
    return bad


def inherited(name, hs, keep):
    out = []
    for h in hs:
        if h.name in keep:
            out.append(Harness('%s: %s' % (name, h.name), h.run, h.bound, h.jobs, h.about))
    return out


def harnesses(tier):
    deep = tier == 'thorough'
    d = 1 if deep else 0
    return [
        Harness('histories', history(4 if deep else 3), about='histories of 21 operations over two keys and versions'),
        Harness('histories, prefix and version', history(3, {'key_prefix': 'p', 'version': 2}), about='... default version 2'),
        Harness('values', values, about='values, ways to store, counters, version moves'),
        Harness('timeouts', timeouts, about='time outs of batches'),
        Harness('shared store', shared, about='adapters with different names on one store'),
        Harness('key validation', validation, about='161 characters, 9 lengths'),
        Harness('tagging', c01.history(3 + d, True, True, alias='rca0'), about='histories of the tagging cache on the adapter'),
        Harness('tagging, version and prefix', c01.history(3 + d, True, True, alias='rrq0'), about='... with another default version'),
        Harness('transactions, rc', c06.one_writer('rca0', 4 + d), about='transactions on the adapter'),
        Harness('transactions, rr', c06.one_writer('rra0', 3 + d, versions=(None, 2)), about='... two versions'),
        Harness('transactions, prefix', c06.one_writer('rrq0', 3 + d, versions=(None, 2)), about='... another default version'),
        Harness('fence', c07.fence('rra0', 4 + d, c07.BASIC), about='histories of three sessions'),
    ]
