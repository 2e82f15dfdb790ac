"""The histories of C01 with the opposite oracle, and awkward values."""
from mc.sut import *
from mc.conc import run_threads
from mc.props import c01, c04

ASSUMPTIONS = c01.ASSUMPTIONS


class Thing(object):
    def __init__(self, x):
        self.x = x

    def __eq__(self, other):
        return type(other) is Thing and other.x == self.x

    def __repr__(self):
        return 'Thing(%r)' % self.x


VALUES = [0, 1, '', 'x', False, True, 0.0, (), [], {}, set(), b'', {'a': 1}, {'__value': 1}, {'__dependency': 2},
          [None], (None, 0), {'value': None, 'dependency': ()}, u'\u0436\0', Thing(3), 10 ** 30, frozenset([1])]


def values(ch):
    """Every awkward value through every way of storing and reading, with and without tags."""
    s = c01.System(ch, True, True)
    v = ch.pick(VALUES)
    via = ch.choose(7)
    c = s.c[0]
    inval = True
    if via == 0:
        c.set('k1', v, ('t',), 1000)
    elif via == 1:
        c.set('k1', v, (), 1000)
    elif via == 2:
        c.set('k1', v, timeout=1000, tags=['t'])
    elif via == 3:
        if c.get_or_set_callback('k1', lambda *a, **kw: v if (a, kw) == ((1,), {'b': 2}) else (a, kw), ('t',), 1000, None, (1,), {'b': 2}) != v:
            raise Violation('get_or_set_callback returned something else than the computed %r' % (v,))
    elif via == 6:
        if c.cache.get_or_set_callback('k1', lambda *a, **kw: v if (a, kw) == ((1,), {'b': 2}) else (a, kw),
                                       deps.TagsDependency('t'), 1000, None, (1,), {'b': 2}) != v:
            raise Violation('get_or_set_callback of the wrapper returned something else than the computed %r' % (v,))
    elif via == 4:
        c.set_many({'k1': v}, 1000)
    else:
        c.add('k1', v, 1000)
    tagged = via in (0, 2, 3, 6)
    for cache in (c, s.c[1]):
        for how, got in (('get', cache.get('k1', MISSING)),
                         ('get with abort', cache.get('k1', MISSING, abort=True)),
                         ('get_many', cache.get_many(['k0', 'k1']).get('k1', MISSING)),
                         ('get_many of an iterator', cache.get_many(iter(['k1'])).get('k1', MISSING)),
                         ('get_or_set_callback', cache.get_or_set_callback('k1', lambda: 'recomputed', ('t',)))):
            if got is MISSING or got != v or type(got) is not type(v):
                raise Violation('%s returned %r for the stored %r (stored by way %d)' % (how, got, v, via))
    s.c[1].invalidate_tags(*ch.pick([('t',), ('T', 'u')]))
    default = ch.pick([None, 0, 'dflt'])
    got = c.get('k1', default)
    gone = tagged and ch.trace[-2][0] == 0
    if gone and (got is not default or 'k1' in c.get_many(['k1'])):
        raise Violation('%r is still there after invalidation' % (v,))
    if not gone and (got != v or c.get_many(['k1']) != {'k1': v}):
        raise Violation('%r has vanished' % (v,))
    return via, gone


def none_value(ch):
    """None can not be told from a miss by get(), but it is a value for the batched read."""
    s = c01.System(ch, True, True)
    c = s.c[0]
    tags = ch.pick([(), ('t',), ('t', 'u')])
    c.set('k1', None, tags, 1000)
    if c.get('k1', MISSING, abort=True) is not None:
        raise Violation('the stored None is not returned')
    if c.get_many(['k1'], abort=True) != {'k1': None}:
        raise Violation('get_many does not return the stored None')
    return tags


def timeouts(ch):
    """Every entry disappears at its own timeout and not before; tag records do not outlive or kill it."""
    s = c01.System(ch, True, True)
    ttl = [ch.pick([1, 10, 300]) for i in range(2)]
    s.store(0, 'k1', ('t',), 0, ttl[0])
    s.advance(ch.pick([0, 5]))
    s.store(1, 'k2', ('t', 'u'), 0, ttl[1])
    for i in range(4):
        op = ch.choose(4)
        if op == 0:
            s.advance(ch.pick([1, 4, 290]))
        elif op == 1:
            s.store(0, 'k1', ('t',), 0, 20)
        elif op == 2:
            s.store(0, 'k3', ('t',), 0, 3)
        else:
            s.invalidate(0, ('u',))
        s.probe(('k1', 'k2', 'k3'), (0, 1))
    return s.outcome(('k1', 'k2', 'k3'))


def long_timeouts(ch):
    """Within a day of the creation of its tags an entry lives exactly as long as it was told to."""
    s = c01.System(ch, True, True)
    ttl = ch.pick([600, 10000, 50000, c01.DAY, 20 * c01.DAY])
    s.store(0, 'k1', ch.pick([('t',), ('t', 'u'), ()]), 0, ttl)
    left = c01.DAY - 100
    for i in range(3):
        step = ch.pick([5, 599, 9999, 49999, 80000])
        if step >= left:
            raise Prune()
        left -= step
        s.advance(step)
        op = ch.choose(3)
        if op == 0:
            s.store(1, 'k2', ('t', 'w'), 0, ttl)
        elif op == 1:
            s.invalidate(1, ('w',))
        s.probe(('k1', 'k2'), (0, 1))
    return ttl


def native_form(ch):
    """The native signature set(key, value, timeout[, version]) means what it means natively."""
    s = c01.System(ch, True, True)
    c = s.c[0]
    form = ch.choose(10)
    version = None if form < 4 else 2
    c.set('k1', 'old', 40, version=1 if version else 2)
    if form == 4:
        c.set('k1', 'v', 50, 2)
    elif form == 5:
        c.set('k1', 'v', 50, version=2)
    elif form == 6:
        c.set('k1', 'v', (), 50, 2)
    elif form == 7:
        c.set('k1', 'v', timeout=50, version=2)
    elif form == 8:
        c.set('k1', 'v', ('t',), timeout=50, version=2)
    elif form == 9:
        c.set('k1', 'v', tags=('t',), timeout=50, version=2)
    elif form == 0:
        c.set('k1', 'v', 50)
    elif form == 1:
        c.set('k1', 'v', 50, None)
    elif form == 2:
        c.set('k1', 'v', (), 50)
    else:
        c.set('k1', 'v', timeout=50)
    rt.clock.advance(ch.pick([10, 49]))
    if c.get('k1', version=version, abort=True) != 'v':
        raise Violation('the entry has expired early')
    if c.get('k1', version=1 if version else 2, abort=True) not in ('old', None):
        raise Violation('the entry is seen in another version')
    rt.clock.advance(60)
    if c.get('k1', version=version, abort=True) is not None:
        raise Violation('the entry has not expired')
    return form


STORE_FORMS = [
    lambda c, k, v, t, ver, kw: c.set(k, v, t, ver) if not kw else c.set(k, v, timeout=t, version=ver),
    lambda c, k, v, t, ver, kw: c.set(k, v, (), t, ver) if not kw else c.set(k, v, (), timeout=t, version=ver),
    lambda c, k, v, t, ver, kw: c.set(k, v, ['t'], t, ver) if not kw else c.set(k, v, tags=['t'], timeout=t, version=ver),
    lambda c, k, v, t, ver, kw: c.set(k, v, deps.TagsDependency('t'), t, ver) if not kw else c.set(
        k, v, deps.TagsDependency('t'), timeout=t, version=ver),
    lambda c, k, v, t, ver, kw: c.get_or_set_callback(k, lambda: v, ('t',), t, ver) if not kw else c.get_or_set_callback(
        k, lambda: v, tags=('t',), timeout=t, version=ver),
    lambda c, k, v, t, ver, kw: c.get_or_set_callback(k, lambda a, b: v, (), t, ver, [1], {'b': 2}) if not kw else c.get_or_set_callback(
        key=k, callback=lambda: v, timeout=t, version=ver),
    lambda c, k, v, t, ver, kw: c.cache.set(k, v, deps.TagsDependency('t'), t, ver) if not kw else c.cache.set(
        k, v, dependency=deps.TagsDependency('t'), timeout=t, version=ver),
    lambda c, k, v, t, ver, kw: c.cache.set(k, v, None, t, ver) if not kw else c.cache.set(k, v, timeout=t, version=ver),
    lambda c, k, v, t, ver, kw: c.cache.get_or_set_callback(k, lambda: v, deps.TagsDependency('t'), t, ver) if not kw else
    c.cache.get_or_set_callback(k, lambda: v, dependency=deps.TagsDependency('t'), timeout=t, version=ver),
    lambda c, k, v, t, ver, kw: c.add(k, v, t, ver) if not kw else c.add(k, v, timeout=t, version=ver),
    lambda c, k, v, t, ver, kw: c.set_many({k: v}, t, ver) if not kw else c.set_many({k: v}, timeout=t, version=ver),
]


def store_forms(ch):
    """Every way to store, positional or by name, with a timeout and a version: where the entry is seen, and how long."""
    s = c01.System(ch, True, True)
    c, other = s.c
    form, kw = ch.choose(len(STORE_FORMS)), ch.choose(2)
    version, t = ch.pick([None, 1, 2, 7]), ch.pick([30, 301, 4000])
    STORE_FORMS[form](c, 'k1', 'v', t, version, kw)
    where = {1: None, 2: None, 7: None}
    where[version or 1] = 'v'

    def look(where):
        for cache in (c, other):
            for ver, want in sorted(where.items()):
                for how, got in (('get', cache.get('k1', None, ver, abort=True)),
                                 ('get by name', cache.get(key='k1', version=ver, abort=True)),
                                 ('get_many', cache.get_many(['k1'], ver, abort=True).get('k1')),
                                 ('get_many by name', cache.get_many(keys=['k1', 'k2'], version=ver, abort=True).get('k1'))):
                    if got != want:
                        raise Violation('stored by way %d for %d s in version %r, after %d s %s in version %d gives %r' % (
                            form, t, version, rt.clock.now - start, how, ver, got))
    start = rt.clock.now
    look(where)
    rt.clock.advance(t - 2)
    look(where)
    if ch.choose(2):
        rt.clock.advance(4)
    else:
        how = ch.choose(4)
        if how == 0:
            c.delete('k1', version)
        elif how == 1:
            other.delete(key='k1', version=version)
        elif how == 2:
            c.delete_many(['k2', 'k1'], version)
        elif form in (2, 3, 4, 6, 8):
            other.invalidate_tags('t', version=version)
        else:
            raise Prune()
    where[version or 1] = None
    look(where)
    return form, version


def busy_transactions(ch):
    """Transactions on other tags, open or finished, of the same or another session, never remove an entry."""
    rt.fresh()
    alias = ch.pick(['rc0', 'rr0', 'rr2', 'ser0', 'rc2', 'ru2'])
    w, r = rt.sessions(2)
    coll = CacheCollection()
    model = Expect()
    for i, (k, tags) in enumerate((('k1', ('t',)), ('k2', ('t', 'u')), ('k3', ()))):
        r.call(lambda: coll[alias].set(k, i, tags, 10000))
        model.store(k, i, tags)
    own = ch.choose(2)
    s = r if own else w
    for i in range(4):
        op = ch.choose(6)
        if op == 0:
            s.call(lambda: coll[alias].transaction.begin())
        elif op == 1:
            s.call(lambda: coll[alias].transaction.finish())
        elif op == 2:
            s.call(lambda: coll[alias].invalidate_tags('x', 'T'))
        elif op == 3:
            s.call(lambda: coll[alias].set('k4', 9, ('t', 'x'), 10000))
            s.call(lambda: coll[alias].get('k1'))
        elif op == 4:
            rt.clock.advance(3)
        else:
            s.call(lambda: coll[alias].close())
        for sess in (w, r):
            for k in ('k1', 'k2', 'k3'):
                got = sess.call(lambda: coll[alias].get(k, MISSING, abort=True))
                model.check(k, got, MISSING, True, True, 'get')
    w.call(lambda: coll[alias].transaction.flush())
    r.call(lambda: coll[alias].transaction.flush())
    return alias, own


def check_present(rec):
    """A read that begins after a store has returned finds it, unless something else could have removed it."""
    sets = [c for c in rec.calls if c['kind'] == 'set']
    writes = sets + [c for c in rec.calls if c['kind'] == 'delete']
    invs = [c for c in rec.calls if c['kind'] == 'invalidate']

    def overlaps(a, b):
        return a['start'] < b['end'] and b['start'] < a['end']

    def record_exists(tag, s):
        """Nobody who may have found no record of the tag creates it again after the store."""
        for p in sets:
            if tag in p['tags'] and (p is s or p['end'] < s['start']) and \
                    not any(tag in i['tags'] and i['end'] > p['start'] for i in invs) and \
                    not any(tag in o['tags'] and o is not p and overlaps(o, p) and o['end'] > s['start'] for o in sets):
                return True
        return False
    for r in rec.calls:
        if r['kind'] != 'get' or r['result'] is not None:
            continue
        for s in sets:
            if s['key'] != r['key'] or s['end'] is None or s['end'] > r['start']:
                continue
            if any(w is not s and w['key'] == s['key'] and w['end'] > s['start'] for w in writes):
                continue
            if any(set(i['tags']) & set(s['tags']) and i['end'] > s['start'] and i['start'] < r['end'] for i in invs):
                continue
            if all(record_exists(t, s) for t in s['tags']):
                raise Violation('%s did not find %r, stored as %r with tags %s by %s and not invalidated, overwritten or '
                                'deleted since' % (r['who'], r['key'], s['value'], s['tags'], s['who']))


C_OPS = c04.OPS + [lambda s, w: c04.read_compute(s, w), lambda s, w: s.get(w, 'k1'),
                   lambda s, w: s.get_many(w, ['k9', 'k1']), lambda s, w: s.set(w, 'k3', ('t',))]


def concurrent(nops, split, idx):
    """Every pair of programs on two threads; whatever nobody has removed is found, during and after."""
    def run(ch):
        s = c04.Sys(ch, split)
        progs = []
        for t in range(2):
            p = [idx[ch.choose(len(idx))] for i in range(nops)]
            if progs and p < progs[-1]:
                raise Prune()
            progs.append(p)
        first = ch.choose(3)
        if first:
            s.set('W', 'k1', ('t',))
            s.set('W', 'k2', ('t', 'u'))
            s.composite('W')
        if first == 2:
            s.inv('W', 't')
        run_threads(ch, [lambda p=p, i=i: [C_OPS[o](s, 'T%d' % (i + 1)) for o in p] for i, p in enumerate(progs)])

        def end():
            for k in ('k1', 'k2', 'k9', 'k3'):
                s.get('F', k, abort=True)
            s.get_many('F', ['k1', 'k2', 'k9', 'k3'])
        rt.sessions(4)[3].call(end)
        check_present(s.rec)
        return tuple((c['who'], c['kind'], c.get('key'), c['result'] if c['kind'] == 'get' else None) for c in s.rec.calls)
    return run


def harnesses(tier):
    hs = c01.harnesses(tier, stale=False, present=True)
    return hs + [
        Harness('values', values, about='22 awkward values, 7 ways to store, 5 ways to read, 2 invalidations'),
        Harness('None', none_value, jobs=1, about='None as a value'),
        Harness('timeouts', timeouts, about='timeouts against clock advances, 4 operations'),
        Harness('long timeouts', long_timeouts, about='timeouts of minutes to days against steps of up to a day'),
        Harness('store forms', store_forms, about='every way to store x timeout x version x way to vanish'),
        Harness('native signature', native_form, jobs=1, about='set() called natively'),
        Harness('transactions on other tags', busy_transactions, about='4 operations of transactions on other tags, 6 levels'),
        Harness('two threads', concurrent(1, False, range(len(C_OPS))), bound=None if tier == 'thorough' else 2,
                about='all pairs of calls on two threads, all schedules within the preemption bound'),
        Harness('two threads, per key', concurrent(1, True, range(len(C_OPS))), bound=3 if tier == 'thorough' else 1,
                about='the same, multi-key operations one key at a time'),
        Harness('two threads, 2 calls', concurrent(2, False, [0, 1, 5, 7] if tier != 'thorough' else range(len(C_OPS))),
                bound=1, about='pairs of programs of two calls'),
    ]
