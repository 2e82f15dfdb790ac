"""All interleavings of readers, builders and invalidators."""
from mc.conc import *
from mc import remote
from mc.props import c01

cleanup = remote.cleanup

ASSUMPTIONS = ['a backend operation is atomic per key; multi-key operations are atomic or one key at a time']


class Sys(object):
    def __init__(self, ch, split=False, alias='rc0', tick=rt.TICK):
        rt.fresh(tick)
        rt.world.split = split
        self.ch = ch
        self.coll = CacheCollection()
        self.alias = alias
        self.rec = Recorder(ch)
        self.n = 0

    @property
    def cache(self):
        return self.coll[self.alias]

    def val(self, key):
        self.n += 1
        return '%s.%d' % (key, self.n)

    def get(self, who, key, **kw):
        return self.rec.call(who, 'get', lambda: self.cache.get(key, **kw), key=key)

    def get_many(self, who, keys):
        rt.point('call')
        start = self.rec.tick()
        got = self.cache.get_many(keys, abort=True)
        end = self.rec.tick()
        self.ch.note('%s: get_many(%r) -> %r' % (who, keys, got))
        for k in keys:
            self.rec.calls.append(dict(who=who, kind='get', key=k, start=start, end=end, result=got.get(k)))
        return got

    def set(self, who, key, tags, value=None):
        v = value or self.val(key)
        return self.rec.call(who, 'set', lambda: self.cache.set(key, v, tags, 1000), key=key, value=v, tags=tags)

    def delete(self, who, key):
        return self.rec.call(who, 'delete', lambda: self.cache.delete(key), key=key)

    def inv(self, who, *tags):
        return self.rec.call(who, 'invalidate', lambda: self.cache.invalidate_tags(*tags), tags=tags)

    def build(self, who, key, tags):
        v = self.get(who, key)
        if v is None:
            self.set(who, key, tags)
        return v

    def composite(self, who):
        """k9 contains k1"""
        v = self.get(who, 'k9')
        if v is None:
            w = self.get(who, 'k1')
            if w is None:
                w = self.val('k1')
                self.rec.call(who, 'set', lambda: self.cache.set('k1', w, ('t',), 1000), key='k1', value=w, tags=('t',))
            v = self.val('k9')
            self.rec.call(who, 'set', lambda: self.cache.set('k9', v, ('u',), 1000), key='k9', value=v, tags=('u', 't'))
        return v

    def finale(self, keys=('k1', 'k2', 'k9')):
        """After all activity: reads are still right, and everything works normally."""
        s = rt.sessions(4)[3]

        def body():
            for k in keys:
                self.get('F', k, abort=True)
            self.get_many('F', list(keys))
            self.set('F', 'k1', ('t',))
            self.set('F', 'k2', ('t', 'u'))
            got = self.get_many('F', ['k1', 'k2'])
            if len(got) != 2:
                raise Violation('after all activity a newly stored entry can not be read: %r' % (got,))
            self.inv('F', 'u')
            if self.get('F', 'k1', abort=True) is None or self.get('F', 'k2', abort=True) is not None:
                raise Violation('after all activity invalidation does not work normally')
            self.inv('F', 't')
            self.get_many('F', list(keys))
        s.call(body)
        self.rec.check()


OPS = [
    lambda s, w: s.build(w, 'k1', ('t',)),
    lambda s, w: s.inv(w, 't'),
    lambda s, w: s.set(w, 'k1', ('t', 'u')),
    lambda s, w: s.get_many(w, ['k1', 'k2']),
    lambda s, w: s.inv(w, 'u', 't'),
    lambda s, w: s.composite(w),
    lambda s, w: s.set(w, 'k2', ('u',)),
]
NAMES = ['build k1{t}', 'inv t', 'set k1{tu}', 'get_many', 'inv ut', 'composite k9', 'set k2{u}']


def programs(nthreads, nops, split, warm_choice=True, ops=None):
    """Every assignment of programs to threads (up to the order of the threads), every schedule within the bound."""
    idx = ops or list(range(len(OPS)))

    def run(ch):
        s = Sys(ch, split)
        progs = []
        for t in range(nthreads):
            p = [idx[ch.choose(len(idx))] for i in range(nops)]
            if progs and p < progs[-1]:
                raise Prune()
            progs.append(p)
        flat = [NAMES[o] for p in progs for o in p]
        if not any(x.startswith('inv') for x in flat) and not any('set' in x for x in flat):
            raise Prune()
        if warm_choice and ch.choose(2):
            s.set('W', 'k1', ('t',))
            s.set('W', 'k2', ('t', 'u'))
            s.ch.note('-- warm')
        run_threads(ch, [lambda p=p, i=i: [OPS[o](s, 'T%d' % (i + 1)) for o in p] for i, p in enumerate(progs)])
        s.finale()
        return tuple((c['who'], c['kind'], c.get('key'), c['result'] if c['kind'] == 'get' else None)
                     for c in s.rec.calls)
    return run


def scenario(bodies, split, warm=None):
    def run(ch):
        s = Sys(ch, split)
        if warm is not None:
            warm(s)
        run_threads(ch, [lambda b=b, i=i: b(s, 'T%d' % (i + 1)) for i, b in enumerate(bodies)])
        s.finale()
        return tuple((c['who'], c['kind'], c.get('key'), c['result'] if c['kind'] == 'get' else None)
                     for c in s.rec.calls)
    return run


def read_compute(s, w):
    rt.point('call')
    start = s.rec.tick()
    box = []

    def compute():
        box.append(s.val('k1'))
        rec = dict(who=w, kind='set', key='k1', value=box[0], tags=('t', 'u'), start=s.rec.tick(), end=None)
        s.rec.calls.append(rec)
        box.append(rec)
        return box[0]
    v = s.cache.get_or_set_callback('k1', compute, ('t', 'u'), 1000)
    end = s.rec.tick()
    if box:
        box[1]['end'] = end
        if v != box[0]:
            raise Violation('get_or_set_callback returned %r instead of the computed %r' % (v, box[0]))
    else:
        s.rec.calls.append(dict(who=w, kind='get', key='k1', start=start, end=end, result=v))
    s.ch.note('%s: get_or_set_callback -> %r' % (w, v))


def warm(s):
    s.set('W', 'k1', ('t',))
    s.set('W', 'k2', ('t', 'u'))


SCENARIOS = [
    ('builder, invalidator, reader', [lambda s, w: s.build(w, 'k1', ('t', 'u')),
                                      lambda s, w: s.inv(w, 't', 'u'),
                                      lambda s, w: (s.get(w, 'k1'), s.get_many(w, ['k1', 'k2']))], warm),
    ('two builders, invalidator', [lambda s, w: s.build(w, 'k1', ('t', 'u')),
                                   lambda s, w: s.build(w, 'k2', ('u', 't')),
                                   lambda s, w: (s.inv(w, 't'), s.get(w, 'k1'), s.get(w, 'k2'))], None),
    ('compute, invalidate twice, read', [read_compute,
                                         lambda s, w: (s.inv(w, 't'), s.inv(w, 'u')),
                                         lambda s, w: (s.get(w, 'k1'), s.get(w, 'k1'))], warm),
    ('two computes, invalidator', [read_compute, read_compute, lambda s, w: (s.inv(w, 'u'), s.get(w, 'k1'))], None),
    ('composite, fragment builder, invalidator', [lambda s, w: s.composite(w),
                                                  lambda s, w: s.build(w, 'k1', ('t',)),
                                                  lambda s, w: (s.inv(w, 't'), s.get(w, 'k9'))], None),
    ('overwrite, read, delete', [lambda s, w: (s.set(w, 'k1', ('u',)), s.set(w, 'k1', ('t',))),
                                 lambda s, w: (s.get(w, 'k1'), s.get(w, 'k1')),
                                 lambda s, w: (s.delete(w, 'k1'), s.inv(w, 't'))], warm),
]


def harnesses(tier):
    deep = tier == 'thorough'
    hs = []
    for name, bodies, w in SCENARIOS:
        for split in (False, True):
            hs.append(Harness('%s%s' % (name, ', per key' if split else ''), scenario(bodies, split, w),
                              bound=3 if deep else 2,
                              about='three threads, all schedules within the preemption bound'))
    remote.start(2)
    hs.append(Harness('programs', c01.remotely(lambda system: c01.history(4 if deep else 3, True, True, system=system)),
                      about='two programs, all interleavings of whole calls'))
    hs.append(Harness('2 threads, 1 call', programs(2, 1, False), bound=None if deep else 4,
                      about='all pairs of calls, all interleavings'))
    hs.append(Harness('2 threads, 1 call, per key', programs(2, 1, True), bound=4 if deep else 2,
                      about='all pairs of calls, multi-key operations one key at a time'))
    hs.append(Harness('2 threads, 2 calls', programs(2, 2, False, ops=None if deep else [0, 1, 2, 3, 5]), bound=2 if deep else 1,
                      about='all pairs of programs of 2 calls'))
    hs.append(Harness('3 threads, 1 call', programs(3, 1, False), bound=2 if deep else 1,
                      about='all triples of calls'))
    return hs
