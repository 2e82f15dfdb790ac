"""A failure of the cache server at every backend call, and every record forgotten at every moment."""
from mc.tx import *

ASSUMPTIONS = [
    'a failed call of the backend raises; it took effect completely or not at all (per key for batches)',
    'an entry is stale if it was stored before an invalidation of one of its tags that was reported complete',
    'what is forgotten is not lock records only: an entry stored after the invalidation from outdated data is the '
    'subject of C05, where the backend keeps lock records',
]

TAGS = ('t', 'u')


class Sys(Tx):
    def __init__(self, ch, alias, split):
        Tx.__init__(self, ch, alias, 3)
        rt.world.split = split
        self.entries = {}           # key -> [[value, tags, dead]]
        self.depth = 0
        self.pending = set()

    # -- model

    def stored(self, key, v, tags):
        self.entries.setdefault(key, []).append([v, frozenset(tags), False])

    def invalidated(self, tags):
        for cs in self.entries.values():
            for c in cs:
                if c[1] & set(tags):
                    c[2] = True

    def check(self, why):
        for who in (0, 2):
            keys = sorted(self.entries)
            got = self.reads(who, [(k, None) for k in keys])
            many = self.run(who, lambda c: c.get_many(keys, abort=True))
            for k, g in list(zip(keys, got)) + sorted(many.items()):
                self.seen(k, g, why)

    def seen(self, k, g, why):
        if g is MISSING:
            return
        cand = [c for c in self.entries.get(k, ()) if c[0] == g]
        if not cand:
            raise Violation('%s: %r read of %r was never stored' % (why, g, k))
        if cand[0][2]:
            raise Violation('%s: %r of %r with tags %s was read, but an invalidation of its tags had been reported '
                            'complete' % (why, g, k, sorted(cand[0][1])))

    # -- operations; the model is told before (what may happen) and after (what was reported)

    def put(self, who, key, tags):
        v = self.value(key)
        self.stored(key, v, tags)
        self.set(who, key, tags, value=v)

    def drop(self, who, tags):
        self.inv(who, tags)
        self.invalidated(tags)
        if who == 0 and self.depth:
            self.pending |= set(tags)

    def op(self, k):
        if k == 0:
            self.put(0, 'k1', ('t',))
        elif k == 1:
            self.put(1, 'k2', ('t', 'u'))
        elif k == 2:
            self.drop(0, ('t',))
        elif k == 3:
            self.drop(1, ('u',))
        elif k == 4:
            self.begin(0)
            self.depth += 1
        elif k == 5:
            self.finish(0)
            self.depth = max(0, self.depth - 1)
            self.ended()
        elif k == 6:
            v3, v4 = self.value('k3'), self.value('k4')
            self.stored('k4', v4, ('u',))
            self.stored('k3', v3, ('w', 'u'))

            def body(c):
                got = c.get('k3')
                if got is not None:
                    return self.seen('k3', got, 'a read')
                c.get_or_set_callback('k4', lambda: v4, ('u',), 1000)
                c.set('k3', v3, ('w',), 1000)
            self.run(0, body, 'builds k3 out of k4')
        elif k == 7:
            self.drop(0, ('t', 'u'))
        elif k == 8:
            v = self.value('k1')
            self.stored('k1', v, ('t', 'u'))
            self.seen('k1', self.run(0, lambda c: c.get_or_set_callback('k1', lambda: v, ('t', 'u'), 1000), 'get_or_set_callback k1'), 'a read')
        elif k == 9:
            self.close(0)
            self.depth = 0
            self.ended()
        elif k == 10:
            for k, v in self.run(0, lambda c: c.get_many(['k1', 'k2', 'k3']), 'get_many').items():
                self.seen(k, v, 'a read')
        elif k == 13:
            self.seen('k2', self.run(0, lambda c: c.get('k2', MISSING), 'get k2'), 'a read')
        elif k == 11:
            self.advance(1.5)
        elif k == 12:
            def body(c):
                with c.transaction:
                    c.invalidate_tags('u')
            self.run(0, body, 'with transaction: invalidate u')
            self.invalidated(('u',))
            if self.depth:
                self.pending.add('u')

    def ended(self):
        if not self.depth:
            # reported complete once more
            if not self.alias.startswith('ru'):
                self.invalidated(self.pending)
            self.pending = set()

    # -- after the fault

    def battery(self, tags):
        """The session works as a new one."""
        a, b, c2 = tags

        def build(c):
            c.begin('p1')
            c.set('c1', 'child', (b,), 1000)
            c.set('p1', 'parent', (a,), 1000)
        self.run(0, build, 'builds p1 out of c1')

        def there(keys, what):
            for who in (0, 2):
                for (k, v), got in zip(keys, self.reads(who, [(k, None) for k, v in keys])):
                    if got != v:
                        raise Violation('%s: %r of session %d gave %r instead of %r' % (what, k, who, got, v))
        there([('p1', 'parent'), ('c1', 'child')], 'after the fault, an entry built out of another one')
        self.run(1, lambda c: c.invalidate_tags(*(set(TAGS) | {'w', 'nobody'}) - set(tags)))
        there([('p1', 'parent'), ('c1', 'child')], 'after the fault and invalidation of other tags')
        self.inv(0, (b,))
        there([('p1', MISSING), ('c1', MISSING)], 'after the fault and invalidation of the inner tag')
        self.set(0, 'q', (c2,), value='q1')
        there([('q', 'q1')], 'after the fault, a store')
        self.begin(0)
        self.inv(0, (c2,))
        there([('q', MISSING)], 'after the fault, an invalidation within a transaction')
        self.set(0, 'own', (c2,), value='own1')
        there([('own', 'own1')], 'after the fault, a store within a transaction')
        self.begin(0)
        self.finish(0)
        there([('own', 'own1')], 'after the fault, end of an inner scope')
        self.finish(0)
        if not self.alias.startswith('ru'):
            there([('own', MISSING)], 'after the fault, end of the transaction')
        self.set(0, 'own', (c2,), value='own2')
        there([('own', 'own2')], 'after the fault, a store after a transaction')
        self.finish(0)
        self.close(0)
        there([('own', 'own2')], 'after the fault, end of the request')


OPS = list(range(14))


def faults(alias, depth, ops=OPS, split=False, prefix=(), most=1):
    """A history whose last operation meets one failure at one of its backend calls."""
    def run(ch):
        s = Sys(ch, alias, split)
        s.op(1)
        s.put(0, 'k1', ('t', 'u'))
        for k in prefix:
            s.op(k)
        for i in range(depth - 1):
            s.op(ch.pick(ops))
        last = ch.pick(ops)
        hit = []
        calls = [0]

        def decide(op, key):
            if ch.choose(2, [0, 1]):
                hit.append(op)
                return True

        def before(op, key):
            calls[0] += 1
            if len(hit) < most and decide(op, key):
                ch.note('the backend fails before %s %s' % (op, key))
                raise rt.BackendError('before')

        def after(op, key):
            if len(hit) < most and decide(op, key):
                ch.note('the backend fails after %s %s' % (op, key))
                raise rt.BackendError('after')
        rt.world.hook, rt.world.after = before, after
        failed = False
        try:
            s.op(last)
        except rt.BackendError:
            failed = True
        finally:
            rt.world.hook = rt.world.after = None
        if not hit:
            raise Prune()
        s.check('right after the fault')
        how = ch.choose(3)
        if how == 1:
            s.run(0, lambda c: c.transaction.finish(), 'finish')      # a with-block ends
            s.check('after the end of the scope')
        elif how == 2:
            s.drop(0, ('u',))
            s.check('after another invalidation')
        s.close(0)
        s.check('after the end of the request')
        if how == 0 and ch.choose(2):
            s.advance(30)
            s.check('later')
            s.battery(('t', 'u', 'w'))
        else:
            s.battery(('x', 'y', 'z'))
        s.check('at last')
        return alias, last, '+'.join(hit), failed, how
    return run


def evictions(alias, depth, ops=OPS, prefix=()):
    """A history during whose last two operations the backend forgets one record before one of the calls."""
    def run(ch):
        s = Sys(ch, alias, False)
        s.op(1)
        s.put(0, 'k1', ('t', 'u'))
        for k in prefix:
            s.op(k)
        for i in range(max(0, depth - 2)):
            s.op(ch.pick(ops))
        gone = []

        def before(op, key):
            if not gone:
                data = rt.world.stores['A']
                i = ch.choose(1 + len(data), [0] + [1] * len(data))
                if i:
                    k = list(data)[i - 1]
                    del data[k]
                    gone.append(k)
                    ch.note('the backend forgets %s' % k)
        for i in range(min(2, depth)):
            last = ch.pick(ops)
            rt.world.hook = before
            try:
                s.op(last)
            finally:
                rt.world.hook = None
        if not gone:
            raise Prune()
        s.check('after the record was forgotten')
        s.close(0)
        s.check('after the end of the request')
        s.battery(('x', 'y', 'z'))
        s.check('at last')
        return alias, last, len(s.entries)
    return run


def vanish(alias, more):
    """Everything forgotten, or any half of the records, between two operations."""
    def run(ch):
        s = Sys(ch, alias, False)
        s.op(1)
        s.put(0, 'k1', ('t', 'u'))
        s.op(6)
        s.op(ch.pick([2, 3, 4, 7]))
        data = rt.world.stores['A']
        for k in list(data):
            if ch.choose(2):
                del data[k]
        s.check('after some records were forgotten')
        for i in range(more):
            s.op(ch.pick([0, 2, 3, 5, 6, 7, 8]))
            s.check('after some records were forgotten')
        s.close(0)
        s.battery(('x', 'y', 'z'))
        return alias
    return run


def harnesses(tier):
    deep = tier == 'thorough'
    hs = []
    d = 3 if deep else 2
    every = ('rc0', 'rr0', 'ser0', 'rr2', 'rc2')
    for alias in every if deep else ('rc0', 'rr0'):
        hs.append(Harness('fault, %s' % alias, faults(alias, d), bound=1, about='every backend call of the last of %d operations' % d))
        if deep:
            hs.append(Harness('two faults, %s' % alias, faults(alias, 2, prefix=(4, 2), most=2), bound=2, about='two failures in the last of 2 operations'))
    for alias in every if deep else ('rc0', 'rr0', 'ser0'):
        hs.append(Harness('fault in a transaction, %s' % alias, faults(alias, d, split=True, prefix=(4, 2)), bound=1,
                          about='... within a transaction that has invalidated; batches key by key'))
    for alias in every if deep else ('rr2', 'rc2'):
        hs.append(Harness('fault in a nested transaction, %s' % alias, faults(alias, 2, prefix=(4, 7, 4)), bound=1,
                          about='... within a nested transaction'))
    for alias in every if deep else ('rc0',):
        hs.append(Harness('eviction, %s' % alias, evictions(alias, d), bound=1, about='every record forgotten before every backend call'))
    for alias in every if deep else ('rc0', 'rr0'):
        hs.append(Harness('eviction in a transaction, %s' % alias, evictions(alias, 2, prefix=(4, 2)), bound=1, about='... within a transaction'))
        hs.append(Harness('records vanish, %s' % alias, vanish(alias, 2 if deep else 1), about='every subset of the records forgotten'))
    return hs
