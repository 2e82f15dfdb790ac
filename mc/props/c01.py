"""Histories of stores, invalidations, evictions and reads against a reference map.  Shared with C02."""
from mc.sut import *
from mc import remote
from django.utils.safestring import mark_safe

ASSUMPTIONS = ['the backend itself behaves like a dictionary with expiry',
               'random tag versions are distinct (a counter stands for the random source)']

DAY = 24 * 3600
cleanup = remote.cleanup


def name_of(tag):
    """A number and its digits are the same tag."""
    return str(tag) if isinstance(tag, int) else tag


def names_of(tags):
    return [name_of(t) for t in tags]


def tag_forms(i, tags):
    """The i-th way of passing tags to set()."""
    tags = list(tags)
    return [lambda: tuple(tags), lambda: list(tags), lambda: set(tags), lambda: frozenset(tags),
            lambda: deps.TagsDependency(*tags), lambda: deps.TagsDependency(list(tags)),
            lambda: deps.CompositeDependency(*[deps.TagsDependency(t) for t in tags])][i % 7]()


def do_invalidate(cache, i, tags):
    tags = list(tags)
    i %= 6
    if i == 0:
        cache.invalidate_tags(*tags)
    elif i == 1:
        cache.invalidate_tags(list(tags))
    elif i == 2:
        cache.invalidate_tags(set(tags))
    elif i == 3:
        cache.invalidate_tags(deps.TagsDependency(*tags))
    elif i == 4:
        cache.invalidate_dependency(deps.CompositeDependency(*[deps.TagsDependency(t) for t in tags]))
    else:
        cache.invalidate_tags(frozenset(tags))


class System(object):
    def __init__(self, ch, stale, present, alias='rc0', tick=rt.TICK):
        rt.fresh(tick)
        self.ch = ch
        self.stale, self.present = stale, present
        self.c = [CacheCollection()[alias], CacheCollection()[alias]]
        self.probe_cache = CacheCollection()[alias]
        self.model = Expect()
        self.n = 0
        self.records = {}

    def value(self):
        self.n += 1
        return 'v%d' % self.n

    def store(self, inst, key, tags, form=0, timeout=DAY * 30, version=None):
        v = self.value()
        self.c[inst].set(key, v, tag_forms(form, tags), timeout, version)
        self.model.store(key, v, names_of(tags), rt.clock.now + timeout)
        self.ch.note('cache%d.set(%r, %r, %s)' % (inst, key, v, sorted(tags, key=str)))

    def invalidate(self, inst, tags, form=0):
        do_invalidate(self.c[inst], form, tags)
        self.model.invalidate(names_of(tags))
        self.ch.note('cache%d.invalidate_tags(%s)' % (inst, ', '.join(sorted(map(repr, tags)))))

    def tag_records(self):
        """The backend records that are not entries: tag versions, in a stable order."""
        return [k for k in rt.world.stores.get('A', {}) if not k.split(':')[-1].startswith('k')]

    def evict_tags(self):
        for k in self.tag_records():
            del rt.world.stores['A'][k]
        for e in self.model.entries.values():
            if e[1] and e[2] == 'must':
                e[2] = 'maybe'
        self.ch.note('the backend forgets all tag records')

    def evict_one(self, i):
        ks = self.tag_records()
        if i < len(ks):
            del rt.world.stores['A'][ks[i]]
            for e in self.model.entries.values():
                if e[1] and e[2] == 'must':
                    e[2] = 'maybe'
            self.ch.note('the backend forgets tag record %d' % i)

    def advance(self, s):
        rt.clock.advance(s)
        self.model.at(rt.clock.now)
        if s >= DAY:
            for e in self.model.entries.values():
                if e[1] and e[2] == 'must':
                    e[2] = 'maybe'
        self.ch.note('%d s pass' % s)

    def probe(self, keys, insts=(0,)):
        self.model.at(rt.clock.now)
        for inst in (None,) + tuple(insts):
            c = self.probe_cache if inst is None else self.c[inst]
            for k in keys:
                got = c.get(k, MISSING, abort=True)
                self.model.check(k, got, MISSING, self.stale, self.present, 'get')
        many = self.probe_cache.get_many(list(keys), abort=True)
        for k in keys:
            self.model.check(k, many.get(k, MISSING), MISSING, self.stale, self.present, 'get_many')
        extra = set(many) - set(keys)
        if extra:
            raise Violation('get_many returned keys nobody asked for: %r' % sorted(extra))

    def outcome(self, keys):
        return tuple((k, self.model.entries[k][2] if k in self.model.entries else None) for k in keys)


class RemoteSystem(System):
    """The two cache objects are in two other programs."""
    def __init__(self, ch, stale, present, alias='rc0', tick=rt.TICK):
        System.__init__(self, ch, stale, present, alias, tick)
        self.c = [remote.Remote(i, alias) for i in (0, 1)]

    def close(self):
        for c in self.c:
            c.sock.close()


def remotely(harness):
    """harness(system class) with System replaced."""
    def run(ch):
        opened = []

        def system(*args):
            s = RemoteSystem(*args)
            opened.append(s)
            return s
        try:
            return harness(system)(ch)
        finally:
            for s in opened:
                s.close()
    return run


def base_ops(s, keys=('k1', 'k2')):
    """The alphabet: closures.  Two caches, two keys, two tags that overlap."""
    T, U = ('t',), ('u',)
    TU = ('t', 'u')
    ops = []
    for inst in (0, 1):
        ops.append(('set', inst, 'k1', T))
        ops.append(('set', inst, 'k2', TU))
        ops.append(('inv', inst, T))
    ops.append(('set', 0, 'k1', U))
    ops.append(('set', 0, 'k2', T))
    ops.append(('inv', 0, U))
    ops.append(('inv', 0, TU))
    ops.append(('evict',))
    ops.append(('day',))
    ops.append(('getset', 0, 'k1', T))
    ops.append(('delete', 'k2'))
    ops.append(('native', 'k1'))
    ops.append(('evict1', 0))
    return ops


def apply(s, op, form=0):
    kind = op[0]
    if kind == 'set':
        s.store(op[1], op[2], op[3], form)
    elif kind == 'inv':
        s.invalidate(op[1], op[2], form)
    elif kind == 'evict':
        s.evict_tags()
    elif kind == 'evict1':
        s.evict_one(op[1])
    elif kind == 'day':
        s.advance(DAY + 1)
    elif kind == 'getset':
        called = []

        def compute():
            called.append(1)
            return s.value()
        v = s.c[op[1]].get_or_set_callback(op[2], compute, tag_forms(form, op[3]), DAY * 30)
        s.ch.note('cache%d.get_or_set_callback(%r, tags=%s) -> %r, computed %d times' % (
            op[1], op[2], op[3], v, len(called)))
        if called:
            e = s.model.entries.get(op[2])
            if s.present and e is not None and e[2] == 'must':
                raise Violation('get_or_set_callback computed %r although %r was cached' % (op[2], e[0]))
            s.model.store(op[2], v, op[3], rt.clock.now + DAY * 30)
        else:
            s.model.check(op[2], v, MISSING, s.stale, s.present, 'get_or_set_callback')
        if len(called) > 1:
            raise Violation('computed twice')
    elif kind == 'delete':
        s.c[0].delete(op[1])
        s.model.delete(op[1])
        s.ch.note('cache0.delete(%r)' % op[1])
    elif kind == 'native':
        v = s.value()
        s.c[0].set_many({op[1]: v}, DAY * 30)
        s.model.store(op[1], v, ())
        s.ch.note('cache0.set_many({%r: %r})' % (op[1], v))
    else:
        raise ValueError(op)


def history(depth, stale, present, ops=base_ops, keys=('k1', 'k2'), tick=rt.TICK, setup=None, alias='rc0', system=System):
    def run(ch):
        s = system(ch, stale, present, alias, tick)
        if setup is not None:
            setup(s)
        menu = ops(s)
        for i in range(depth):
            op = ch.pick(menu)
            apply(s, op)
            if ch.fresh():
                s.probe(keys, (0, 1))
        return s.outcome(keys)
    return run


def forms(stale, present):
    """Every form of giving tags to the store x every form of giving them to the invalidation x which part of the
    tags is invalidated x entry or batched read x instance."""
    tagsets = [('t',), ('t', 'u'), ('t', 'u', 'w'), ('T',), ('t1',), ('tag with space é',), (5,), (b't',), ('5', 't'), (5, 't'), (-1, 0, 't')]
    def run(ch):
        s = System(ch, stale, present)
        tags = ch.pick(tagsets)
        f = ch.choose(7)
        s.store(0, 'k1', tags, f)
        s.store(0, 'k2', ('other', 'T' if 't' in tags else 'x'), f)
        s.store(1, 'k3', (), f)
        s.probe(('k1', 'k2', 'k3'), (0, 1))
        # any non-empty subset, plus near misses that must not matter
        sub = [t for t in tags if ch.choose(2)]
        if any(name_of(t) != t for t in sub) or '5' in sub:
            sub = [sub, [str(t) for t in sub], [5 if t == '5' else t for t in sub], [mark_safe(str(t)) for t in sub]][ch.choose(4)]
        extra = ch.pick([(), ('t2',), ('tt',), ('unrelated',), ('',)])
        g = ch.choose(6)
        todo = list(sub) + list(extra)
        if todo:
            s.invalidate(ch.choose(2), todo, g)
        s.probe(('k1', 'k2', 'k3'), (0, 1))
        s.store(1, 'k1', tags, f + 1)
        s.probe(('k1', 'k2', 'k3'), (0, 1))
        return (len(tags), len(sub), bool(extra)) + s.outcome(('k1', 'k2', 'k3'))
    return run


def many(stale, present):
    """Many entries and many tags: sizes up to 12, one tag invalidated, every entry probed."""
    def run(ch):
        s = System(ch, stale, present)
        n = ch.pick([1, 2, 3, 5, 12])
        shape = ch.choose(3)
        keys = ['k%d' % i for i in range(n)]
        for i, k in enumerate(keys):
            tags = [['g%d' % i], ['g%d' % i, 'all'], ['g%d' % j for j in range(i + 1)]][shape]
            s.store(i % 2, k, tags, i)
        s.probe(keys, (0,))
        target = ch.choose(n + 1)
        names = ['g%d' % i for i in range(n)] + ['all']
        s.invalidate(ch.choose(2), [names[target]], ch.choose(6))
        s.probe(keys, (0, 1))
        s.store(0, keys[0], ['fresh'])
        s.probe(keys, (0, 1))
        return (n, shape, target)
    return run


def large(stale, present, sizes):
    """Number of tags of an entry, of entries of a tag, of tags of an invalidation."""
    def run(ch):
        n = ch.pick(sizes)
        shape = ch.choose(4)
        s = System(ch, stale, present)
        tags = ['g%d' % i for i in range(n)]
        spots = range(n) if n <= 12 else (0, n // 2, n - 1)
        if shape == 0:              # one invalidation of all tags
            keys = ['k%d' % i for i in range(n)] + ['other']
            for i in range(n):
                s.store(i % 2, keys[i], [tags[i]])
            s.store(0, 'other', ['x'])
            s.invalidate(ch.choose(2), tags, ch.choose(6))
        elif shape == 1:            # ... of all but one
            keys = ['k%d' % i for i in range(n)]
            for i in range(n):
                s.store(i % 2, keys[i], [tags[i]])
            out = ch.pick(spots)
            s.invalidate(0, tags[:out] + tags[out + 1:], ch.choose(2))
        elif shape == 2:            # an entry with all tags, and one of them invalidated
            keys = ['k', 'k2', 'other']
            s.store(0, 'k', tags, ch.choose(7))
            s.store(1, 'k2', tags)
            s.store(1, 'other', ['x'] + ['h%d' % i for i in range(n)])
            s.probe(keys, (0, 1))
            s.invalidate(1, [tags[ch.pick(spots)]])
        else:                       # many entries with one tag in common
            keys = ['k%d' % i for i in range(n)] + ['other']
            for i in range(n):
                s.store(i % 2, keys[i], ['all', tags[i]])
            s.store(0, 'other', ['x'])
            s.probe(keys, ())
            s.invalidate(1, ['all'])
        s.probe(keys, (0, 1))
        s.store(0, keys[0], ['fresh'])
        s.probe(keys, (0,))
        return n, shape
    return run


def odd_names(stale, present):
    """Every pair of tags that differ only just, as tags and (apart from numbers) as keys."""
    def run(ch):
        s = System(ch, stale, present)
        i = ch.choose(len(NAMES))
        j = ch.choose(len(NAMES))
        if i == j:
            raise Prune()
        a, b = NAMES[i], NAMES[j]
        keys = [k if isinstance(k, type(u'')) else 'number %r' % (k,) for k in (a, b)]
        form = ch.choose(2)
        s.store(0, keys[0], (a,), form)
        s.store(1, keys[1], (b,), form)
        s.store(0, 'both', (a, b))
        s.probe(keys + ['both'], (0, 1))
        s.invalidate(0, (b,), form)
        s.probe(keys + ['both'], (0, 1))
        s.store(1, 'both', (a, b))
        s.store(1, keys[1], (b,))
        s.invalidate(1, (a,), form)
        s.probe(keys + ['both'], (0, 1))
        return s.outcome(keys)
    return run


def two_programs_tags(stale, present, system):
    """Every tag in every form, stored by one program, invalidated by the other."""
    def run(ch):
        s = system(ch, stale, present)
        more = [[n] for n in NAMES] + [['t', 'u', 'w'], [5, 't'], [b't', 't'], list('abcdefghijkl')]
        i = ch.choose(len(more))
        tags = more[i]
        one_tag = len(tags) == 1
        f = ch.choose(2) * 4 if one_tag else ch.choose(7)
        g = ch.choose(2) * 3 if one_tag else ch.choose(6)
        other = more[(i + 1) % len(NAMES)]
        s.store(0, 'k1', tags, f)
        s.store(0, 'k2', other, f)
        s.store(1, 'k3', (), f)
        s.probe(('k1', 'k2', 'k3'), (0, 1))
        s.invalidate(1, tags, g)
        s.probe(('k1', 'k2', 'k3'), (0, 1))
        s.store(1, 'k1', tags, f)
        s.probe(('k1', 'k2', 'k3'), (0, 1))
        s.invalidate(0, tags, g)
        s.probe(('k1', 'k2', 'k3'), (0, 1))
        return (i,) + s.outcome(('k1', 'k2', 'k3'))
    return run


def strict_server(ch):
    """Whatever the tags are called, on a server that takes only plain short keys."""
    rt.fresh()
    rt.world.strict = True
    names = NAMES + ['n' * 240, 'n' * 251, 'n' * 2000, u'\u00fc' * 130, 'a b\x7fc', 10 ** 300]
    tag = names[ch.choose(len(names))]
    alias = ch.pick(['rc0', 'rr0', 'rr2'])
    ss = rt.sessions(2)
    coll = CacheCollection()

    def read(i):
        return ss[i].call(lambda: coll[alias].get('k', None, abort=True))
    try:
        ss[0].call(lambda: coll[alias].set('k', 1, (tag, 'other'), 1000))
        if read(1) != 1:
            raise Violation('an entry with tag %r is not readable' % (tag,))
        how = ch.choose(3)

        def invalidate():
            c = coll[alias]
            if how:
                c.transaction.begin()
            c.invalidate_tags(tag)
            if how == 2:
                c.set('k', 3, (tag,), 1000)
            if how:
                c.transaction.finish()
        ss[1].call(invalidate)
        if read(0) is not None:
            raise Violation('an entry survived the invalidation of its tag %r' % (tag,))
        rt.clock.advance(10)
        ss[0].call(lambda: coll[alias].set('k', 2, (tag,), 1000))
        if read(1) != 2:
            raise Violation('an entry with tag %r is not readable after an invalidation' % (tag,))
    finally:
        rt.world.strict = False
    return how


def repeated(stale, present):
    """The same tag invalidated and re-created again and again, with the clock standing still."""
    def run(ch):
        s = System(ch, stale, present, tick=0)
        for i in range(5):
            x = ch.choose(4)
            if x == 0:
                s.store(i % 2, 'k1', ('t',))
            elif x == 1:
                s.store(i % 2, 'k2', ('t',))
            elif x == 2:
                s.invalidate(i % 2, ('t',))
            else:
                s.evict_tags()
            s.probe(('k1', 'k2'), (0, 1))
        return s.outcome(('k1', 'k2'))
    return run


def builds(stale, present, nops, system=System):
    """Invalidations, evictions and other stores in the middle of the construction of composites."""
    def run(ch):
        s = system(ch, stale, present)
        keys = ('k1', 'k2', 'k3', 'k9', 'k8')
        s.store(1, 'k1', ('t',))
        s.store(1, 'k3', ('t', 'u'))
        if ch.choose(2):
            s.store(0, 'k2', ('u',))

        def fragment(key, tags, inherits):
            old = s.model.entries.get(key)
            v = s.value()
            got = s.c[0].get_or_set_callback(key, lambda: v, tags, DAY * 30)
            s.ch.note('  build of %r -> %r' % (key, got))
            if got == v:
                if present and old is not None and old[2] == 'must':
                    raise Violation('%r was built again although it is valid' % key)
                s.model.store(key, v, tags, rt.clock.now + DAY * 30)
            else:
                s.model.check(key, got, MISSING, stale, present, 'get_or_set_callback')
                tags = old[1]
            for i in inherits:
                i.update(tags)

        def body(left, inherits):
            while left[0]:
                left[0] -= 1
                op = ch.choose(9)
                if op == 0:
                    left[0] = 0
                elif op == 1:
                    fragment('k1', ('t',), inherits)
                elif op == 2:
                    fragment('k2', ('u',), inherits)
                elif op == 3:
                    s.invalidate(0, ('t',))
                elif op == 4:
                    s.invalidate(1, ('u', 't'))
                elif op == 5:
                    s.evict_tags()
                elif op == 6:
                    s.store(1, 'k3', ('t', 'u'))
                elif op == 7:
                    got = s.c[0].get_many(['k1', 'k3'], abort=True)
                    for k in ('k1', 'k3'):
                        s.model.check(k, got.get(k, MISSING), MISSING, stale, present, 'get_many')
                elif len(inherits) == 1:
                    composite('k8', (), left, inherits)
                else:
                    raise Prune()

        def composite(key, tags, left, inherits):
            own = set(tags)
            v = s.value()
            s.ch.note('  construction of %r begins' % key)

            def compute():
                body(left, inherits + [own])
                return v
            got = s.c[0].get_or_set_callback(key, compute, tags, DAY * 30)
            s.ch.note('  construction of %r ends, with tags %s' % (key, sorted(own)))
            if got == v:
                s.model.store(key, v, own, rt.clock.now + DAY * 30)
            for i in inherits:
                i.update(own)

        composite('k9', ch.pick([(), ('u',)]), [nops], [])
        s.probe(keys, (0, 1))
        s.invalidate(*ch.pick([(0, ('t',)), (1, ('u',))]))
        s.probe(keys, (0, 1))
        return s.outcome(keys)
    return run


def harnesses(tier, stale=True, present=False):
    deep = tier == 'thorough'
    remote.start(2)
    return [
        Harness('two programs', remotely(lambda system: history(4 if deep else 3, stale, present, system=system)),
                about='histories of %d operations of two real programs with hash values and memory of their own' % (4 if deep else 3)),
        Harness('two programs, tags', remotely(lambda system: two_programs_tags(stale, present, system)), about='all names, ways of passing tags, from another program'),
        Harness('two programs, builds', remotely(lambda system: builds(stale, present, 3 if deep else 2, system)), about='composites, in two programs'),
        Harness('histories', history(5 if deep else 4, stale, present),
                about='all histories of %d operations out of 16 on 2 caches, 2 keys, 2 tags' % (5 if deep else 4)),
        Harness('forms of tags', forms(stale, present), about='all ways of passing tags and invalidations'),
        Harness('many entries', many(stale, present), about='1 to 12 entries and tags, one tag invalidated'),
        Harness('sizes', large(stale, present, SIZES if deep else SIZES[:22] + [64, 65, 100, 101, 129, 256, 257, 501, 1001, 1025]),
                about='numbers of tags and entries up to 1025'),
        Harness('strict server', strict_server, about='all names of tags, and a server that takes only plain and short keys'),
        Harness('odd names', odd_names(stale, present), about='all pairs of %d tags that differ only just' % len(NAMES)),
        Harness('frozen clock', repeated(stale, present), about='histories of 5 with a clock that stands still'),
        Harness('builds', builds(stale, present, 4 if deep else 3),
                about='all histories of %d operations within the construction of composites' % (4 if deep else 3)),
    ]
