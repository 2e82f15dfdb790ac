"""All well-bracketed building programs up to a size; afterwards every tag is invalidated in turn."""
from mc.sut import *
from mc import remote

cleanup = remote.cleanup

ASSUMPTIONS = ['a build is well bracketed: every miss is followed by the store, an abort or an exception in the compute '
               'function; an entry is not built inside itself']


class Boom(Exception):
    pass


class Stop(BaseException):
    """As KeyboardInterrupt, SystemExit or a greenlet's end: no Exception."""


class Program(object):
    """Executes actions against the cache and against the model at the same time."""

    def __init__(self, ch, size, names, kinds, alias, version=None, wrapper=False):
        rt.fresh()
        self.ch = ch
        self.left = size
        self.names = names
        self.kinds = kinds
        self.c = CacheCollection()[alias]
        self.version = version
        self.wrapper = wrapper
        self.model = {}         # name -> set of tags it depends on
        self.stack = []         # (name, set of inherited tags, begun while the inheritance was on) under construction
        self.n = 0
        self.values = {}
        self.off = False        # inheritance switched off for the cache
        self.kw = {} if version is None else {'version': version}
        self.c.set('h', 'hv', ('t_h', 't_h2'), 1000, version)
        self.model['h'] = {'t_h', 't_h2'}
        self.values['h'] = 'hv'
        self.depth = 0

    def inherit(self, tags):
        if not self.off:
            for _, acc, begun in self.stack:
                if begun:
                    acc |= tags

    def new_value(self, name):
        self.n += 1
        return '%s%d' % (name, self.n)

    locked = frozenset()        # tags locked by a transaction of another session

    def stored(self, name, value, own, inherited):
        if self.locked & (set(own) | inherited):
            self.note('   (refused)')
            return
        self.model[name] = set(own) | inherited
        self.values[name] = value

    def expect_read(self, name, got):
        if name in self.model:
            if got != self.values[name]:
                raise Violation('reading %r gave %r, not %r' % (name, got, self.values[name]))
        elif got is not None:
            raise Violation('reading %r gave %r, but it was not stored' % (name, got))

    def note(self, text):
        self.ch.note('  ' * self.depth + text)

    def actions(self):
        """A list of actions in the current context; ends when the chooser says so or the budget is used up."""
        while self.left > 0:
            menu = [None]
            under = {x[0] for x in self.stack}
            for k in self.kinds:
                if k in 'BGAXDN':
                    menu += [(k, n) for n in self.names if n not in under]
                else:
                    menu.append((k, None))
            # do not end early at the top: a shorter program is a prefix of a longer one
            if not self.stack:
                menu = menu[1:]
            a = self.ch.pick(menu)
            if a is None:
                return
            self.left -= 1
            self.depth += 1
            try:
                getattr(self, 'do_' + a[0])(a[1])
            finally:
                self.depth -= 1

    def tags_of(self, name):
        return ('t_' + name,)

    def body(self, name, begun):
        acc = set()
        self.stack.append((name, acc, begun))
        self.actions()
        self.stack.pop()
        return acc

    def do_B(self, name):
        """get, and on a miss: build, set"""
        begun = not self.off
        got = self.c.get(name, **self.kw)
        self.note('get(%r) -> %r' % (name, got))
        self.expect_read(name, got)
        if name in self.model:
            self.inherit(self.model[name])
            return
        acc = self.body(name, begun)
        v = self.new_value(name)
        self.c.set(name, v, self.tags_of(name), 1000, self.version)
        self.note('set(%r, tags=%s)' % (name, self.tags_of(name)))
        self.stored(name, v, self.tags_of(name), acc)
        self.inherit(set(self.tags_of(name)))

    def get_or_set(self, name, compute):
        if self.wrapper:
            return self.c.cache.get_or_set_callback(name, compute, deps.TagsDependency(*self.tags_of(name)), 1000, self.version)
        return self.c.get_or_set_callback(name, compute, self.tags_of(name), 1000, self.version)

    def do_G(self, name):
        """get_or_set_callback"""
        ran = []
        begun = not self.off

        def compute():
            acc = self.body(name, begun)
            ran.append((self.new_value(name), acc))
            return ran[0][0]
        self.note('get_or_set_callback(%r):' % name)
        got = self.get_or_set(name, compute)
        if ran:
            if name in self.model:
                raise Violation('%r was computed although it was cached' % name)
            self.stored(name, got, self.tags_of(name), ran[0][1])
            self.inherit(set(self.tags_of(name)))
        else:
            self.expect_read(name, got)
            self.inherit(self.model[name])

    def do_X(self, name):
        """get_or_set_callback whose function raises"""
        begun = not self.off

        def compute():
            self.body(name, begun)
            raise (Boom, Stop)[len(self.stack) + self.left & 1]()
        self.note('get_or_set_callback(%r) raises:' % name)
        try:
            got = self.get_or_set(name, compute)
        except (Boom, Stop):
            if name in self.model:
                raise Violation('%r was computed although it was cached' % name)
        else:
            self.expect_read(name, got)
            self.inherit(self.model[name])

    def do_A(self, name):
        """get, and on a miss: build, abort"""
        begun = not self.off
        got = self.c.get(name, **self.kw)
        self.note('get(%r) -> %r' % (name, got))
        self.expect_read(name, got)
        if name in self.model:
            self.inherit(self.model[name])
            return
        self.body(name, begun)
        self.c.abort(name)
        self.note('abort(%r)' % name)

    def do_D(self, name):
        """a plain set, without a miss before it"""
        v = self.new_value(name)
        self.c.set(name, v, self.tags_of(name), 1000, self.version)
        self.note('set(%r)' % name)
        self.stored(name, v, self.tags_of(name), set())
        self.inherit(set(self.tags_of(name)))

    def do_H(self, _):
        """read an entry that is there"""
        got = self.c.get('h', **self.kw)
        self.note('get("h") -> %r' % got)
        self.expect_read('h', got)
        self.inherit(self.model['h'])

    def do_N(self, name):
        """read without inheritance"""
        got = self.c.get(name, abort=True, **self.kw)
        self.note('get(%r, abort=True) -> %r' % (name, got))
        self.expect_read(name, got)

    def do_P(self, _):
        """batched read of everything that is not under construction"""
        under = {x[0] for x in self.stack}
        names = [n for n in self.names if n not in under] + ['h']
        got = self.c.get_many(names, **self.kw)
        self.note('get_many(%r) -> %r' % (names, got))
        want = {n: self.values[n] for n in names if n in self.model}
        if got != want:
            raise Violation('get_many gave %r instead of %r' % (got, want))
        for n in got:
            self.inherit(self.model[n])

    def do_Q(self, _):
        """batched read without inheritance"""
        under = {x[0] for x in self.stack}
        names = [n for n in self.names if n not in under] + ['h']
        got = self.c.get_many(names, abort=True, **self.kw)
        self.note('get_many(%r, abort=True) -> %r' % (names, got))
        want = {n: self.values[n] for n in names if n in self.model}
        if got != want:
            raise Violation('get_many gave %r instead of %r' % (got, want))

    def do_I(self, _):
        """switch inheritance off (or on again) for the cache"""
        self.off = not self.off
        self.c.ignore_descendants = self.off
        self.note('ignore_descendants = %r' % self.off)

    def verify(self):
        reader = CacheCollection()[self.alias]
        names = sorted(self.model)
        all_tags = ['t_' + n for n in self.names] + ['t_h', 't_h2']
        store = rt.world.stores['A']
        saved = dict(store)
        for tag in [None] + all_tags:
            if tag is not None:
                reader.invalidate_tags(tag, **self.kw)
            got = reader.get_many(names + [n for n in self.names if n not in self.model], abort=True, **self.kw)
            if set(got) - set(names):
                raise Violation('%s must not be readable' % sorted(set(got) - set(names)))
            for n in names:
                if tag in self.model[n]:
                    if n in got:
                        raise Violation('%r depends on %s by the way it was built, but is still read after invalidation '
                                        'of %s' % (n, sorted(self.model[n]), tag))
                elif n not in got:
                    raise Violation('%r depends on %s only, but invalidation of %s removed it' % (
                        n, sorted(self.model[n]), tag))
            store.clear()
            store.update(saved)


def programs(size, names, kinds, alias='rc0', version=None, transaction=False, wrapper=False, locked=()):
    def run(ch):
        p = Program(ch, size, names, kinds, alias, version, wrapper)
        p.alias = alias
        if locked:
            p.locked = frozenset(ch.pick(locked))
            p.note('another session has invalidated %s in a transaction' % sorted(p.locked))
            other = rt.sessions(1)[0]
            coll = CacheCollection()
            other.call(lambda: (coll[alias].transaction.begin(), coll[alias].invalidate_tags(*p.locked, **p.kw)))
        if transaction:
            p.c.transaction.begin()
        p.actions()
        if transaction:
            p.c.transaction.finish()
        p.verify()
        return tuple(sorted((n, tuple(sorted(t))) for n, t in p.model.items()))
    return run


def chain(ch):
    """Nesting up to depth 12, then one tag of the chain is invalidated: everything from there outwards must go."""
    rt.fresh()
    c = CacheCollection()['rc0']
    n = ch.pick([1, 2, 3, 7, 12, 40, 70, 110])
    api = ch.choose(3)

    def build(i):
        if i == n:
            return 0
        if api == 0:
            v = c.get('k%d' % i)
            if v is None:
                v = build(i + 1) + 1
                c.set('k%d' % i, v, ['t%d' % i])
            return v
        if api == 1:
            return c.get_or_set_callback('k%d' % i, lambda: build(i + 1) + 1, ['t%d' % i])
        v = c.get_many(['k%d' % i, 'none%d' % i]).get('k%d' % i)
        if v is None:
            return c.get_or_set_callback('k%d' % i, lambda: build(i + 1) + 1, ['t%d' % i])
        return v
    spots = list(range(n)) if n <= 12 else [0, 1, n // 2, n - 2, n - 1]
    start = ch.pick(spots) if ch.choose(2) else None
    if start is not None:
        build(start)            # the inner part is warm already
    build(0)
    t = ch.pick(spots)
    c.invalidate_tags('t%d' % t)
    for i in range(n):
        got = c.get('k%d' % i, abort=True)
        if i <= t and got is not None:
            raise Violation('k%d contains k%d, but survives the invalidation of its tag' % (i, t))
        if i > t and got is None:
            raise Violation('k%d does not contain k%d, but is gone' % (i, t))
    return n, t, api


def wide(ch):
    """A composite of many fragments of which some are hits."""
    rt.fresh()
    c = CacheCollection()['rc0']
    n = ch.pick([1, 2, 3, 8])
    batched = ch.choose(3)
    names = ['k%d' % i for i in range(n)]
    warm = [x for x in names if ch.choose(2)] if n < 8 else names[::2]
    for x in warm:
        c.set(x, x, ['t' + x])
    if c.get('top') is not None:
        raise Violation('top')
    got = c.get_many(names) if batched else {}
    for x in names:
        if batched == 1 and x in got:
            continue
        if batched == 2:
            if x not in got:
                c.set(x, x, ['t' + x])
        elif c.get(x) is None:
            c.set(x, x, ['t' + x])
    c.set('top', 'T', ())
    c.set('after', 'A', ())
    victim = ch.pick(names)
    c.invalidate_tags('t' + victim)
    if c.get('top', abort=True) is not None:
        raise Violation('the composite survives invalidation of its fragment %s' % victim)
    if c.get('after', abort=True) is None:
        raise Violation('an unrelated entry is gone')
    for x in names:
        if (c.get(x, abort=True) is None) != (x == victim):
            raise Violation('fragment %s after invalidation of %s' % (x, victim))
    return n, batched, len(warm)


def many(ch):
    """A composite of a great number of fragments, and a great number of others in between."""
    rt.fresh()
    c = CacheCollection()['rc0']
    n = ch.pick(MANY)
    api, warm, where = ch.choose(3), ch.choose(3), ch.choose(3)
    names = ['k%d' % i for i in range(n)]
    hits = names if warm == 1 else names[::3] if warm == 2 else []
    for x in hits:
        c.set(x, x, ['t' + x])
    c.set('aside', 'A', ['taside'])

    def fragments(some):
        got = c.get_many(some) if api == 2 else {}
        for x in some:
            if x in got:
                continue
            if api == 0:
                if c.get(x) is None:
                    c.set(x, x, ['t' + x])
            elif api == 1:
                c.get_or_set_callback(x, lambda: x, ['t' + x])
            else:
                c.set(x, x, ['t' + x])

    def inner():
        fragments(names[n // 2:])
        return 'inner'

    def outer():
        if where == 0:
            fragments(names)
            c.get_or_set_callback('inner', lambda: 'inner', ())
        elif where == 1:
            fragments(names[:n // 2])
            c.get_or_set_callback('inner', inner, ())
        else:
            c.get_or_set_callback('inner', inner, ())
            fragments(names[:n // 2])
        return 'top'
    if ch.choose(2):
        c.get_many(['missing%d' % i for i in range(n)])
    c.get_or_set_callback('top', outer, ())
    c.set('after', 'A', ())
    at = ch.pick([0, n // 3, n // 2, n - 1])
    c.invalidate_tags('t' + names[at])
    want = {'top': False, 'inner': at < n // 2 or where == 0, 'after': True, 'aside': True}
    for x in want:
        if (c.get(x, abort=True) is not None) != want[x]:
            raise Violation('%s is%s readable after the invalidation of fragment %d of %d' % (x, ' not' if want[x] else '', at, n))
    rest = c.get_many(names, abort=True)
    if set(rest) != set(names) - {names[at]}:
        raise Violation('%d of %d fragments are readable after the invalidation of one' % (len(rest), n))
    return n, api, warm, where


MANY = [5, 16, 17, 33, 65, 101, 129, 257, 513, 1025]


def two_programs(ch):
    """The fragments come from another program, and the tags of the latest store of them count."""
    rt.fresh()
    p = [remote.Remote(i, 'rc0') for i in (0, 1)]
    try:
        tags = {}
        for i in range(2):
            who = ch.choose(2)
            tags['f'] = ('t',) if ch.choose(2) else ('u', 'w')
            p[who].set('f', 'F%d' % i, tags['f'], 1000)
            ch.note('program %d stores f with %s' % (who, tags['f']))
            if ch.choose(2):
                for x in p:
                    x.get('f', None, abort=True)
        who, batch = ch.choose(2), ch.choose(2)
        ch.note('program %d builds' % who)
        p[who].get('top')
        if batch:
            p[who].get_many(['f', 'g'])
            p[who].set('g', 1, ('v',), 1000)
        else:
            p[who].get('f')
        p[who].set('top', 1, ('x',), 1000)
        tag = ('t', 'u', 'v', 'x', 'y')[ch.choose(5)]
        other = ch.choose(2)
        p[other].invalidate_tags(tag)
        ch.note('program %d invalidates %s' % (other, tag))
        want = tag not in tags['f'] + ('x',) + ('v',) * batch
        for i in (0, 1):
            if (p[i].get('top', None, abort=True) is not None) != want:
                raise Violation('the composite is%s readable by program %d' % (' not' if want else '', i))
        return tag, want
    finally:
        for x in p:
            x.sock.close()


def harnesses(tier):
    deep = tier == 'thorough'
    remote.start(2)
    hs = [
        Harness('two programs', two_programs, about='fragments and invalidations of another program'),
        Harness('all actions', programs(4 if deep else 3, ('a', 'b', 'c'), 'BGAXDNHPQI'),
                about='programs of %d actions out of all kinds, 3 names' % (4 if deep else 3)),
        Harness('deeper', programs(5 if deep else 4, ('a', 'b'), 'BGHPX'),
                about='programs of %d actions: build, get-or-compute, hit, batched read, raise; 2 names' % (5 if deep else 4)),
        Harness('deeper with aborts', programs(5 if deep else 4, ('a', 'b'), 'BADN'),
                about='programs of %d actions: build, abort, plain set, read without inheritance' % (5 if deep else 4)),
        Harness('switching', programs(5 if deep else 4, ('a', 'b'), 'BGAHPI' if not deep else 'BGHPI'),
                about='programs of %d actions with the inheritance switched at any point' % (5 if deep else 4)),
        Harness('version 2', programs(3, ('a', 'b'), 'BGHPXD', version=2), about='the same with an explicit version'),
        Harness('wrapper', programs(3, ('a', 'b'), 'BGHX', version=3, wrapper=True), about='get_or_set_callback of the cache below'),
        Harness('in a transaction', programs(3, ('a', 'b'), 'BGHPA', alias='rr0', transaction=True),
                about='inside a REPEATABLE READ transaction'),
        Harness('locked fragments', programs(4 if deep else 3, ('a', 'b', 'c'), 'BGXDN', alias='rr0', locked=[['t_a'], ['t_b', 't_x']]),
                about='while another session holds a lock of the tags of some fragments'),
        Harness('chain', chain, about='chains of depth 1 to 110, cold and partly warm'),
        Harness('many', many, about='composites of up to 1025 fragments'),
        Harness('wide', wide, about='composites of up to 8 fragments'),
    ]
    return hs
