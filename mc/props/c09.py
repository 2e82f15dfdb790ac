"""Threads on shared objects: all statement-level schedules, and foreign use of a thread's object."""
from mc import rt
rt.instrument()
from mc.conc import *
from mc.props.c08 import depth_of

from django.core import signals
from django.http import HttpResponse
from django.template import engines
from django.test import RequestFactory
from django.utils.encoding import force_text
from django_cache_dependencies import nocache
from django_cache_dependencies.decorators import cache_page
from django_cache_dependencies.middleware import CacheMiddleware, FetchFromCacheMiddleware, TransactionMiddleware, UpdateCacheMiddleware

ASSUMPTIONS = ['a statement of the repository is atomic (switches are explored before every statement, and at locks)',
               'code outside of the repository (django, the interpreter) is thread safe']


class Wrong(Violation):
    pass


class Sys(object):
    def __init__(self, ch, alias):
        rt.fresh()
        self.ch, self.alias = ch, alias
        self.coll = CacheCollection()

    @property
    def c(self):
        return self.coll[self.alias]


def nested(s, p):
    """builds p1{p} out of p2{px}"""
    c = s.c
    c.get(p + '1')
    c.get(p + '2')
    c.set(p + '2', p + 'v2', (p + 'x',), 1000)
    c.set(p + '1', p + 'v1', (p,), 1000)
    return {p + '1': (p, p + 'x'), p + '2': (p + 'x',)}


def computed(s, p):
    c = s.c

    def inner():
        return p + 'v2'

    def outer():
        return c.get_or_set_callback(p + '2', inner, (p + 'x',), 1000)
    c.get_or_set_callback(p + '1', outer, (p,), 1000)
    return {p + '1': (p, p + 'x'), p + '2': (p + 'x',)}


def batched(s, p):
    c = s.c
    c.get(p + '1')
    c.get_many([p + '2', p + '3'])
    c.set(p + '2', p + 'v2', (p + 'x',), 1000)
    c.set(p + '1', p + 'v1', (p,), 1000)
    return {p + '1': (p, p + 'x'), p + '2': (p + 'x',)}


def aborted(s, p):
    c = s.c
    c.get(p + '9')
    c.abort(p + '9')
    c.get(p + '1')
    c.set(p + '1', p + 'v1', [p], 1000)
    return {p + '1': (p,)}


def transaction(s, p):
    c = s.c
    expect_depth(c, 0)
    with c.transaction:
        expect_depth(c, 1)
        c.invalidate_tags(p)
        c.transaction.begin()
        expect_depth(c, 2)
        c.transaction.finish()
        expect_depth(c, 1)
    expect_depth(c, 0)
    c.set(p + '1', p + 'v1', (p,), 1000)
    return {p + '1': (p,)}


def expect_depth(c, n):
    d = depth_of(c)
    if d != n:
        raise Violation('a thread has %d open scopes instead of %d' % (d, n))


def snapshot():
    return {k: dict(v) for k, v in rt.world.stores.items()}


def restore(stores):
    for k, v in stores.items():
        rt.world.stores[k] = dict(v)


def verify(s, want):
    """Which tags does each entry depend on?"""
    tags = sorted(set(t for ts in want.values() for t in ts))
    t = rt.Session()
    try:
        def body():
            c = s.c
            before = snapshot()
            for tag in [None] + tags:       # each alone
                restore(before)
                if tag is not None:
                    c.invalidate_tags(tag)
                alive = {k for k in want if tag not in want[k]}
                for k in sorted(want):
                    got = c.get(k, None, abort=True)
                    if (got is not None) != (k in alive):
                        raise Violation('entry %r with tags %s is %s although %s' % (
                            k, want[k], 'readable' if got else 'not readable',
                            'none of its tags was invalidated' if k in alive else 'one of its tags was invalidated'))
        t.call(body)
    finally:
        t.stop()


BODIES = [nested, computed, batched, aborted, transaction]


def race(s, ch, bodies, warm=True):
    """New threads, so that what the code keeps per thread is new in every execution."""
    ss = [rt.Session(), rt.Session()]
    try:
        if warm:
            for x in ss:
                x.call(lambda: s.c.set('warm', 1, ('warm',), 1000))
        run_threads(ch, bodies, ['A', 'B'], by_statement=True, max_points=20000, sessions=ss)
    finally:
        for x in ss:
            x.stop()


def pair(alias, a, b, warm=True, again=False):
    def run(ch):
        s = Sys(ch, alias)
        objs = {}
        results = {}

        def body(fn, p):
            c = s.c
            results[p] = fn(s, p)
            if again:
                results[p].update(nested(s, p + 'q'))
            if s.c is not c or s.coll(alias) is not c:
                raise Violation('the collection gave a thread another cache object')
            objs[p] = c
        race(s, ch, [lambda: body(a, 'a'), lambda: body(b, 'b')], warm)
        if objs['a'] is objs['b']:
            raise Violation('two threads were given one cache object')
        want = dict(results['a'])
        want.update(results['b'])
        verify(s, want)
        return len(want)
    return run


def lookups(alias, other, warm):
    """Threads that look up different aliases at the same time."""
    def run(ch):
        s = Sys(ch, alias)
        got = {}

        def body(p, mine, theirs):
            one = s.coll[mine]
            two = s.coll(theirs)
            three = s.coll[mine]
            if one is two:
                raise Violation('two aliases share an object')
            if three is not one:
                raise Violation('the collection gave a thread another cache object')
            one.set(p, mine, (p,), 1000)
            got[p] = one, two
        race(s, ch, [lambda: body('a', alias, other), lambda: body('b', other, alias)], warm)
        if got['a'][0] is got['b'][1] or got['a'][1] is got['b'][0]:
            raise Violation('two threads were given one cache object')
        t = rt.Session()
        try:
            def after():
                for p, mine, theirs in (('a', alias, other), ('b', other, alias)):
                    if s.coll[mine].get(p, None, abort=True) != mine:
                        raise Violation('%r is not in the store of %s' % (p, mine))
                    if s.coll[theirs].get(p, None, abort=True) is not None:
                        raise Violation('%r is in the store of %s' % (p, theirs))
            t.call(after)
        finally:
            t.stop()
        return 1
    return run


def same_tags(alias):
    """Both threads store under their own keys with common tags, which are created on the way."""
    def run(ch):
        s = Sys(ch, alias)

        def body(p):
            c = s.c
            c.get(p + '1')
            c.set(p + '1', p, ('t', p), 1000)
        race(s, ch, [lambda: body('a'), lambda: body('b')])
        t = rt.sessions(3)[2]

        def after():
            c = s.c
            c.set('z', 1, ('t',), 1000)
            c.invalidate_tags('t')
            for k in ('a1', 'b1', 'z'):
                if c.get(k, None, abort=True) is not None:
                    raise Violation('%r survived the invalidation of its tag' % k)
            if depth_of(c):
                raise Violation('open scopes')
        t.call(after)
        return 1
    return run


FOREIGN = [
    ('get', lambda c: c.get('n')),
    ('get of a hit', lambda c: c.get('h')),
    ('set', lambda c: c.set('n', 1, ('t',), 10)),
    ('set without tags', lambda c: c.set('n', 1)),
    ('get_many', lambda c: c.get_many(['n', 'h'])),
    ('get_or_set_callback', lambda c: c.get_or_set_callback('n', lambda: 1, ('t',), 10)),
    ('invalidate_tags', lambda c: c.invalidate_tags('t')),
    ('abort', lambda c: c.abort('p')),
    ('finish', lambda c: c.finish('p', deps.TagsDependency('t'))),
    ('begin of an entry', lambda c: c.begin('p')),
    ('transaction.begin', lambda c: c.transaction.begin()),
    ('transaction.finish', lambda c: c.transaction.finish()),
    ('transaction.flush', lambda c: c.transaction.flush()),
    ('transaction.current', lambda c: c.transaction.current()),
    ('with transaction', lambda c: c.transaction.__enter__()),
    ('decorated function', lambda c: c.transaction(lambda: None)()),
    ('transaction_begin', lambda c: c.transaction_begin()),
    ('transaction_finish', lambda c: c.transaction_finish()),
    ('transaction_finish_all', lambda c: c.transaction_finish_all()),
    ('close', lambda c: c.close()),
    ('relation_manager.get', lambda c: c.relation_manager.get('p')),
    ('relation_manager.pop', lambda c: c.relation_manager.pop('p')),
    ('relation_manager.current', lambda c: c.relation_manager.current()),
    ('relation_manager.clear', lambda c: c.relation_manager.clear()),
]


def foreign(alias, length):
    """Up to `length` operations of a foreign thread on an object whose owner is in the middle of everything."""
    def run(ch):
        s = Sys(ch, alias)
        a, b, d = rt.sessions(3)
        scopes = ch.choose(3)

        def start():
            c = s.c
            c.set('h', 'hit', ('hh',), 1000)
            for i in range(scopes):
                c.transaction.begin()
            c.get('p')
            c.get('q')
            c.set('q', 1, ('x',), 1000)
            return c
        c = a.call(start)
        own = b.call(lambda: s.c)
        if own is c:
            raise Violation('two threads were given one cache object')
        for i in range(length):
            name, op = FOREIGN[ch.choose(len(FOREIGN))]

            def use():
                try:
                    op(c)
                except Exception as e:
                    return e
                return None
            e = b.call(use)
            ch.note('foreign %s -> %s' % (name, type(e).__name__))
            if e is None:
                raise Violation('%s on the object of another thread was not refused' % name)
            if b.call(lambda: depth_of(own)):
                raise Violation('%s on the object of another thread opened a transaction in this one' % name)

        def end():
            if depth_of(c) != scopes:
                raise Violation('the owner has %d open scopes instead of %d' % (depth_of(c), scopes))
            c.set('p', 1, ('y',), 1000)
            for i in range(scopes):
                c.transaction.finish()
            if depth_of(c):
                raise Violation('the owner has open scopes at the end')
        a.call(end)
        verify(s, {'p': ('y', 'x'), 'q': ('x',)})
        return scopes
    return run


def objects(alias):
    """Which object each of several threads is given, in every order of first uses and of ends of threads."""
    def run(ch):
        s = Sys(ch, alias)
        live, objs, idents = [], {}, set()
        reused = 0
        for step in range(5):
            op = ch.choose(3)
            if op == 0:
                x = rt.Session()
                ident = x.call(rt.get_ident)
                reused += ident in idents
                idents.add(ident)

                def first():
                    c = s.c
                    if depth_of(c):
                        raise Violation('a new thread has an open transaction')
                    k = 'k%d' % step
                    c.set(k, 1, (k,), 1000)
                    c.transaction.begin()
                    c.get('open')
                    return c
                c = x.call(first)
                if any(c is o for o in objs.values()):
                    raise Violation('a new thread was given the object of another one')
                objs[x] = c
                live.append(x)
            elif op == 1:
                if not live:
                    raise Prune()
                x = live.pop(0)
                x.stop()
            else:
                if not live:
                    raise Prune()
                x = live[-1]

                def later():
                    c = s.c
                    if depth_of(c) < 1:
                        raise Violation('the transaction of a thread was lost')
                    return c
                if x.call(later) is not objs[x] or x.call(lambda: s.coll(alias)) is not objs[x]:
                    raise Violation('a thread was given different objects for one alias')
                other = x.call(lambda: s.coll['rc_b'])
                if other is objs[x]:
                    raise Violation('two aliases share an object')
        for x in live:
            x.stop()
        verify(s, {k: (k,) for k in ('k%d' % i for i in range(5)) if 'A' in rt.world.stores and any(
            r.endswith(':' + k) for r in rt.world.stores['A'])})
        return reused
    return run


def delayed(alias, nops):
    """Invalidations with a delay happen in threads of their own: on connections of their own, and on nobody's transaction."""
    def run(ch):
        s = Sys(ch, alias)
        threads = rt.sessions(2)
        depth = [0, 0]
        rt.world.foreign = False
        for step in range(nops):
            who = ch.choose(2) if step else 0
            op = ch.choose(5)
            if op == 0:
                threads[who].call(lambda: s.c.transaction.begin())
                depth[who] += 1
            elif op == 1:
                threads[who].call(lambda: s.c.invalidate_tags('t', 'u'))
            elif op == 2:
                if not depth[who]:
                    raise Prune()
                threads[who].call(lambda: s.c.transaction.finish())
                depth[who] -= 1
            elif op == 3:
                threads[who].call(lambda: s.c.get_or_set_callback('k%d' % step, lambda: step, ('t',), 1000))
            else:
                if who:
                    raise Prune()
                rt.clock.advance(3)
        rt.clock.advance(3)
        if rt.world.foreign:
            raise Violation('a thread has used the connection to the cache server of another one')
        for i in range(2):
            if threads[i].call(lambda: depth_of(s.c)) != depth[i]:
                raise Violation('T%d is in %d scopes instead of %d' % (i + 1, threads[i].call(lambda: depth_of(s.c)), depth[i]))
        return tuple(depth)
    return run


# -------------------------------------------------------------------------- objects of the site that all threads use

factory = RequestFactory()
FRAGMENT = """{% load cache_tagging_tags %}{% cache_tagging n t timeout=time nocache=1 %}<{{ p }}>{% cache_tagging m u tags=l %}{% cache_add_tags w %}({{ p }}){% end_cache_tagging %}{% if stop %}{% cache_tagging_prevent %}{% endif %}{% nocache %}echo(p + 'now'){% endnocache %}{% end_cache_tagging %}"""


class Shop(object):
    """What a site makes once, when it starts, and uses in each thread."""

    def __init__(self):
        rt.fresh()
        self.template = engines['django'].from_string(FRAGMENT)
        self.rendered = []

        class Update(UpdateCacheMiddleware):
            tags = staticmethod(self.tags)
        self.one = CacheMiddleware(self.view, tags=self.tags, cache_timeout=1000)
        self.fetch = FetchFromCacheMiddleware(self.view)
        self.two = Update(self.fetch)
        self.two.cache_timeout = 1000
        self.decorated = cache_page(1000, tags=self.tags)(self.view)
        self.transactional = dcd.cache.transaction(self.work)
        self.requests = TransactionMiddleware(self.work)

    def tags(self, request):
        return ['page' + request.path.strip('/')]

    def view(self, request):
        p = request.path.strip('/')
        self.rendered.append(p)
        return HttpResponse('page of %s: %s' % (p, dcd.cache.get_or_set_callback('part' + p, lambda: p + 'v', (p + 'x',), 1000)))

    def work(self, request):
        p = request.path.strip('/')
        c = dcd.caches['default']
        expect_depth(c, 1)
        c.invalidate_tags(p)
        with dcd.cache.transaction:
            expect_depth(c, 2)
            dcd.cache.invalidate_tags(p + 'x')
        expect_depth(c, 1)
        return 'done ' + p


def b_fragment(shop, p, stop=False):
    def render():
        return force_text(shop.template.render({'n': p + '1', 'm': p + '2', 't': p, 'u': p + 'u', 'l': [p + 'l'], 'w': p + 'w', 'p': p, 'stop': stop,
                                                'time': 1000}))
    for i in range(2):
        got = render()
        if got != '<%s>(%s)%snow' % (p, p, p):
            raise Violation('the fragment of %s is %r' % (p, got))
    inner = (p + 'u', p + 'l', p + 'w')
    want = {} if stop else {p + '1': inner + (p,)}
    want[p + '2'] = None if stop else inner     # within a prevented fragment an inner one may be stored
    if stop and dcd.cache.get(p + '1', None, abort=True) is not None:
        raise Violation('a prevented fragment was stored')
    return {k: (lambda k=k: dcd.cache.get(k, None, abort=True) is not None, v) for k, v in want.items() if v}


def b_prevented(shop, p):
    return b_fragment(shop, p, True)


def b_page(shop, p, app):
    def ask(n):
        response = getattr(shop, app)(factory.get('/%s/' % p))
        if force_text(response.content) != 'page of %s: %sv' % (p, p):
            raise Violation('%s was answered %r' % (p, response.content))
        signals.request_finished.send(sender=None)
        if shop.rendered.count(p) != n:
            raise Violation('the page of %s was rendered %d times instead of %d' % (p, shop.rendered.count(p), n))
    ask(1)
    ask(1)

    def stored():
        return shop.fetch.process_request(factory.get('/%s/' % p)) is not None
    return {'page of ' + p: (stored, ('page' + p, p + 'x')), 'part' + p: (lambda: dcd.cache.get('part' + p, None, abort=True) is not None, (p + 'x',))}


def b_one(shop, p):
    return b_page(shop, p, 'one')


def b_two(shop, p):
    return b_page(shop, p, 'two')


def b_decorated(shop, p):
    return b_page(shop, p, 'decorated')


def b_work(shop, p, app='transactional'):
    c = dcd.caches['default']
    c.set(p + '1', 1, (p,), 1000)
    for i in range(2):
        if getattr(shop, app)(factory.get('/%s/' % p)) != 'done ' + p:
            raise Violation('another result')
        expect_depth(c, 0)
    if c.get(p + '1', None, abort=True) is not None:
        raise Violation('an entry survived the invalidation of its tag')
    c.set(p + '1', 1, (p,), 1000)
    return {p + '1': (lambda: dcd.cache.get(p + '1', None, abort=True) is not None, (p,))}


def b_requests(shop, p):
    return b_work(shop, p, 'requests')


def b_island(shop, p):
    text = '%s-%secho(p, 1)%s-%s%%s%secho(q)%s' % (p, nocache.start(q=p), nocache.end(), p, nocache.start(q=p + 'q'), nocache.end())
    for i in range(2):
        got = nocache.handle(text % i, p=p + 'p')
        if got != '%s-%sp1-%s%d%sq' % (p, p, p, i, p):
            raise Violation('the island of %s printed %r' % (p, got))
    return {}


SHARED = [b_fragment, b_prevented, b_one, b_two, b_decorated, b_work, b_requests, b_island]


def shared(a, b):
    """Two threads use one compiled template, one middleware, one decorated function."""
    def run(ch):
        shop = Shop()
        results = {}

        def body(fn, p):
            results[p] = fn(shop, p)
        race(shop, ch, [lambda: body(a, 'a'), lambda: body(b, 'b')], warm=False)
        probes = dict(results['a'])
        probes.update(results['b'])
        tags = sorted(set(t for f, ts in probes.values() for t in ts))
        t = rt.Session()

        def after():
            before = snapshot()
            for tag in [None] + tags:
                restore(before)
                if tag is not None:
                    dcd.cache.invalidate_tags(tag)
                alive = {k for k in probes if tag not in probes[k][1]}
                for k in sorted(probes):
                    got = probes[k][0]()
                    if got != (k in alive):
                        raise Violation('%r with tags %s is %s' % (k, probes[k][1], 'still served' if got else 'not served'))
                dcd.close_caches()
        try:
            t.call(after)
        finally:
            t.stop()
        return len(probes)
    return run


def harnesses(tier):
    deep = tier == 'thorough'
    hs = []
    for i, a in enumerate(BODIES):
        for b in BODIES[i:]:
            if not deep and (a is computed and b not in (computed, transaction) or a is aborted and b is aborted):
                continue
            hs.append(Harness('%s | %s' % (a.__name__, b.__name__), pair('rr0', a, b), bound=1,
                              about='all statement-level schedules with one preemption'))
    for a in (BODIES if deep else [nested, transaction]):
        hs.append(Harness('first use: %s' % a.__name__, pair('rc0', a, nested, warm=False), bound=1,
                          about='the threads meet the collection for the first time'))
    for warm in (False, True):
        hs.append(Harness('lookups of two aliases%s' % (', warm' if warm else ''), lookups('rc0', 'rc_b', warm),
                          bound=2 if deep else 1, about='all statement-level schedules of lookups'))
    hs.append(Harness('same tags', same_tags('rc0'), bound=2 if deep else 1, about='common tags'))
    if deep:
        hs.append(Harness('aborted | aborted, 2 preemptions', pair('rc0', aborted, aborted), bound=2, about='...'))
        hs.append(Harness('nested | nested, 2 preemptions', pair('rc0', nested, nested), bound=2, about='...'))
    for i, a in enumerate(SHARED):
        for b in SHARED[i:]:
            if deep or a is b or (a, b) in ((b_fragment, b_prevented), (b_fragment, b_two), (b_one, b_decorated)):
                hs.append(Harness('shared, %s | %s' % (a.__name__[2:], b.__name__[2:]), shared(a, b), bound=1,
                                  about='one template, middleware or decorated function in two threads'))
    hs.append(Harness('foreign use', foreign('rr0', 2), about='all pairs of operations from a foreign thread'))
    hs.append(Harness('foreign use, rc0', foreign('rc0', 1), about='all operations from a foreign thread'))
    for alias in ('rc2', 'ru2', 'rr2'):
        hs.append(Harness('delayed, %s' % alias, delayed(alias, 6 if deep else 5 if alias == 'rc2' else 4),
                          about='all histories of transactions of two threads and of the passing of time'))
    hs.append(Harness('objects', objects('rc0'), about='all histories of starting, using and ending threads'))
    return hs
