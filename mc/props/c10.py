"""Batches of every kind of entries, against single reads; dependency trees, against direct evaluation."""
import itertools
import sys
from mc.custom import *

ASSUMPTIONS = ['the backend answers a multi-key read in one round trip']

SHALLOW = 400

KINDS = ['missing', 'native', 'no tags', 'T', 'U', 'TU', 'composite', 'S', 'C', 'none', 'expired', 'mixed', 'empty']


def build_entries(c, kinds):
    """Stores an entry of the given kind under k0, k1, ...  Returns what each depends on (None: not stored)."""
    on = {}
    for i, kind in enumerate(kinds):
        k = 'k%d' % i
        v = 'v%d' % i
        if kind == 'missing':
            on[k] = None
            continue
        if kind == 'native':
            c.cache.cache.set(k, v, 1000)
            on[k] = set()
        elif kind == 'no tags':
            c.set(k, v, (), 1000)
            on[k] = set()
        elif kind in ('T', 'U', 'TU'):
            tags = set(kind.lower())
            c.set(k, v, tags, 1000)
            on[k] = tags
        elif kind == 'composite':
            c.get(k)
            c.get(k + 'part')
            c.set(k + 'part', 'p', ('u',), 1000)
            c.set(k, v, ('t',), 1000)
            on[k] = {'t', 'u'}
        elif kind in ('S', 'C', 'E'):
            c.set(k, v, build(kind), 1000)
            on[k] = depends_on(kind)
        elif kind == 'mixed':
            tree = ('S', ('T', 'C'))
            c.set(k, v, build(tree), 1000)
            on[k] = depends_on(tree)
        elif kind == 'none':
            c.set(k, None, ('t',), 1000)
            on[k] = {'t'}
        elif kind == 'empty':
            c.set(k, '', ('u',), 1000)
            on[k] = {'u'}
        elif kind == 'expired':
            c.set(k, v, ('t',), 5)
            on[k] = None
    return on


def value_of(kind, i):
    return {'none': None, 'empty': ''}.get(kind, 'v%d' % i)


FORMS = [list, tuple, iter, lambda ks: (k for k in ks), lambda ks: dict.fromkeys(ks).keys(), frozenset, lambda ks: list(ks) + list(ks)]


def trips(fn):
    rt.world.count, rt.world.ops = True, []
    try:
        return fn(), len(rt.world.ops), list(rt.world.ops)
    finally:
        rt.world.count = False


def batches(nkeys, kinds, what, count_trips=True, all_orders=True):
    def run(ch):
        rt.fresh()
        c = CacheCollection()['rc0']
        ks = ['k%d' % i for i in range(nkeys)]
        kd = [kinds[ch.choose(len(kinds))] for k in ks]
        on = build_entries(c, kd)
        rt.clock.advance(10)
        c.close()
        gone = set()
        for w in what:
            if ch.choose(2):
                gone.add(w)
                c.invalidate_dependency(INVALIDATORS[w]())
        ch.note('kinds %s, invalidated %s' % (kd, sorted(gone)))
        expect = {k: value_of(kd[i], i) for i, k in enumerate(ks) if on[k] is not None and not on[k] & gone}
        singles = {}
        for k in ks + ['nothing']:
            v, n, ops = trips(lambda: c.get(k, MISSING, abort=True))
            if v is not MISSING:
                singles[k] = v
            if n > 2 + (kd[ks.index(k)] in ('mixed',) if k in ks else 0):
                raise Violation('reading %r took %d round trips: %r' % (k, n, ops))
        if singles != expect:
            raise Violation('single reads gave %r instead of %r' % (singles, expect))
        orders = list(itertools.permutations(ks)) if all_orders else [tuple(ks), tuple(reversed(ks))]
        for order in orders:
            for form in FORMS if order == orders[-1] else FORMS[:1]:
                for abort in (True, False):
                    got, n, ops = trips(lambda: c.get_many(form(order), abort=abort))
                    if not abort:
                        c.close()
                    if got != expect:
                        raise Violation('get_many(%s) gave %r, reading each alone gives %r' % (list(order), got, expect))
                    if count_trips and n > 2:
                        raise Violation('get_many(%s) took %d round trips: %r' % (list(order), n, ops))
        for order in orders:
            got = c.get_many(list(order) + ['nothing'], abort=True)
            if got != expect:
                raise Violation('get_many(%s + missing) gave %r instead of %r' % (list(order), got, expect))
        # no batch has changed anything
        for k in ks:
            v = c.get(k, MISSING, abort=True)
            if v != expect.get(k, MISSING) and not (v is MISSING and k not in expect):
                raise Violation('after the batches %r reads %r' % (k, v))
        return tuple(sorted(expect))
    return run


def trees(budget, leaves, what):
    """A dependency tree evaluates and validates as the conjunction of its parts, and names those that failed."""
    def run(ch):
        rt.fresh()
        c = CacheCollection()['rc0']
        backend = c.cache.cache
        tree = choose_tree(ch, budget, leaves)
        on = depends_on(tree)
        d = build(tree)
        with c.transaction:
            d.evaluate(backend, c.transaction.current(), None)
        gone = set()
        for w in what:
            if ch.choose(2):
                gone.add(w)
                INVALIDATORS[w]().invalidate(backend, None)
        ch.note('tree %s, invalidated %s' % (text(tree), sorted(gone)))
        for repeat in (0, 1):
            (failed, deferred), n, ops = trips(lambda: validated(d, backend))
            if failed is None:
                if on & gone:
                    raise Violation('%s is valid although %s are invalid' % (text(tree), sorted(on & gone)))
            elif not on & gone:
                raise Violation('%s is invalid although all its parts are valid' % text(tree))
            elif not set(failed) == on & gone:
                raise Violation('%s blames %s instead of %s' % (text(tree), sorted(failed), sorted(on & gone)))
            if n > 2:
                raise Violation('validation of %s took %d round trips: %r' % (text(tree), n, ops))
        return tuple(sorted(on & gone))
    return run


def validated(d, backend):
    deferred = d.validate(backend, None)
    try:
        deferred.get()
    except exc.DependencyInvalid as e:
        return list(e.errors), deferred
    return None, deferred


def tree_batches(nkeys, budget, leaves, what):
    """Entries with dependency trees in one batch."""
    def run(ch):
        rt.fresh()
        c = CacheCollection()['rc0']
        trees = [choose_tree(ch, budget, leaves) for i in range(nkeys)]
        ks = ['k%d' % i for i in range(nkeys)]
        for k, t in zip(ks, trees):
            c.set(k, 'v' + k, build(t), 1000)
        gone = set()
        for w in what:
            if ch.choose(2):
                gone.add(w)
                c.invalidate_dependency(INVALIDATORS[w]())
        expect = {k: 'v' + k for k, t in zip(ks, trees) if not depends_on(t) & gone}
        ch.note('%s, invalidated %s' % ([text(t) for t in trees], sorted(gone)))
        for order in itertools.permutations(ks):
            got = c.get_many(order, abort=True)
            if got != expect:
                raise Violation('get_many(%s) gave %s instead of %s' % (list(order), sorted(got), sorted(expect)))
        for k in ks:
            if (c.get(k, None, abort=True) is not None) != (k in expect):
                raise Violation('get(%r) gives another verdict than get_many' % k)
        return tuple(sorted(expect))
    return run


def large(ch):
    """Many entries with many tags: still two round trips."""
    rt.fresh()
    c = CacheCollection()['rc0']
    n, m = ch.pick([(n, m) for n in SIZES for m in (1, 3) if n * m < 2000 or n % 100 == 0] + [(30, 12), (3, 300), (2, 1025), (2000, 1), (4000, 1)])
    hit = ch.choose(3)
    ks = ['k%d' % i for i in range(n)]
    for i, k in enumerate(ks):
        c.set(k, i, ['t%d' % ((i + j) % (n + m)) for j in range(m)], 1000)
    tag = 't%d' % (hit * (n + m) // 3)
    if hit:
        c.invalidate_tags(tag)
    expect = {k: i for i, k in enumerate(ks) if not hit or tag not in ['t%d' % ((i + j) % (n + m)) for j in range(m)]}
    limit = sys.getrecursionlimit()
    sys.setrecursionlimit(SHALLOW)      # the depth of the stack does not depend on the size of the batch
    try:
        got, trip, ops = trips(lambda: c.get_many(ks, abort=True))
    except RecursionError:
        raise Violation('%d entries with %d tags: the stack overflows' % (n, m))
    finally:
        sys.setrecursionlimit(limit)
    if got != expect:
        raise Violation('%d entries with %d tags: got %s instead of %s' % (n, m, sorted(got), sorted(expect)))
    if trip > 2:
        raise Violation('%d entries with %d tags took %d round trips' % (n, m, trip))
    return n, m, hit


def harnesses(tier):
    deep = tier == 'thorough'
    hs = [
        Harness('pairs', batches(2, KINDS, 'tusc'), about='all pairs of kinds, all sets of invalidated parts, orders, iterables'),
        Harness('triples', batches(3, ['missing', 'native', 'T', 'U', 'TU', 'composite', 'S'] if not deep else KINDS[:9], 'tus'),
                about='all triples of kinds'),
        Harness('quadruples', batches(4, ['native', 'T', 'U', 'S'] if not deep else ['native', 'T', 'U', 'TU', 'S', 'C'], 'tu', all_orders=deep),
                about='all quadruples of kinds'),
        Harness('two queries', batches(3, ['T', 'E', 'no tags', 'mixed'], 'te', count_trips=False), about='queries that can not be combined'),
        Harness('trees', trees(6 if deep else 5, ['T', 'U', 'S', '0'], 'tus'), about='all dependency trees up to 5 nodes'),
        Harness('trees of queries', trees(5 if deep else 4, ['T', 'C', 'E', 'S', 'R'], 'tces'), about='all dependency trees of mixed queries'),
        Harness('batches of trees', tree_batches(2, 4 if deep else 3, ['T', 'U', 'S', 'E', '0'], 'tus'), about='all pairs of dependency trees'),
        Harness('batches of three trees', tree_batches(3, 3 if deep else 2, ['T', 'U', 'S'], 'tus'), about='all triples of dependency trees'),
        Harness('large', large, about='sizes'),
    ]
    return hs
