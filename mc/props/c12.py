"""Versions and aliases do not interfere: every history against its projections onto one world at a time."""
import itertools
from mc.sut import *
from django_cache_dependencies import DefaultCacheProxy

ASSUMPTIONS = [
    'two builds that are open at the same time have different keys, also when their versions differ (the recorded finding)',
    'None and the backend\'s default version are not mixed within one nested build',
]


class World(object):
    """One of the worlds of a history: an alias with a version."""

    def __init__(self, name, alias, version, keys, fallback=None):
        self.name = name
        self.alias = alias
        self.version = version
        self.keys = keys


def op_open(c, w, key, n):
    c.get(key, None, w.version)


def op_set(tags):
    def f(c, w, key, n):
        c.set(key, n, tags, 1000, w.version)
    f.tags = tags
    return f


def op_native(c, w, key, n):
    c.set(key, n, (), 1000, w.version)


def op_delete(c, w, key, n):
    c.delete(key, version=w.version)


def op_abort(c, w, key, n):
    c.abort(key)


def op_inv(tag):
    def f(c, w, key, n):
        c.invalidate_tags(tag, version=w.version)
    return f


def op_get_many(c, w, key, n):
    c.get_many(list(w.keys), w.version)


def op_callback(tags):
    def f(c, w, key, n):
        c.get_or_set_callback(key, lambda: n, tags, 1000, w.version)
    return f


def op_wrapper_callback(tags):
    def f(c, w, key, n):
        c.cache.get_or_set_callback(key, lambda: n, deps.TagsDependency(*tags), 1000, w.version)
    return f


def op_wrapper_set(tags):
    def f(c, w, key, n):
        c.cache.set(key, n, deps.TagsDependency(*tags), 1000, w.version)
    return f


def op_wrapper_inv(tag):
    def f(c, w, key, n):
        c.cache.invalidate_dependency(deps.TagsDependency(tag), w.version)
    return f


def op_failing(wrapper):
    def f(c, w, key, n):
        try:
            if wrapper:
                c.cache.get_or_set_callback(key, lambda: 1 // 0, deps.TagsDependency('u'), 1000, w.version)
            else:
                c.get_or_set_callback(key, lambda: 1 // 0, ('u',), 1000, w.version)
        except ZeroDivisionError:
            pass
    return f


def op_many(c, w, key, n):
    c.set_many({key: n}, 1000, w.version)


def op_delete_many(c, w, key, n):
    c.delete_many([key], w.version)


def op_add(c, w, key, n):
    c.add(key, n, 1000, w.version)


def op_native_form(c, w, key, n):
    c.set(key, n, 1000, w.version)


def op_begin(c, w, key, n):
    c.transaction.begin()


def op_finish(c, w, key, n):
    c.transaction.finish()


def op_flush(c, w, key, n):
    c.transaction.flush()


def op_close(c, w, key, n):
    c.close()


def play(ch, worlds, history, sessions, only=None, rename=None, spread=None):
    """Executes the history restricted to the worlds in `only`; what each world shows after each step."""
    rt.fresh(0)
    coll = CacheCollection()
    ss = rt.sessions(sessions) if sessions else None
    views = []
    for i, (who, ws, f, key, text) in enumerate(history):
        def step():
            mine = [w for w in ws if only is None or w in only]
            if mine:
                w = mine[0]
                if rename is not None:
                    w = rename(w, i)
                f(coll[w.alias], w, key, 'v%d' % i)
        if sessions:
            ss[who].call(step)
        else:
            step()
        rt.clock.advance(1)

        def view():
            out = {}
            for w in worlds:
                if only is not None and w not in only:
                    continue
                w1 = rename(w, -1) if rename is not None else w
                c = coll[w1.alias]
                single = tuple(c.get(k, None, w1.version, abort=True) for k in w.keys)
                many = c.get_many(w.keys, w1.version, abort=True)
                if tuple(many.get(k) for k in w.keys) != single:
                    raise Violation('get gives %r, get_many %r for %r of %s' % (single, many, w.keys, w.name))
                out[w.name] = single
            return out
        views.append(ss[0].call(view) if sessions else view())
    if sessions:
        for s in ss[:sessions]:
            s.call(lambda: [c.close() for c in coll.all()])
    return views


def noninterference(worlds, ops, depth, sessions=0, shared=(), first=None):
    """ops: [(f, key selector or None, text)] available in each world; shared: ops that act in all worlds at once."""
    alphabet = []
    for who in range(max(1, sessions)):
        for f, text in shared:
            alphabet.append((who, worlds, f, None, text))
        for w in worlds:
            for f, k, text in ops:
                alphabet.append((who, [w], f, None if k is None else w.keys[k], '%s %s in %s' % (
                    text, '' if k is None else w.keys[k], w.name)))

    def run(ch):
        history = []
        for i in range(depth):
            history.append(alphabet[ch.choose(len(alphabet) if i or sessions < 2 else len(alphabet) // sessions)])
        for who, ws, f, key, text in history:
            ch.note('S%d: %s' % (who, text))
        full = play(ch, worlds, history, sessions)
        for w in worlds:
            alone = play(ch, worlds, history, sessions, [w])
            for i in range(depth):
                ch.note('after step %d %s shows %r, on its own %r' % (i + 1, w.name, full[i][w.name], alone[i][w.name]))
            for i in range(depth):
                if full[i][w.name] != alone[i][w.name]:
                    raise Violation('after step %d, %s shows %r for %r; without the other world it shows %r' % (
                        i + 1, w.name, full[i][w.name], w.keys, alone[i][w.name]))
        return repr(full[-1])
    return run


def renamed(alias, versions, ops, depth, sessions=0, shared=()):
    """The same history gives the same results in every version."""
    w = World('w', alias, versions[0], ['a', 'b'])
    alphabet = []
    for who in range(max(1, sessions)):
        for f, text in shared:
            alphabet.append((who, [w], f, None, text))
        for f, k, text in ops:
            alphabet.append((who, [w], f, None if k is None else w.keys[k], '%s %s' % (text, '' if k is None else w.keys[k])))

    def run(ch):
        history = [alphabet[ch.choose(len(alphabet) if i or sessions < 2 else len(alphabet) // sessions)] for i in range(depth)]
        for who, ws, f, key, text in history:
            ch.note('S%d: %s' % (who, text))
        results = []
        for v in versions:
            results.append(play(ch, [w], history, sessions, None, lambda w, i: World(w.name, alias, v, w.keys)))
        for v, r in zip(versions, results):
            if r != results[0]:
                raise Violation('in version %r the history gives %r, in version %r %r' % (v, r, versions[0], results[0]))
        return repr(results[0][-1])
    return run


def default_version(alias, number, ops, depth, sessions=0, shared=()):
    """None and the default version, mixed in every way, give what one of them alone gives."""
    w = World('w', alias, None, ['a', 'b'])
    alphabet = []
    for who in range(max(1, sessions)):
        for f, text in shared:
            alphabet.append((who, [w], f, None, text))
        for f, k, text in ops:
            alphabet.append((who, [w], f, None if k is None else w.keys[k], '%s %s' % (text, '' if k is None else w.keys[k])))

    def run(ch):
        history = [alphabet[ch.choose(len(alphabet) if i or sessions < 2 else len(alphabet) // sessions)] for i in range(depth)]
        want = play(ch, [w], history, sessions)
        used = [ch.choose(2) if h[2] not in (op_begin, op_finish, op_flush) else 0 for h in history]
        for (who, ws, f, key, text), u in zip(history, used):
            ch.note('S%d: %s, version %s' % (who, text, number if u else None))
        for read in (None, number):
            got = play(ch, [w], history, sessions, None,
                       lambda w, i: World(w.name, alias, read if i < 0 else number if used[i] else None, w.keys))
            if got != want:
                raise Violation('read with version %r: %r; without any version: %r' % (read, got, want))
        return repr(want[-1])
    return run


def same_key_nested(ch):
    """One key built in two versions, one build within the other."""
    rt.fresh()
    c = CacheCollection()['rc0']
    c.get('k', None, 1)
    c.get('part', None, 1)
    c.set('part', 'p', ('t',), 1000, 1)
    c.get('k', None, 2)
    c.set('k', 'two', ('u',), 1000, 2)
    c.set('k', 'one', ('w',), 1000, 1)
    c.invalidate_tags('t', version=1)
    if c.get('k', None, 1, abort=True) is not None:
        raise Violation('k of version 1 contains part, which was invalidated, and is still readable')


# ---------------------------------------------------------------------------------- what an alias stands for

def identity(ch):
    """However the collection is asked, an alias is one object per thread, with one transaction."""
    rt.fresh()
    coll = CacheCollection()
    names = [None, 'default', 'rc0', 'rr0', 'rc_b', 'store', 'rc_p']
    ways = [lambda n: coll[n], lambda n: coll(n), lambda n: coll(backend=n)]
    order = [ch.pick(names), ch.pick(names)]
    seen = {}
    for n in order:
        for i in (ch.choose(3), ch.choose(3)):
            c = ways[i](n)
            real = n or 'default'
            if real in seen and seen[real] is not c:
                raise Violation('%r gave another object the second time' % n)
            for other, o in seen.items():
                if other != real and (o is c or o.transaction is c.transaction or o.relation_manager is c.relation_manager):
                    raise Violation('aliases %r and %r share their bookkeeping' % (other, real))
            seen[real] = c
            if c.transaction is not ways[i](n).transaction:
                raise Violation('the transaction manager of %r changed' % n)
    if sorted(map(id, coll.all())) != sorted(map(id, seen.values())):
        raise Violation('all() does not list the caches of this thread')
    # another thread has its own bookkeeping, and the same stores
    a, b = rt.sessions(2)
    real = order[0] or 'default'
    seen[real].set('k', 1, ('t',), 1000)
    there = b.call(lambda: coll[order[0]])
    if there is seen[real] or there.transaction is seen[real].transaction or there.relation_manager is seen[real].relation_manager:
        raise Violation('two threads share the bookkeeping of %r' % real)
    if b.call(lambda: coll[order[0]].get('k')) != 1:
        raise Violation('an entry stored in one thread under %r is not seen in another' % real)
    b.call(lambda: coll[order[0]].close())
    return repr(order)


STORES = {'default': 'A', 'store': 'A', 'store2': 'B', 'store3': 'P', 'rc0': 'A', 'rc2': 'A', 'rr0': 'A', 'rr2': 'A',
          'ser0': 'A', 'ser2': 'A', 'ru0': 'A', 'ru2': 'A', 'rc_b': 'B', 'rr_b': 'B', 'rc_p': 'P', 'rr_p': 'P'}


def settings_hold(ch):
    """Each alias works on its own store at its own isolation level and with its own delay, whatever was used before."""
    rt.fresh(0)
    coll = CacheCollection()
    names = sorted(STORES)
    before, alias, other = ch.pick(['rc0', 'rr2', 'rr_b', 'default']), ch.pick(names), ch.pick(names)
    ch.note('%s used first, then %s; seen from %s' % (before, alias, other))
    a, b = rt.sessions(2)
    a.call(lambda: coll[before].set('x', 1, ('y',), 1000))

    def one():
        c = coll[alias]
        c.set('k', 1, ('t',), 1000)
        c.set('native', 2)
        c.transaction.begin()
        c.invalidate_tags('t')
    a.call(one)
    rt.clock.advance(1)

    def two():
        o = coll[other]
        o.set('m', 1, ('t',), 1000)
        return o.get('native', None, abort=True), o.get('m', None, abort=True)
    native, m = b.call(two)
    rt.clock.advance(1)
    a.call(lambda: coll[alias].transaction.finish())
    m2 = b.call(lambda: coll[other].get('m', None, abort=True))
    if m2 is None:
        b.call(lambda: coll[other].set('m', 3, ('t',), 1000))
    m3 = b.call(lambda: coll[other].get('m', None, abort=True))
    rt.clock.advance(2)
    m4 = b.call(lambda: coll[other].get('m', None, abort=True))
    together = STORES[alias] == STORES[other]
    level, delay = alias[:2] if alias[:2] in ('rr', 'se', 'ru') else 'rc', 2 if alias.endswith('2') and alias[0] != 's' or alias == 'ser2' else 0
    locks = level in ('rr', 'se')
    ch.note('native %r; m %r, after the end %r, stored again %r, after the delay %r' % (native, m, m2, m3, m4))
    want = {
        'native': 2 if together else None,
        'm': None if together and locks else 1,
        'm2': 1 if not together or level == 'ru' else None,
        'm3': 1 if not together or level == 'ru' else None if locks else 3,
        # after the delay: rc and ru invalidate a second time
        'm4': 1 if not together or level == 'ru' and not delay else None if delay and not locks or locks else 3,
    }
    got = {'native': native, 'm': m, 'm2': m2, 'm3': m3, 'm4': m4}
    if together and locks:
        # with a coarse clock the store right after the end, at the same instant, is refused as well
        pass
    if got != want:
        raise Violation('%s (store %s) seen through %s (store %s): %r instead of %r' % (
            alias, STORES[alias], other, STORES[other], got, want))
    a.call(lambda: [c.close() for c in coll.all()])
    b.call(lambda: [c.close() for c in coll.all()])
    return repr(got)


def default_proxy(ch):
    """django_cache_dependencies.cache is the default alias of the calling thread, in each respect."""
    rt.fresh()
    from django_cache_dependencies import cache as proxy, caches
    out = []

    def body():
        c = caches['default']
        how = ch.choose(6)
        if how == 0:
            proxy.set('k', 1, ('t',), 1000)
            ok = c.get('k') == 1
        elif how == 1:
            c.set('k', 1, ('t',), 1000)
            proxy.invalidate_tags('t')
            ok = c.get('k', None, abort=True) is None
        elif how == 2:
            proxy.ignore_descendants = True
            ok = c.cache.ignore_descendants is True and c.ignore_descendants is True
            proxy.ignore_descendants = False
        elif how == 3:
            with proxy.transaction:
                ok = bool(c.transaction.current())
            ok = ok and not c.transaction.current()
        elif how == 4:
            proxy.marker = 5
            ok = c.marker == 5
            del proxy.marker
            ok = ok and not hasattr(c.cache.cache, 'marker')
        else:
            ok = proxy == c and not proxy != c
        c.close()
        out.append((how, ok))
    s = rt.Session()
    try:
        s.call(body)
    finally:
        s.stop()
    if not out[0][1]:
        raise Violation('use %d of the default cache differs from caches["default"]' % out[0][0])
    return out[0]


NESTED = [(op_open, 0, 'look up'), (op_open, 1, 'look up'), (op_set(('t',)), 0, 'store {t}'), (op_set(('u', 't')), 1, 'store {t,u}'),
          (op_inv('t'), None, 'invalidate t'), (op_inv('u'), None, 'invalidate u')]
FLAT = [(op_set(('t',)), 0, 'store {t}'), (op_set(('u', 't')), 1, 'store {t,u}'), (op_native, 0, 'store without tags'),
        (op_delete, 1, 'delete'), (op_inv('t'), None, 'invalidate t'), (op_callback(('u',)), 0, 'get or create {u}')]
TRANS = [(op_set(('t',)), 0, 'store {t}'), (op_inv('t'), None, 'invalidate t')]
OTHER = [(op_wrapper_callback(('u',)), 0, 'wrapper: get or create {u}'), (op_wrapper_set(('t',)), 0, 'wrapper: store {t}'),
         (op_wrapper_inv('t'), None, 'wrapper: invalidate t'), (op_failing(True), 0, 'wrapper: failing get or create'),
         (op_failing(False), 1, 'failing get or create'), (op_set(('u', 't')), 1, 'store {t,u}'), (op_inv('u'), None, 'invalidate u'),
         (op_many, 0, 'set_many'), (op_delete_many, 0, 'delete_many'), (op_add, 0, 'add'), (op_native_form, 0, 'native form')]
SCOPES = [(op_begin, 'begin'), (op_finish, 'finish')]


def harnesses(tier):
    deep = tier == 'thorough'
    d = 1 if deep else 0

    def versions(alias, v1, v2, same_keys):
        return [World('version %s' % v1, alias, v1, ['a', 'b']),
                World('version %s' % v2, alias, v2, ['a', 'b'] if same_keys else ['c', 'd'])]

    def aliases(x, y):
        return [World(x, x, None, ['a', 'b']), World(y, y, None, ['a', 'b'])]
    scope_ops = [(op_begin, None, 'begin'), (op_finish, None, 'finish')]
    return [
        Harness('recorded: same key nested', same_key_nested, finding='same-key-nested'),
        Harness('versions, nested builds', noninterference(versions('rc0', 1, 2, False), NESTED, 4 + d),
                about='all sequences of lookups, stores and invalidations in two versions'),
        Harness('versions, same keys', noninterference(versions('rc0', 1, 2, True), FLAT, 4 + d),
                about='all sequences of complete operations on the same keys in two versions'),
        Harness('versions, every other operation', noninterference(versions('rc0', 2, 1, True), OTHER, 3 + d),
                about='the other ways to store, read, invalidate and delete, on the same keys in two versions'),
        Harness('every version the same, every other operation', renamed('rc0', [1, 2, None, 11, 1000], OTHER, 3 + d),
                about='one history of these in five versions'),
        Harness('versions, default and another', noninterference(versions('rr0', None, 2, True), FLAT[:2] + FLAT[3:5], 4 + d),
                about='the same with the default version'),
        Harness('versions, transactions rr', noninterference(versions('rr0', 1, 2, True), TRANS, 4 + d, 2, SCOPES),
                about='two sessions, all sequences with transaction scopes'),
        Harness('versions, transactions rc', noninterference(versions('rc0', 1, 2, True), TRANS, 4 + d, 2, SCOPES),
                about='two sessions, all sequences with transaction scopes'),
        Harness('versions, transactions with delay', noninterference(versions('rr2', 1, 2, True), TRANS, 4, 2, SCOPES),
                about='two sessions, delayed release'),
        Harness('versions, transactions rc with delay', noninterference(versions('rc2', 1, 2, True), TRANS, 4, 2, SCOPES),
                about='two sessions, delayed invalidation'),
        Harness('versions, zero and default', noninterference(versions('rr0', 0, None, True), TRANS, 4, 2, SCOPES), about='... with 0'),
        Harness('aliases, nested builds', noninterference(aliases('rc0', 'rc_b'), NESTED, 4 + d), about='two stores'),
        Harness('aliases, prefix', noninterference(aliases('rc0', 'rc_p'), NESTED[:1] + NESTED[2:5], 4 + d), about='one server, two key prefixes'),
        Harness('aliases, transactions', noninterference(aliases('rr0', 'rr_b'), TRANS + scope_ops, 4, 2),
                about='two sessions, own scopes in each alias'),
        Harness('every version the same', renamed('rc0', [1, 2, None, 7, 0], NESTED + [(op_get_many, None, 'get many'), (op_delete, 0, 'delete'), (op_callback(('u',)), 1, 'get or create {u}')], 4),
                about='one history in five versions'),
        Harness('every version the same, batches', renamed('rc0', [2, None], [NESTED[0], NESTED[2], NESTED[3], NESTED[5], (op_get_many, None, 'get many')], 5 + d),
                about='one longer history with batched lookups in two versions'),
        Harness('every version the same, transactions', renamed('rr0', [1, 2, None, 0, -1], TRANS, 5 + d, 2, SCOPES), about='one history in five versions'),
        Harness('default version', default_version('rc0', 1, FLAT, 3 + d), about='None and 1 mixed in every way'),
        Harness('default version 3', default_version('rc_p', 3, FLAT, 3), about='None and 3 mixed in every way, where 3 is the default'),
        Harness('default version, transactions', default_version('rr0', 1, TRANS, 4 + d, 2, SCOPES), about='None and 1 mixed in every way'),
        Harness('identity', identity, about='every way to ask for an alias'),
        Harness('settings', settings_hold, about='each alias seen through each other one'),
        Harness('default proxy', default_proxy, about='each use of the default cache object'),
    ]
